from symx.case import Case
from harness import common as K

ASSUMPTIONS = ["register writes reach the chip through State.apply(create(reg, value)), as the processing loop does"]


GLOBALS = (0x00, 0x01, 0x0A, 0x0F, 0x10, 0x11, 0x12, 0x14, 0x18, 0x19, 0x1B, 0x1F)
OTHERS = (0x22, 0x27, 0x2A, 0x32, 0x3A, 0x42, 0x62, 0x82, 0xA2, 0xC2, 0xE2, 0xFF)
FAR = 1 << 40


def one_write(env, lo, hi, prop, before=()):
    """Arbitrary register file, one arbitrary write (after another one, if asked for), then every channel's parameters are read back
    through a key-on of each channel (distinct operator masks, so each captures its own instrument)."""
    chip = K.Chip(env)
    chip.fill(K.ALL_REGS, "pre")
    chip.wait(7)
    chip.key(0, 15)                         # the song has started; an earlier event and instrument exist
    first_ev = K.pitch_of(chip.s.key_presses(0)[0])
    first_cfg = K.instrument_of(chip.s.configs[0])
    want_cfg, want_ev = chip.ref.instrument(0), chip.ref.pitch(0)
    t = env.int("wait", 0, FAR)
    chip.wait(t)
    first = env.choose("before", before) if before else None
    if first not in (None, "same"):
        chip.write(first, env.int("value0", 0, 255))
    reg = env.fix(env.int("reg", lo, hi))
    if reg == 0x08:
        env.reach("key")
        return
    if first == "same":
        chip.write(reg, env.int("value0", 0, 255))
    value = env.int("value", 0, 255)
    addressed = set(chip.write(reg, value))
    n_ev = [len(chip.s.key_presses(c)) for c in range(8)]
    n_cfg, ticks = len(chip.s.configs), list(chip.s.ticks())
    # read back
    for ch in range(8):
        chip.key(ch, ch + 1)
    env.check(len(chip.s.configs) == 9, "eight key-ons with different operator sets did not capture eight instruments")
    for ch in range(8):
        evs = chip.s.key_presses(ch)
        env.check(len(evs) == n_ev[ch] + 1, "a key-on was not logged exactly once")
        ev = evs[-1]
        cfg = chip.s.configs[env.fix(ev.config_id)]
        got, want = K.instrument_of(cfg), chip.ref.instrument(ch)
        gotp, wantp = K.pitch_of(ev), chip.ref.pitch(ch)
        hit = [k for k in want if k in addressed or ((ch,) + k) in addressed]
        hitp = [f for f in K.NOTE_FIELDS if (ch, "note." + f) in addressed]
        if prop == "C07":
            K.check_same(env, got, want, hit, "register %02X: captured instrument parameter differs from the value written" % reg)
            K.check_same(env, gotp, wantp, hitp, "register %02X: captured pitch differs from the value written" % reg)
            if ch == (reg & 7):
                for k in hit:
                    env.observe(str(k), got[k])
        else:
            K.check_same(env, got, want, [k for k in want if k not in hit], "a write to register %02X changed another parameter" % reg)
            K.check_same(env, gotp, wantp, [f for f in K.NOTE_FIELDS if f not in hitp], "a write to register %02X changed another pitch" % reg)
    if prop == "C08":
        env.check(n_ev == [1, 0, 0, 0, 0, 0, 0, 0] and n_cfg == 1, "a write to register %02X created an event or an instrument" % reg)
        env.check(env.and_(len(ticks) == 1, ticks[0] == 7), "a write to register %02X changed the beat list" % reg)
        env.check(chip.s.key_presses(0)[-1].sample == t + 7, "a write to register %02X changed the song time" % reg)
        K.check_same(env, K.instrument_of(chip.s.configs[0]), want_cfg, list(want_cfg), "a write to register %02X changed a captured instrument" % reg)
        K.check_same(env, K.pitch_of(chip.s.key_presses(0)[0]), want_ev, list(want_ev), "a write to register %02X changed a recorded event" % reg)
    env.reach("readback")


def power_on(env, prop):
    """Nothing written: every parameter of every channel is zero; each register class written once."""
    chip = K.Chip(env)
    reg = env.fix(env.int("reg", 0, 255))
    if reg == 8:
        return
    addressed = set(chip.write(reg, env.int("value", 0, 255)))
    ch = env.choose("ch", range(8))
    chip.wait(1)
    chip.key(ch, 15)
    ev = chip.s.key_presses(ch)[0]
    cfg = chip.s.configs[0]
    want = chip.ref.instrument(ch)
    wantp = chip.ref.pitch(ch)
    sel = (lambda k: True)
    got, gotp = K.instrument_of(cfg), K.pitch_of(ev)
    if prop == "C07":
        K.check_same(env, got, want, [k for k in want if k in addressed or ((ch,) + k) in addressed], "register %02X from power-on" % reg)
        K.check_same(env, gotp, wantp, [f for f in wantp if (ch, "note." + f) in addressed], "register %02X pitch from power-on" % reg)
    else:
        K.check_same(env, got, want, [k for k in want if not (k in addressed or ((ch,) + k) in addressed)], "register %02X changed another parameter from power-on" % reg)
        K.check_same(env, gotp, wantp, [f for f in wantp if (ch, "note." + f) not in addressed], "register %02X changed another pitch from power-on" % reg)
    env.reach("readback")


def late(env, n, every, prop, only=None, skew=0):
    """n writes, one register after the other and round again, of all registers or 32 of them; all parameters are read back every now and then."""
    chip = K.Chip(env)
    roll = K.Rolls(7)
    vals = [env.int("v%d" % i, 0, 255) for i in range(13)]
    regs = [r for r in range(256) if r not in (0x08, 0x18)] if only is None else list(range(only, only + 32))
    seen = 0
    for _ in range(skew):
        chip.write(0x18, 0)
    for i in range(n):
        r = regs[i % len(regs)]
        symbolic = roll(3) and r != 0x19            # bit 7 of 0x19 chooses the parameter it addresses
        chip.write(r, vals[(i + i // len(regs)) % 13] if symbolic else roll(256))
        if i % every == every - 1 or i == n - 1:
            chip.write(0x18, seen & 255)            # tells the instruments of one round from those of another
            chip.wait(1 + roll(1000))
            for ch in range(8):
                chip.key(ch, ch + 1)
            env.check(len(chip.s.configs) == 8 * (seen + 1), "eight key-ons with different operator sets did not capture eight instruments")
            for ch in range(8):
                ev = chip.s.key_presses(ch)[-1]
                got, want = K.instrument_of(chip.s.configs[env.fix(ev.config_id)]), chip.ref.instrument(ch)
                gotp, wantp = K.pitch_of(ev), chip.ref.pitch(ch)
                K.check_same(env, got, want, list(want), "an instrument parameter differs from the value written last")
                K.check_same(env, gotp, wantp, list(wantp), "the pitch differs from the value written last")
            seen += 1
    if prop == "C08":
        K.check_log(env, chip.s, chip)
    env.reach("readback")


def cases(tier, prop="C07"):
    out = []
    b = "all register and value bytes, one write from an arbitrary register file (every parameter register of every channel symbolic)"
    step = 8
    for lo in range(0, 256, step):
        out.append(Case("write_%02x" % lo, one_write, {"lo": lo, "hi": lo + step - 1, "prop": prop}, b, reach=("readback",), weight=3))
    for lo in range(0, 256, 16):
        out.append(Case("again_%02x" % lo, one_write, {"lo": lo, "hi": lo + 15, "prop": prop, "before": ("same",)}, "two writes of any values to the same register, any register", reach=("readback",), weight=6))
    for reg in GLOBALS if tier == "quick" else GLOBALS + OTHERS:
        out.append(Case("after_%02x" % reg, one_write, {"lo": reg, "hi": reg, "prop": prop, "before": GLOBALS + OTHERS}, "any value written to register %02X after any value written to one of %d other registers" % (reg, len(GLOBALS + OTHERS)), reach=("readback",), weight=6))
    n, every = (5200, 230) if tier == "quick" else (20000, 110)
    out.append(Case("late", late, {"n": n, "every": every, "prop": prop}, "%d writes to all registers in turn, values symbolic, read back every %d" % (n, every), reach=("readback",), weight=9))
    for lo in range(0x20, 0x100, 0x20):
        n = 3300 if tier == "quick" else 10000
        for skew in (0, 16):
            out.append(Case("late_%02x_%d" % (lo, skew), late, {"n": n, "every": 32 if tier == "quick" else 64, "prop": prop, "only": lo, "skew": skew}, "%d writes to registers %02X to %02X in turn" % (n, lo, lo + 31), reach=("readback",), weight=6))
    out.append(Case("power_on", power_on, {"prop": prop}, "one write from power-on, any channel observed", reach=("readback",), weight=9))
    return out

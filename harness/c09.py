from symx.case import Case
from harness import common as K

ASSUMPTIONS = ["instruments are observed through Config's attributes (lfo, ..., operators[i].*, enabled_operators) and the event's number"]


def same_instrument(env, a, b):
    return env.and_(a["mask"] == b["mask"], *[env.same(a["instr"][k], b["instr"][k]) for k in a["instr"]])


def check_ids(env, chip, order):
    """order: the key-ons as (channel, index in that channel's events)."""
    evs = [(chip.s.key_presses(c)[i], chip.events[c][i]) for c, i in order]
    ids = [env.fix(g.config_id) for g, _ in evs]
    nxt = 0
    for i in ids:
        env.check(0 <= i <= nxt, "instrument numbers are not handed out in order of first use")
        nxt = max(nxt, i + 1)
    env.check(len(chip.s.configs) == nxt, "there are instruments no key-on refers to")
    for a in range(len(evs)):
        for b in range(a):
            eq = same_instrument(env, evs[a][1], evs[b][1])
            if ids[a] == ids[b]:
                env.check(eq, "two key-ons with different parameters share an instrument")
                env.reach("shared")
            else:
                env.check(env.not_(eq), "two key-ons with equal parameters have different instruments")
                env.reach("different")
    K.check_instruments(env, chip.s, chip)
    env.observe("ids", ids)


def song(env, chans):
    """A key-on per entry, all registers of the channel (and the chip-wide ones) rewritten before each."""
    chip = K.Chip(env)
    chip.wait(1)
    order = []
    for i, ch in enumerate(chans):
        chip.fill(K.BASE_REGS + K.channel_regs(ch), "f%d" % i)
        chip.key(ch, env.int("mask%d" % i, 1, 15))
        order.append((ch, len(chip.events[ch]) - 1))
        chip.wait(1)
    check_ids(env, chip, order)


def one_write(env, ch, lo, hi):
    """Two key-ons of one channel with arbitrary registers, one arbitrary write between them, and back."""
    chip = K.Chip(env)
    chip.fill(K.BASE_REGS + K.channel_regs(ch), "pre")
    chip.wait(1)
    reg = env.fix(env.int("reg", lo, hi))
    if reg == 8:
        return
    chip.write(reg, env.int("v0", 0, 255))
    for i in range(3):
        chip.key(ch, env.int("mask%d" % i, 1, 15) if i == 1 else 15)
        chip.write(reg, env.int("v%d" % (i + 1), 0, 255))
    check_ids(env, chip, [(ch, i) for i in range(3)])


def with_offs(env, n):
    """Key-offs and repeated key-ons in between never disturb the numbering."""
    chip = K.Chip(env)
    chip.wait(1)
    order = []
    for i in range(n):
        ch = env.choose("c%d" % i, (0, 7))
        chip.write(0x18, env.int("lfo%d" % i, 0, 1))
        chip.write(env.choose("r%d" % i, (0x0F, 0x67, 0x60)), env.int("v%d" % i, 0, 1))
        m = env.int("m%d" % i, 0, 15)
        chip.key(ch, m)
        if env.truth(m != 0):
            order.append((ch, len(chip.events[ch]) - 1))
    if order:
        check_ids(env, chip, order)


def long(env, n, instruments, seed):
    """Scripted long history: numbers of hundreds of instruments, with returns to early ones."""
    chip, order = K.long_song(env, n, seed, instruments)
    numbers = {}
    for c, i in order:
        g, w = chip.s.key_presses(c)[i], chip.events[c][i]
        key = (w["mask"],) + tuple(w["instr"][k] for k in sorted(w["instr"], key=str))
        env.check(env.fix(g.config_id) == numbers.setdefault(key, len(numbers)), "instrument numbers are not those of first use")
    env.check(len(chip.s.configs) == len(numbers), "there are instruments no key-on refers to")
    K.check_instruments(env, chip.s, chip)
    env.reach("end")


def returns(env, n, kind):
    """After every new instrument, one more key-on with each of those captured so far."""
    chip = K.Chip(env)
    chip.wait(env.zint("w.start", 0, 1 << 30))
    x = env.int("pitch", 0, 255)
    regs = {"lfo": (0x18,), "op": (0x7B,), "both": (0x0F, 0x67), "wide": (0x18, 0xFF)}[kind]

    def to(i):
        for k, r in enumerate(regs):
            chip.write(r, (i if k == 0 else i // 7) if kind != "both" else (i * 5 + k) & 127)
        chip.write(0x28 + i % 8, x)

    up, seen = 0, set()
    for i in range(n):
        for j in [i] + (list(range(i)) if i % 2 else list(range(i))[::-1]):
            ch = 7 if kind == "both" or j % 2 else 3
            to(j)
            chip.key(ch, 15)
            got = env.fix(chip.s.key_presses(ch)[-1].config_id)
            w = chip.events[ch][-1]
            key = tuple(w["instr"][k] for k in sorted(w["instr"], key=str))
            if key not in seen:
                seen.add(key)
                env.check(got == len(seen) - 1, "instrument numbers are not handed out in order of first use")
                env.check(len(chip.s.configs) == len(seen), "there are instruments no key-on refers to")
            chip.wait(1)
    check_numbers(env, chip)
    K.check_instruments(env, chip.s, chip)
    env.reach("end")


def check_numbers(env, chip):
    """Equal number exactly when all (concrete) parameters are equal."""
    ident = {}
    for ch in range(8):
        for g, w in zip(chip.s.key_presses(ch), chip.events[ch]):
            if w["on"]:
                key = (w["mask"],) + tuple(w["instr"][k] for k in sorted(w["instr"], key=str))
                env.check(ident.setdefault(key, env.fix(g.config_id)) == env.fix(g.config_id), "two key-ons with equal parameters have different instruments")
    env.check(len(set(ident.values())) == len(ident), "two key-ons with different parameters share an instrument")
    env.check(len(chip.s.configs) == len(ident), "there are instruments no key-on refers to")


def cases(tier):
    out = []
    b = "%d key-ons, %s symbolic before each"
    lists = [(0, 0), (0, 3), (7, 0), (0, 7), (7, 7), (2, 5), (1, 6), (4, 4)]
    lists3 = [(0, 0, 0), (0, 1, 0), (7, 1, 7)] if tier == "quick" else [(0, 0, 0), (0, 1, 0), (7, 1, 7), (0, 0, 0, 0), (3, 4, 3, 4), (7, 7, 0, 7), (0, 1, 2, 3, 4)]
    for cs in lists + lists3:
        out.append(Case("song_" + "".join(map(str, cs)), song, {"chans": cs}, b % (len(cs), "every register of the channel and chip-wide"), reach=("different",), weight=len(cs)))
    for ch in (7,) if tier == "quick" else (0, 3, 7):
        for lo in range(0, 256, 32):
            out.append(Case("write_%d_%02x" % (ch, lo), one_write, {"ch": ch, "lo": lo, "hi": lo + 31}, "arbitrary writes to one register between three key-ons", reach=("shared",), weight=5))
    out.append(Case("offs", with_offs, {"n": 2 if tier == "quick" else 3}, "key-ons and key-offs on two channels", reach=("shared", "different"), weight=9))
    for k in ("lfo", "op", "both", "wide"):
        out.append(Case("returns_" + k, returns, {"n": 16 if tier == "quick" else 32, "kind": k}, "a return to each of the instruments so far after each new one", reach=("end",), weight=4))
    n = 1500 if tier == "quick" else 4000
    out.append(Case("long", long, {"n": n, "instruments": n // 2, "seed": 9}, "scripted history of %d key commands with %d instruments (pitch, panning and start time symbolic)" % (n, n // 2), reach=("end",), weight=9))
    return out

from symx.case import Case
from harness import common as K

ASSUMPTIONS = ["a key-off is recognised by a negative instrument number, as the exporters do"]


def keycmd(env, chip, i, chans):
    """A key command with all eight value bits symbolic (bit 7 has no meaning)."""
    v = env.int("key%d" % i, 0, 255)
    if chans is not None:
        env.assume(env.or_(*[(v & 7) == c for c in chans]))
    ch = env.fix(v & 7)
    chip.s.apply(chip.config.create(0x08, v))
    chip.note_key(ch, (v >> 3) & 15)


def keys(env, n, chans, waits, start):
    """n key commands with waits and writes in between."""
    chip = K.Chip(env)
    if start:
        chip.wait(env.int("w.start", 0, 1 << 20))
    for i in range(n):
        keycmd(env, chip, i, chans)
        if waits:
            chip.wait(env.int("w%d" % i, 0, 1 << 20))
    K.check_log(env, chip.s, chip)
    for ch in range(8):
        for g, w in zip(chip.s.key_presses(ch), chip.events[ch]):
            if w["on"]:
                env.check(0 <= env.fix(g.config_id) < len(chip.s.configs), "a key-on carries no valid instrument")
                env.reach("on")
            else:
                env.reach("off")
    if not any(w["on"] for ch in range(8) for w in chip.events[ch]):
        env.check(len(chip.s.configs) == 0, "a key-off created an instrument")
        env.reach("none")
    env.observe("log", [[e.sample for e in chip.s.key_presses(c)] for c in range(8)])
    env.reach("end")


def mixed(env, n, first):
    """Key commands, waits and other writes in any order on two channels."""
    chip = K.Chip(env)
    for i in range(n):
        k = first if i == 0 else env.choose("k%d" % i, ("key", "wait", "write"))
        if k == "key":
            v = env.int("key%d" % i, 0, 255)
            ch = 6 if env.bool("c%d" % i) else 1
            env.assume((v & 7) == ch)
            chip.s.apply(chip.config.create(0x08, v))
            chip.note_key(ch, (v >> 3) & 15)
        elif k == "wait":
            chip.wait(env.int("w%d" % i, 0, 1 << 20))
        else:
            chip.write(env.choose("r%d" % i, (0x0F, 0x66)), env.int("x%d" % i, 0, 255))
    K.check_log(env, chip.s, chip)
    env.check(len(chip.s.configs) <= sum(w["on"] for c in chip.events for w in c), "more instruments than key-ons")
    env.reach("end")


def filled(env, n, check):
    """Every register holds anything; then n key commands of any channel and operators, waits in between."""
    chip = K.Chip(env)
    chip.fill(K.ALL_REGS, "pre")
    chip.wait(env.int("w.start", 0, 1 << 30))
    for i in range(n):
        v = env.int("key%d" % i, 0, 255)
        chip.s.apply(chip.config.create(0x08, v))
        chip.note_key(env.fix(v & 7), (v >> 3) & 15)
        chip.wait(env.int("w%d" % i, 0, 1 << 30))
    check(env, chip)
    env.reach("end")


def burst(env, n, ch, check, waits):
    """n key commands of one channel, each on or off, together or apart."""
    chip = K.Chip(env)
    chip.key(ch ^ 1, 15)
    chip.wait(env.int("w.start", 0, 1 << 30))
    for i in range(n):
        chip.key(ch, 15 if env.bool("on%d" % i) else 0)
        if waits:
            chip.wait(env.int("w%d" % i, 0, 1 << 20))
    check(env, chip)
    env.reach("end")


def log(env, chip):
    K.check_log(env, chip.s, chip)


def long(env, n, instruments, seed):
    """Scripted long history."""
    chip, order = K.long_song(env, n, seed, instruments)
    K.check_log(env, chip.s, chip)
    env.reach("end")


def cases(tier):
    q = tier == "quick"
    out = [Case("keys_all", keys, {"n": 2 if q else 3, "chans": None, "waits": True, "start": True}, "key commands on any of the 8 channels, all value bits", reach=("on", "off", "none", "end"), weight=9),
           Case("keys_zero", keys, {"n": 3, "chans": (0, 5), "waits": False, "start": False}, "key commands at time zero", reach=("on", "off", "none", "end"), weight=5),
           Case("keys_two", keys, {"n": 4 if q else 5, "chans": (2, 7), "waits": True, "start": False}, "key commands on 2 channels, waits of 0..2^20 samples", reach=("on", "off", "none", "end"), weight=9)]
    for f in ("key", "wait", "write"):
        out.append(Case("mixed_" + f, mixed, {"n": 4 if q else 5, "first": f}, "commands of any kind in any order", reach=("end",), weight=7))
    for n in (1, 2):
        out.append(Case("filled_%d" % n, filled, {"n": n, "check": log}, "any value in every register, then %d key commands of any channel and operators" % n, reach=("end",), weight=6))
    for ch in (0, 5):
        for w in (False, True):
            n = (6 if w else 8) if q else (8 if w else 11)
            out.append(Case("burst_%d_%s" % (ch, "apart" if w else "together"), burst, {"n": n, "ch": ch, "check": log, "waits": w}, "%d key-ons and key-offs of one channel in any order, %s" % (n, "any waits" if w else "no waits"), reach=("end",), weight=6))
    n = 3500 if q else 20000
    out.append(Case("long", long, {"n": n, "instruments": 20, "seed": 11}, "scripted history of %d key commands with %d instruments (pitch, panning and start time symbolic)" % (n, 20), reach=("end",), weight=9))
    return out

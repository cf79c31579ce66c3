from symx.case import Case
from harness import common as K
from harness.c11 import filled, burst

ASSUMPTIONS = []


def check_ticks(env, chip):
    ts = list(chip.s.ticks())
    for a, b in zip(ts, ts[1:]):
        env.check(a < b, "the beat list is not strictly increasing")
    for t in ts:
        env.check(env.or_(*[t == b for b in chip.beats]), "a beat at which no key-on occurred")
    for b in chip.beats:
        env.check(env.or_(*[t == b for t in ts]), "a key-on's time is missing from the beat list")
    env.observe("ticks", ts)
    if len(ts) < len(chip.beats):
        env.reach("together")


def song(env, n, first, start):
    """Key-ons, key-offs, waits and writes in any order."""
    chip = K.Chip(env)
    if start:
        chip.wait(env.int("w.start", 0, 1 << 20))
    for i in range(n):
        k = first if i == 0 else env.choose("k%d" % i, ("on", "key", "wait", "write"))
        if k == "on":
            chip.key(env.choose("c%d" % i, (0, 6)), 15 if i % 2 else 4)
        elif k == "key":
            chip.key(3, env.int("m%d" % i, 0, 15))
        elif k == "wait":
            chip.wait(env.int("w%d" % i, 0, 1 << 20))
        else:
            chip.write(env.choose("r%d" % i, (0x18, 0x2B, 0x63)), env.int("x%d" % i, 0, 255))
    check_ticks(env, chip)
    env.reach("end")


def notes(env, n):
    """n key-ons of any channel, an arbitrary wait after each; asked again after a later key-off."""
    chip = K.Chip(env)
    chip.wait(env.int("w.start", 0, 1 << 30))
    for i in range(n):
        chip.key(i % 8, env.int("m%d" % i, 0, 15))
        chip.wait(env.int("w%d" % i, 0, 1 << 30))
    check_ticks(env, chip)
    chip.key(0, 0)
    chip.wait(5)
    check_ticks(env, chip)
    chip.key(1, 15)
    check_ticks(env, chip)
    env.reach("end")


def long(env, n, instruments, seed):
    """Scripted long history: the beat list against the sorted list of different key-on times."""
    chip, order = K.long_song(env, n, seed, instruments)
    ts = list(chip.s.ticks())
    want = []
    for b in chip.beats:
        if not want or not env.truth(b == want[-1]):    # times never decrease
            want.append(b)
    env.check(len(ts) == len(want), "the beat list has another length")
    for a, b in zip(ts, want):
        env.check(a == b, "the beat list does not hold the key-ons' times in order")
    env.reach("end")


def cases(tier):
    q = tier == "quick"
    out = [Case("notes", notes, {"n": 4 if q else 6}, "key commands with any operators, waits of 0..2^30 samples", reach=("end", "together"), weight=9)]
    for f in ("on", "key", "wait", "write"):
        for st in (False, True):
            out.append(Case("song_%s%s" % (f, "_late" if st else ""), song, {"n": 4 if q else 5, "first": f, "start": st}, "commands of any kind in any order, starting at %s" % ("any time" if st else "time zero"), reach=("end",), weight=6))
    for n in (1, 2):
        out.append(Case("filled_%d" % n, filled, {"n": n, "check": check_ticks}, "any value in every register, then %d key commands of any channel and operators" % n, reach=("end",), weight=6))
    n = 4 if q else 6
    for w in (False, True):
        out.append(Case("burst_%s" % ("apart" if w else "together"), burst, {"n": n if w else 8, "ch": 7, "check": check_ticks, "waits": w}, "%d key-ons and key-offs of one channel in any order, %s" % (n if w else 8, "any waits" if w else "no waits"), reach=("end",), weight=6))
    n = 6000 if q else 30000
    out.append(Case("long", long, {"n": n, "instruments": 20, "seed": 13}, "scripted history of %d key commands with %d instruments (pitch, panning and start time symbolic)" % (n, 20), reach=("end",), weight=9))
    return out

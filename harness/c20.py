from symx.case import Case
from harness import common as K

NEEDS_XSDATA = True
ASSUMPTIONS = ["beats per minute and lines per beat are the document's BeatsPerMin and LinesPerBeat; rounding up or down to a whole number of beats is allowed",
               "floating-point operations are encoded as reals within the relative rounding error 2^-53 of each operation (an over-approximation)"]


def tempo(env, lo, hi, key):
    chip = K.Chip(env)
    t = env.zint("tpn", lo, hi)
    if key:
        chip.wait(env.zint("w", 0, 1 << 22))
        chip.key(3, 15)
        env.assume(chip.t < 128 * t)
    doc = K.export(env, chip.s, t)
    env.check(env.and_(doc.bpm * doc.lpb * t >= 44100 * 60 - doc.lpb * t, doc.bpm * doc.lpb * t <= 44100 * 60 + doc.lpb * t), "the tempo does not match the row length")
    env.check(env.same(doc.lpb, env.fix(doc.lpb)), "lines per beat is not a number")
    env.observe("lpb", doc.lpb)
    env.reach("end")


def cases(tier):
    out = [Case("any", tempo, {"lo": 1, "hi": 100000, "key": False}, "every ticks-per-note value 1..100000", reach=("end",), weight=5, path_limit=300),
           Case("any_song", tempo, {"lo": 1, "hi": 100000, "key": True}, "the same with a key-on in the song", reach=("end",), weight=5, path_limit=300)]
    return out

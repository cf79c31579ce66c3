from symx.case import Case
from harness import common as K

ASSUMPTIONS = ["grid spacings: the listed ones; within each case the spacing, the start offset, the channels' operator sets and the key-offs between are symbolic",
               "the spacings outside the listed windows are not explored by this tier"]


def grid(env, lo, hi, n, omax):
    """n key-ons p samples apart, from any start offset."""
    chip = K.Chip(env)
    p = env.int("p", lo, hi)
    o = env.int("start", 0, omax)
    chip.wait(o)
    half = lo // 2
    for i in range(n):
        chip.key(i % 3, 15)
        chip.wait(half)
        chip.key(i % 3, 0)
        chip.wait(p - half)
    est = chip.s.ticks_per_note()
    env.check(est == p, "the grid spacing is not found")
    env.observe("p", est)
    env.reach("end")


def any_song(env, times):
    """Any few key-ons: the answer stays in range."""
    chip = K.Chip(env)
    for i, (lo, hi) in enumerate(times):
        chip.wait(env.int("w%d" % i, lo, hi))
        chip.key(i % 8, 15)
    est = chip.s.ticks_per_note()
    env.check(env.and_(est >= 1000, est <= 7999), "the estimate is outside 1000..7999")
    env.check(env.same(est, env.fix(est) // 1), "the estimate is not an integer")
    env.reach("end")


def every(env, ps, n):
    """Each listed spacing, any start offset that leaves two key-ons to be analysed."""
    chip = K.Chip(env)
    p = env.choose("p", ps)
    chip.wait(env.int("start", 0, 31999 - p * (n - 1)))
    for i in range(n):
        chip.key(i % 3, 15)
        chip.wait(p)
    est = chip.s.ticks_per_note()
    env.check(est == p, "the grid spacing is not found")
    env.reach("end")


def full(env, ps, starts, n):
    """Grids that fill the analysed part, from any of these starts."""
    chip = K.Chip(env)
    p = env.choose("p", ps)
    chip.wait(env.int("start", *starts))
    for i in range(n):
        chip.key(i % 8, 1 + i % 15)
        chip.wait(p // 3)
        chip.key(i % 8, 0)
        chip.wait(p - p // 3)
        chip.key((i + 1) % 8, 0)
    est = chip.s.ticks_per_note()
    env.check(est == p, "the grid spacing is not found")
    env.reach("end")


def long_grid(env, p, n, omax):
    """A grid that goes on beyond the analysed part; chords; with the progress display on."""
    chip = K.Chip(env)
    chip.wait(env.int("start", 0, omax))
    for i in range(n):
        chip.key(i % 3, 15)
        if i % 2:
            chip.key(6, 9)
        chip.wait(p)
    est = chip.s.ticks_per_note(show_progress=True)
    env.check(est == p, "the grid spacing is not found")
    env.reach("end")


def cases(tier):
    out = []
    q = tier == "quick"
    wins = [(1000, 1001), (7998, 7999), (4410, 4411), (3999, 4000), (1999, 2000), (2667, 2667), (5512, 5512)]
    for lo, hi in wins:
        for n in (2, 4) if lo > 1500 else (2, 6):
            out.append(Case("grid_%d_%d" % (lo, n), grid, {"lo": lo, "hi": hi, "n": n, "omax": 31999 - hi * (n - 1) if hi * (n - 1) < 31999 else 32000 - hi - 1},
                            "%d key-ons %d..%d samples apart, any start that leaves them before sample 32000" % (n, lo, hi), reach=("end",), weight=n, path_limit=400))
    ps = list(range(1000, 8000, 7 if q else 1))
    for i in range(0, len(ps), 20):
        chunk = ps[i:i + 20]
        for n in (2,) if q else (2, 3):
            out.append(Case("every_%d_%d" % (chunk[0], n), every, {"ps": chunk, "n": n}, "%d key-ons, every spacing of %d..%d in steps of %d, any start" % (n, chunk[0], chunk[-1], ps[1] - ps[0]), reach=("end",), weight=5, path_limit=400))
    for p, n, omax in [(7999, 6, 24000), (3500, 11, 12000)] + ([] if q else [(1000, 34, 3000), (2205, 20, 20000), (4410, 60, 27000), (1102, 40, 25000)]):
        out.append(Case("long_%d" % p, long_grid, {"p": p, "n": n, "omax": omax}, "%d key-ons %d samples apart starting at 0..%d" % (n, p, omax), reach=("end",), weight=30, path_limit=600))
    for k, ps in enumerate(((1000, 1001, 1002), (1024, 1103, 1333), (1600, 2001, 4000))):
        out.append(Case("full_%d" % k, full, {"ps": ps, "starts": (0, 500) if q else (0, 4000), "n": 40 if q else 120}, "key-ons %s samples apart that fill the analysed part and go on beyond it" % (ps,), reach=("end",), weight=9, path_limit=400))
    M = 1 << 20
    for name, ts in (("none", []), ("one", [(0, M)]), ("close", [(0, M), (0, 300), (0, 300)] + ([] if q else [(0, 300)])), ("far", [(0, 1000), (8001, 10000), (8001, 10000), (8001, M)]),
                     ("late", [(32000, M), (1, M), (1, M)]), ("near", [(0, 100), (3100, 3102), (500, 501)])):
        out.append(Case("any_" + name, any_song, {"times": ts}, "waits %s" % ts, reach=("end",), weight=4, path_limit=400))
    return out

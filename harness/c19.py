from symx.case import Case
from harness import common as K

NEEDS_XSDATA = True
ASSUMPTIONS = ["a song without events needs no pattern"]


def check_shape(env, chip, doc, rows):
    """Declared tracks, instruments, patterns and play sequence of an exported song."""
    n = len(doc.patterns)
    if not rows:
        env.check(n == 0, "patterns although there are no events")
    else:
        env.check(env.or_(*[r >= 64 * (n - 1) for r in rows]), "more patterns than the latest event needs")
        env.check(env.and_(*[r < 64 * n for r in rows]), "fewer patterns than the latest event needs")
    for t in doc.pattern_tracks:
        env.check(t == ["PatternTrack"] * 8 + ["PatternMasterTrack", "PatternSendTrack"], "a pattern without exactly eight channel tracks, a master and a send track")
    env.check(len(doc.sequence) == n, "the play sequence does not list every pattern once")
    for i, p in enumerate(doc.sequence):
        env.check(env.same(p, i), "the play sequence is out of order")
    env.check(doc.tracks == [8, 1, 1] and doc.track_kinds == 10, "the song does not declare eight sequencer tracks, a master and a send track")
    env.check(env.same(doc.instruments, len(chip.s.configs)), "another number of instruments than captured")
    env.reach("patterns%d" % n)


def song(env, plan, patterns, tmax, tpn):
    chip = K.Chip(env)
    t = tpn if isinstance(tpn, int) else env.zint("tpn", tpn[0], tpn[1])
    rows, insts = [], set()
    for i, (ch, mask) in enumerate(plan):
        ch = env.choose("ch%d" % i, ch) if isinstance(ch, tuple) else ch
        mask = env.choose("mask%d" % i, mask) if isinstance(mask, tuple) else mask
        chip.wait(env.zint("w%d" % i, 0, tmax))
        chip.key(ch, mask)
        if chip.started:
            rows.append(chip.t // t)
        if mask:
            insts.add(mask)
    if rows:
        env.assume(rows[-1] < 64 * patterns)
    chip.wait(env.zint("tail", 0, tmax))
    doc = K.export(env, chip.s, t)
    check_shape(env, chip, doc, rows)
    env.check(doc.instruments == len(insts), "another number of instruments than captured")
    env.observe("shape", [len(doc.patterns), doc.instruments, doc.sequence])
    env.reach("instruments%d" % doc.instruments)
    env.reach("end")


def many(env, n):
    chip = K.Chip(env)
    for i in range(n):
        chip.write(0x18, i & 255)
        chip.key(i % 8, 1 + (i >> 8))
    chip.wait(env.zint("w", 0, 100000))
    chip.key(0, 0)
    doc = K.export(env, chip.s, 1000)
    check_shape(env, chip, doc, [0, chip.t // 1000])
    env.check(doc.instruments == n, "another number of instruments than captured")
    env.reach("end")


def scripted(env, n, patterns, seed, instruments):
    """A long song: many events and instruments over hundreds of patterns."""
    chip, cells, idents, last = K.far_song(env, n, patterns, seed, instruments=instruments)
    doc = K.export(env, chip.s, 1000)
    check_shape(env, chip, doc, [last])
    env.check(doc.instruments == len(idents), "another number of instruments than captured")
    env.reach("end")


def dense(env, rows, chans, seed):
    """A song with events on every row."""
    chip, cells, idents, last = K.dense_song(env, rows, chans, seed)
    doc = K.export(env, chip.s, 1000)
    check_shape(env, chip, doc, [last])
    env.check(doc.instruments == len(idents), "another number of instruments than captured")
    env.reach("end")


def far(env, first, gaps, chans):
    """Two events far apart, or one far from the start, in songs of more than a hundred patterns."""
    chip = K.Chip(env)
    a = env.choose("a", chans)
    b = env.choose("b", (a, (a + 5) % 8))
    rows = [64 * env.choose("first", first) + env.choose("row", (0, 63))]
    gap = env.choose("gap", gaps)
    chip.wait(rows[0] * 100 + env.zint("w", 0, 99))
    chip.key(a, 15)
    if gap is not None:
        rows.append(rows[0] + 64 * gap + 1)
        chip.wait((64 * gap + 1) * 100)
        chip.key(b, 0 if env.bool("off") else 7)
    doc = K.export(env, chip.s, 100)
    check_shape(env, chip, doc, rows)
    env.reach("end")


def cases(tier):
    q = tier == "quick"
    T, W = (1, 100000), 1 << 26
    out = [Case("empty", song, {"plan": [], "patterns": 1, "tmax": W, "tpn": T}, "a song without events", reach=("patterns0", "instruments0", "end")),
           Case("offs", song, {"plan": [(0, 0), (3, 0)], "patterns": 1, "tmax": W, "tpn": T}, "key-offs only", reach=("patterns0", "end")),
           Case("one", song, {"plan": [((0, 7), (1, 15))], "patterns": 4, "tmax": W, "tpn": T}, "one key-on, any ticks per note 1..100000", reach=("patterns1", "patterns4", "instruments1", "end"), weight=4),
           Case("two", song, {"plan": [((0, 3), 15), ((0, 7), (0, 1, 15))], "patterns": 4, "tmax": W, "tpn": T}, "two events, any ticks per note", reach=("patterns1", "patterns4", "instruments1", "instruments2", "end"), weight=6),
           Case("three", song, {"plan": [(5, 3), ((2, 5), (0, 3)), (2, (0, 8))], "patterns": 3, "tmax": W, "tpn": T}, "three events, any ticks per note", reach=("patterns1", "patterns3", "instruments1", "instruments2", "end"), weight=8),
           Case("long", song, {"plan": [(1, 4), (0, 4)], "patterns": 12 if q else 80, "tmax": 64 * 12000 if q else 80 * 64000, "tpn": 1000}, "songs of up to %d patterns" % (12 if q else 80), reach=("patterns1", "patterns12", "end"), weight=7)]
    out.append(Case("many", many, {"n": 20 if q else 300}, "%d instruments" % (20 if q else 300), reach=("end",), weight=4, path_limit=200))
    for tpn in (735, 7999) if q else (1, 64, 100, 735, 882, 1103, 7999, 100000):
        out.append(Case("at_%d" % tpn, song, {"plan": [(6, 7), ((0, 6, 7), (0, 7, 9))], "patterns": 3, "tmax": tpn * 200, "tpn": tpn}, "two events, %d ticks per note" % tpn, reach=("patterns1", "patterns3", "end"), weight=4))
    if not q:
        out.append(Case("four", song, {"plan": [(5, 3), ((2, 5), (0, 3)), (2, (0, 8)), ((0, 5), (0, 8))], "patterns": 3, "tmax": W, "tpn": T}, "four events, any ticks per note", reach=("patterns1", "patterns3", "end"), weight=12))
    for k, (rows, chans) in enumerate(((200, (2,)), (64, range(8)), (130, (0, 7, 3)))):
        out.append(Case("dense_%d" % k, dense, {"rows": rows, "chans": tuple(chans), "seed": 190 + k}, "scripted song with events on each of %d rows of %d channels" % (rows, len(chans)), reach=("end",), weight=5, path_limit=300))
    out.append(Case("far", far, {"first": (0, 101) if q else (0, 1, 101, 300), "gaps": (None, 128) if q else (None, 99, 128, 513), "chans": (0, 3) if q else (0, 3, 7)}, "one or two events, the first or the second beyond pattern 100", reach=("end",), weight=7, path_limit=300))
    out.append(Case("scripted", scripted, {"n": 1500, "patterns": 1100 if q else 2500, "seed": 19, "instruments": 450}, "scripted song of 1500 events with 450 instruments over hundreds of patterns, starting anywhere in its first row", reach=("end",), weight=9, path_limit=300))
    return out

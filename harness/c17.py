from symx.case import Case
from harness import common as K

NEEDS_XSDATA = True
ASSUMPTIONS = ["a line is identified by its index attribute in Song.xml, a track by its position among the pattern's channel tracks"]


def song(env, plan, tpn, tmax, patterns, chans):
    """Key events with symbolic waits between them; every event has a note of its own."""
    chip = K.Chip(env)
    t = tpn if isinstance(tpn, int) else env.zint("tpn", tpn[0], tpn[1])
    free = env.choose("free", chans) if chans else 0
    placed = []
    mine = {}
    for i, (ch, on) in enumerate(plan):
        ch = free if ch is None else ch
        chip.wait(env.zint("w%d" % i, 0, tmax))
        note = (i * 3 + 1) % 16
        octave = i % 8
        chip.write(0x28 + ch, octave * 16 + note)
        mine[ch] = (note, octave)
        chip.key(ch, 15 if on else 0)
        placed.append(K.Placed(ch, chip.t // t, K.note_text(env, note, octave) if on else "Off"))
    rows = chip.t // t
    env.assume(rows < 64 * patterns)
    doc = K.export(env, chip.s, t)
    K.check_cells(env, doc, placed)
    n = len(doc.patterns)
    env.reach("patterns%d" % n)
    env.reach("cells%d" % len(doc.cells))
    env.observe("cells", [[c.pattern, c.track, c.line, c.note] for c in doc.cells])
    env.reach("end")


def late(env, base, t):
    """Events after a very long song time."""
    chip = K.Chip(env)
    chip.write(0x28, 0x4A)
    chip.write(0x2F, 0x31)
    chip.wait(base)
    placed = []
    for ch, name in ((0, (0x0A, 4)), (7, (1, 3)), (0, (0x0A, 4))):
        chip.wait(env.zint("w%d" % len(placed), 0, 2 * t))
        chip.key(ch, 15)
        placed.append(K.Placed(ch, chip.t // t, K.note_text(env, *name)))
    K.check_cells(env, K.export(env, chip.s, t), placed)
    env.reach("end")


def scripted(env, n, patterns, seed, instruments=40):
    """A long song: hundreds of events over hundreds of patterns."""
    chip, cells, idents, last = K.far_song(env, n, patterns, seed, instruments=instruments)
    K.check_far(env, K.export(env, chip.s, 1000), cells, idents, last)
    env.reach("end")


def dense(env, rows, chans, seed):
    """A song with events on every row."""
    chip, cells, idents, last = K.dense_song(env, rows, chans, seed)
    K.check_far(env, K.export(env, chip.s, 1000), cells, idents, last)
    env.reach("end")


def cases(tier):
    q = tier == "quick"
    out = []
    A = [(None, True), (None, False), (None, True)]
    B = [(0, True), (7, True), (0, False), (7, True)]
    C = [(2, True), (2, True), (2, True), (2, False)]
    D = [(None, True), (None, True)]
    for tpn in (1, 735, 1103, 7999) if q else (1, 2, 3, 64, 100, 735, 882, 1000, 1103, 2205, 4410, 7999, 44100, 100000):
        out.append(Case("a_%d" % tpn, song, {"plan": A, "tpn": tpn, "tmax": 150 * tpn, "patterns": 3, "chans": (0, 3, 7) if q else range(8)}, "3 events of one channel, %d ticks per note, waits 0..%d" % (tpn, 150 * tpn), reach=("patterns1", "patterns2", "patterns3", "cells1", "cells2", "cells3", "end"), weight=6))
        out.append(Case("b_%d" % tpn, song, {"plan": B, "tpn": tpn, "tmax": 70 * tpn, "patterns": 3, "chans": None}, "4 events of two channels, %d ticks per note" % tpn, reach=("patterns1", "cells2", "cells4", "end"), weight=6))
    T, W = (1, 100000), 1 << 26
    n = 3 if q else 4
    any_ = "any ticks per note 1..100000, waits 0..2^26 as far as the song stays within %d patterns" % n
    ends = ("patterns1", "patterns%d" % n, "end")
    out.append(Case("any_a", song, {"plan": A, "tpn": T, "tmax": W, "patterns": n, "chans": range(8)}, "3 events of one channel, " + any_, reach=ends + ("cells1", "cells3"), weight=9, path_limit=200))
    out.append(Case("any_b", song, {"plan": B, "tpn": T, "tmax": W, "patterns": n, "chans": None}, "4 events of two channels, " + any_, reach=ends + ("cells2", "cells4"), weight=9, path_limit=200))
    out.append(Case("any_c", song, {"plan": C, "tpn": T, "tmax": W, "patterns": n, "chans": None}, "4 events of one channel, " + any_, reach=ends + ("cells1", "cells4"), weight=9, path_limit=200))
    out.append(Case("any_d", song, {"plan": D, "tpn": T, "tmax": W, "patterns": n, "chans": (1, 4)}, "2 events, " + any_, reach=ends, weight=9, path_limit=200))
    if not q:
        out.append(Case("any_e", song, {"plan": [(5, True), (5, False), (2, True), (5, True), (2, False)], "tpn": T, "tmax": W, "patterns": 2, "chans": None}, "5 events of two channels, " + any_, reach=("patterns2", "end"), weight=12, path_limit=200))
        out.append(Case("any_f", song, {"plan": [(i, True) for i in range(8)], "tpn": T, "tmax": W, "patterns": 2, "chans": None}, "8 events, one on each channel, " + any_, reach=("patterns2", "end"), weight=12, path_limit=200))
    out.append(Case("far", song, {"plan": [(1, True), (6, True)], "tpn": 800, "tmax": 800 * 64 * (12 if q else 40), "patterns": 12 if q else 40, "chans": None}, "2 events, up to %d patterns" % (12 if q else 40), reach=("patterns1", "patterns9", "end"), weight=8))
    for b in (24, 27, 31, 32) if q else range(24, 33):
        out.append(Case("late_%d" % b, late, {"base": (1 << b) - 100000, "t": 100000}, "3 events around sample 2^%d, 100000 ticks per note" % b, reach=("end",), weight=5, path_limit=300))
    for k, (rows, chans) in enumerate(((200, (2,)), (64, range(8)), (130, (0, 7, 3)))):
        out.append(Case("dense_%d" % k, dense, {"rows": rows, "chans": tuple(chans), "seed": 170 + k}, "scripted song with events on each of %d rows of %d channels" % (rows, len(chans)), reach=("end",), weight=5, path_limit=300))
    out.append(Case("scripted", scripted, {"n": 1500, "patterns": 1100 if q else 2500, "seed": 17}, "scripted song of 1500 events over more than 1000 patterns, starting anywhere in its first row", reach=("end",), weight=9, path_limit=300))
    return out

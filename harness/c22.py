from symx.case import Case
from harness import common as K

ASSUMPTIONS = ["columns are found by their names in the header line (Row, Pattern, Total Row, Channel 1 to Channel 8); the Samples and Fraction columns are not judged",
               "a song without events has no rows; white space around a cell is not significant"]


def strip(x):
    return x.strip()


def check_table(env, state, t, name="tracks.csv"):
    env.mod("extractors").extract_tracks(state, env.path(name), t)
    table = env.read_csv(name)
    head = [env.plain(x) for x in table[0]]
    col = {h: head.index(h) for h in ["Row", "Pattern", "Total Row"] + ["Channel %d" % i for i in range(1, 9)] if h in head}
    env.check(len(col) == 11, "the header line lacks a column")
    body = table[1:]
    for r in body:
        env.check(len(r) == len(head), "a line has another number of columns than the header")
    events = [[(e.sample // t, strip(env.text_of(e))) for e in state.key_presses(ch)] for ch in range(8)]
    rows = [r for evs in events for r, _ in evs]
    n = len(body)
    if not rows:
        env.check(n == 0, "rows although there are no events")
    else:
        env.check(env.and_(env.or_(*[env.same(r, n - 1) for r in rows]), *[r < n for r in rows]), "the rows do not go up to the row of the last event")
    for k, r in enumerate(body):
        num = {c: env.num(r[col[c]]) for c in ("Row", "Pattern", "Total Row")}
        conds = [env.same(num["Total Row"], k), env.same(num["Row"], k % 64), env.same(num["Pattern"], k // 64)]
        env.check(env.and_(*conds), "a row is missing, repeated or misnumbered")
        conds = []
        for ch in range(8):
            got = strip(r[col["Channel %d" % (ch + 1)]])
            evs = events[ch]
            alts = [env.and_(env.same(got, ""), *[env.not_(env.same(q, k)) for q, _ in evs])]
            for i, (q, label) in enumerate(evs):
                alts.append(env.and_(env.same(q, k), env.same(got, label), *[env.not_(env.same(q2, k)) for q2, _ in evs[i + 1:]]))
            conds.append(env.or_(*alts))
        env.check(env.and_(*conds), "a cell does not show the last event of its channel and row")
    env.reach("rows%d" % n)
    return n


def song(env, plan, tpn, tmax, rows, chans):
    chip = K.Chip(env)
    t = tpn if isinstance(tpn, int) else env.zint("tpn", tpn[0], tpn[1])
    free = env.choose("free", chans) if chans else 0
    for i, (ch, mask) in enumerate(plan):
        ch = free if ch is None else ch
        lo, hi = (0, tmax) if isinstance(tmax, int) else tmax[i]
        chip.wait(env.zint("w%d" % i, lo, hi))
        chip.write(0x28 + ch, (i % 8) * 16 + (i * 3 + 1) % 16)
        chip.write(0x20 + ch, 0xC0 if i % 2 else 0x40)
        chip.key(ch, mask)
    env.assume(chip.t // t < rows)
    chip.wait(env.zint("tail", 0, 100000))
    n = check_table(env, chip.s, t)
    env.observe("rows", n)
    env.reach("end")


def scripted(env, n, patterns, seed, start=0):
    """A long song with gaps of more than a thousand rows."""
    table_of(env, *K.far_song(env, n, patterns, seed, jumps=2, start=start))


def pause(env, rows, t, free):
    """A single very long pause, which starts anywhere in a row (free) or ends anywhere in one."""
    chip = K.Chip(env)
    at = 0
    chip.wait(env.zint("w", 0, t - 1) if free else t - 1)
    for ch, row, mask in ((0, 0, 15), (1, 1, 7), (0, rows, 0), (3, rows + 2, 15)):
        chip.wait((row - at) * t - (env.zint("w", 0, t - 1) if ch == 3 and not free else 0))
        at = row
        chip.key(ch, mask)
    want = {(0, 0): 0, (1, 1): 0, (0, rows): 1, (3, rows + 2): 0}
    env.mod("extractors").extract_tracks(chip.s, env.path("tracks.csv"), t)
    table = env.read_csv("tracks.csv")
    head = [env.plain(x) for x in table[0]]
    col = [head.index(h) for h in ["Row", "Pattern", "Total Row"] + ["Channel %d" % i for i in range(1, 9)]]
    env.check(len(table) == rows + 4, "the rows do not go up to the row of the last event")
    labels = {k: strip(env.text_of(chip.s.key_presses(k[0])[i])) for k, i in want.items()}
    bad = []
    for k, r in enumerate(table[1:]):
        got = [r[c] for c in col]
        if all(isinstance(x, str) for x in got):
            if [x.strip() for x in got] != [str(k % 64), str(k // 64), str(k)] + [labels.get((ch, k), "") for ch in range(8)]:
                bad.append(k)
            continue
        env.check(env.and_(*[env.same(env.num(a), b) for a, b in zip(got, (k % 64, k // 64, k))]), "a row is missing, repeated or misnumbered")
        env.check(env.and_(*[env.same(strip(r[col[3 + ch]]), labels.get((ch, k), "")) for ch in range(8)]), "a cell does not show the last event of its channel and row")
    env.check(not bad, "a row is missing, repeated, misnumbered or shows another event")
    env.reach("end")


def dense(env, rows, chans, seed):
    """A song with events on every row."""
    table_of(env, *K.dense_song(env, rows, chans, seed))


def labels(env, n, seed):
    """n key-ons with an instrument each, on any channel, of every tuning, panning and key code in turn."""
    chip = K.Chip(env)
    roll = K.Rolls(seed)
    chip.wait(env.zint("w.start", 0, 999))
    chip.rows = [[] for _ in range(8)]
    for i in range(n):
        ch = roll(8)
        chip.write(0x18, i & 255)
        chip.write(0x60 + ch, i >> 8)
        chip.write(0x20 + ch, roll(4) << 6)
        chip.write(0x28 + ch, roll(8) * 16 + roll(16))
        chip.write(0x30 + ch, roll(64) << 2)
        chip.key(ch, 1 + roll(15))
        chip.rows[ch].append(i)
        chip.wait(1000)
    table_of(env, chip, None, None, n - 1)


def table_of(env, chip, cells, idents, last):
    env.mod("extractors").extract_tracks(chip.s, env.path("tracks.csv"), 1000)
    table = env.read_csv("tracks.csv")
    head = [env.plain(x) for x in table[0]]
    col = [head.index(h) for h in ["Row", "Pattern", "Total Row"] + ["Channel %d" % i for i in range(1, 9)]]
    env.check(len(table) == last + 2, "the rows do not go up to the row of the last event")
    labels = {}
    for ch in range(8):
        for ev, row in zip(chip.s.key_presses(ch), chip.rows[ch]):
            labels[(ch, row)] = strip(env.text_of(ev))
    for k, r in enumerate(table[1:]):
        env.check(len(r) == len(head), "a line has another number of columns than the header")
        nums = [env.num(r[c]) for c in col[:3]]
        env.check(env.and_(*[env.same(a, b) for a, b in zip(nums, (k % 64, k // 64, k))]), "a row is missing, repeated or misnumbered")
        env.check(env.and_(*[env.same(strip(r[col[3 + ch]]), labels.get((ch, k), "")) for ch in range(8)]), "a cell does not show the last event of its channel and row")
    env.reach("end")


def cases(tier):
    q = tier == "quick"
    T, W = (1, 100000), 1 << 26
    A = [(None, 15), (None, 0), (None, 15)]
    B = [(0, 15), (7, 15), (0, 0), (7, 3)]
    out = [Case("empty", song, {"plan": [], "tpn": T, "tmax": W, "rows": 1 << 30, "chans": None}, "a song without events", reach=("rows0", "end")),
           Case("one", song, {"plan": [(None, 15)], "tpn": T, "tmax": W, "rows": 6, "chans": range(8)}, "one event of any channel, any ticks per note 1..100000, up to 6 rows", reach=("rows1", "rows6", "end"), weight=5),
           Case("a", song, {"plan": A, "tpn": T, "tmax": W, "rows": 5 if q else 8, "chans": (0, 4) if q else (0, 3, 7)}, "three events of one channel, any ticks per note", reach=("rows1", "rows5", "end"), weight=8),
           Case("b", song, {"plan": B, "tpn": T, "tmax": W, "rows": 4 if q else 6, "chans": None}, "four events of two channels, any ticks per note", reach=("rows1", "rows4", "end"), weight=9),
           Case("long", song, {"plan": [(2, 15), (5, 15)], "tpn": 1000, "tmax": [(0, 3000), (61000, 66999)] if q else [(0, 10000), (0, 70000)], "rows": 70 if q else 80, "chans": None}, "two events, rows across a pattern boundary", reach=("rows63", "rows65", "end"), weight=9)]
    for tpn in (1, 735, 7999) if q else (1, 2, 3, 64, 735, 882, 1103, 2205, 7999, 100000):
        out.append(Case("at_%d" % tpn, song, {"plan": B, "tpn": tpn, "tmax": 5 * tpn, "rows": 5 if q else 7, "chans": None}, "four events of two channels, %d ticks per note" % tpn, reach=("rows1", "rows5", "end"), weight=7))
        out.append(Case("far_%d" % tpn, song, {"plan": [(2, 15), (2, 0), (5, 15)], "tpn": tpn, "tmax": [(0, tpn), (126 * tpn, 129 * tpn), (0, 2 * tpn)], "rows": 135, "chans": None}, "three events, the last ones around row 128, %d ticks per note" % tpn, reach=("rows127", "rows130", "end"), weight=9))
    if not q:
        out.append(Case("chord", song, {"plan": [(i, 15) for i in range(8)] + [(3, 0)], "tpn": T, "tmax": W, "rows": 2, "chans": None}, "nine events on all channels", reach=("rows1", "rows2", "end"), weight=9))
        out.append(Case("b5", song, {"plan": B + [(0, 15)], "tpn": T, "tmax": W, "rows": 5, "chans": None}, "five events", reach=("rows1", "rows5", "end"), weight=12))
    for a, b in ((62, 66), (127, 130)) if q else ((62, 66), (127, 130), (191, 194), (640, 642)):
        out.append(Case("late_%d" % a, song, {"plan": [(None, 15), (5, 0)], "tpn": 1000, "tmax": [(a * 1000, b * 1000), (0, 2000)], "rows": b + 4, "chans": (0, 7)}, "the first event at row %d to %d" % (a, b), reach=("rows%d" % (a + 1), "rows%d" % (b + 1), "end"), weight=9))
    out.append(Case("scripted_late", scripted, {"n": 30, "patterns": 3, "seed": 23, "start": 64 * (9 if q else 40) + 17}, "scripted song of 30 events that starts after hundreds of rows", reach=("end",), weight=9, path_limit=300))
    for rows, free in ((2000, 1), (66000, 0)) if q else ((2000, 1), (5000, 1), (20000, 1), (66000, 0), (140000, 0)):
        out.append(Case("pause_%d" % rows, pause, {"rows": rows, "t": 10, "free": free}, "a pause of %d rows, %s" % (rows, "starting anywhere in the first row" if free else "ending anywhere in its row"), reach=("end",), weight=9, path_limit=300))
    for k, (rows, chans) in enumerate(((200, (2,)), (64, range(8)), (130, (0, 7, 3)))):
        out.append(Case("dense_%d" % k, dense, {"rows": rows, "chans": tuple(chans), "seed": 220 + k}, "scripted song with events on each of %d rows of %d channels" % (rows, len(chans)), reach=("end",), weight=5, path_limit=300))
    n = 230 if q else 1100
    out.append(Case("labels", labels, {"n": n, "seed": 222}, "%d key-ons with an instrument each, tunings, pannings and key codes of every kind" % n, reach=("end",), weight=9, path_limit=300))
    out.append(Case("scripted", scripted, {"n": 300, "patterns": 50 if q else 200, "seed": 22}, "scripted song of 300 events over thousands of rows", reach=("end",), weight=9, path_limit=300))
    return out

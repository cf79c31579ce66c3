from symx.case import Case
from harness import common as K
from harness import c25

NEEDS_XSDATA = True
ASSUMPTIONS = ["the song is observed in its written document (property C25)", "track and line numbers are within the song's; pattern numbers start at 0"]


def song(env, n, tracks, patterns, lines, wide):
    """n placements at arbitrary places."""
    s = env.mod("xrns.parts.song").Song(tracks=tracks, instruments=1, lines_per_track=lines)
    done = []
    for i in range(n):
        p, ch = env.pick("p%d" % i, patterns), env.pick("c%d" % i, tracks)
        line = env.zint("l%d" % i, 0, lines - 1)
        what = ["%s%d" % (k, i) for k in ("n", "i", "p")]
        if wide:
            what = [c25.word(env, x) for x in what]
        s.pattern_pool.add_note(p, ch, line, *what)
        done.append((p, ch, line, what))
    check(env, s, done, tracks)
    env.reach("end")


def partial(env, n):
    """Placements that leave out the instrument or the panning replace the whole cell too."""
    s = env.mod("xrns.parts.song").Song(tracks=1, instruments=1)
    done = []
    for i in range(n):
        line = env.zint("l%d" % i, 0, 63)
        what = ["n%d" % i, env.choose("i%d" % i, ("i%d" % i, None)), env.choose("p%d" % i, ("p%d" % i, None))]
        s.pattern_pool.add_note(0, 0, line, *what)
        done.append((0, 0, line, what))
    check(env, s, done, 1)
    env.reach("end")


def again(env, n):
    """Placements into few cells with few texts: some agree in all, some in all but one of the texts."""
    s = env.mod("xrns.parts.song").Song(tracks=1, instruments=1)
    done = []
    for i in range(n):
        what = [env.choose("n%d" % i, ("C-4", "Off")), env.choose("i%d" % i, ("00", None)), env.choose("p%d" % i, ("00", None))]
        line = env.pick("l%d" % i, 2)
        s.pattern_pool.add_note(0, 0, line, *what)
        done.append((0, 0, line, what))
    check(env, s, done, 1)
    env.reach("end")


def marks(env, n):
    """Notes, off marks and marks without a note replace each other as any other ones."""
    s = env.mod("xrns.parts.song").Song(tracks=1, instruments=1)
    done = []
    for i in range(n):
        line = env.zint("l%d" % i, 0, 63)
        what = list(env.choose("what%d" % i, (("C-4", "00", None), ("Off", None, None), ("OFF", None, "F0"), ("C-4", "FF", "00"), ("D#5", None, "40"), (None, "01", None), (None, None, "00"), ("---", "..", ".."), ("", "", ""))))
        s.pattern_pool.add_note(0, 0, line, *what)
        done.append((0, 0, line, what))
    check(env, s, done, 1)
    env.reach("end")


def check(env, s, done, tracks, name="song.xrns"):
    root = c25.write(env, s, name)
    pats = root.findall("PatternPool/Patterns/Pattern")
    env.check(len(pats) == max([p + 1 for p, _, _, _ in done] + [0]), "another number of patterns than the notes need")
    for p, e in enumerate(pats):
        ts = e.findall("Tracks/PatternTrack")
        env.check(len(ts) == tracks, "a pattern has another number of tracks")
        for ch, t in enumerate(ts):
            here = [(ln, w) for q, c, ln, w in done if (q, c) == (p, ch)]
            got = []
            for x in t.findall("Lines/Line"):
                cols = x.findall("NoteColumns/NoteColumn")
                env.check(len(cols) == 1, "a line has another number of notes")
                got.append((env.num(x.get("index")), [c25.empty(env.tok(cols[0].findtext(k))) for k in ("Note", "Instrument", "Panning")]))
            for i, (ln, w) in enumerate(here):
                last = env.and_(*[env.not_(env.same(ln, o)) for o, _ in here[i + 1:]])
                shown = env.or_(*[env.and_(env.same(g, ln), *[env.same(a, c25.empty(b)) for a, b in zip(v, w)]) for g, v in got])
                env.check(env.or_(env.not_(last), shown), "a note was lost or changed")
            for j, (g, _) in enumerate(got):
                env.check(env.or_(*[env.same(g, ln) for ln, _ in here]), "a note where none was placed")
                env.check(env.and_(*[env.not_(env.same(g, h)) for h, _ in got[:j]]), "a cell appears twice")


def two(env):
    """Two songs filled alternately stay apart, also after one was written."""
    m = env.mod("xrns.parts.song")
    songs = [m.Song(tracks=2), m.Song(tracks=3)]
    done = [[], []]
    for i in range(4):
        k = env.pick("k%d" % i, 2)
        p, ch, line = env.pick("p%d" % i, 2), env.pick("c%d" % i, 2), env.zint("l%d" % i, 0, 63)
        w = ["n%d" % i, "i%d" % i, "p%d" % i]
        songs[k].pattern_pool.add_note(p, ch, line, *w)
        done[k].append((p, ch, line, w))
        if i == 1:
            check(env, songs[0], done[0], 2, "early.xrns")
    check(env, songs[0], done[0], 2, "a.xrns")
    check(env, songs[1], done[1], 3, "b.xrns")
    env.reach("end")


def scripted(env, n, patterns, tracks):
    """Many placements, often into the same cell, over many patterns; texts arbitrary."""
    roll = K.Rolls(28)
    s = env.mod("xrns.parts.song").Song(tracks=tracks, instruments=1, lines_per_track=256)
    done = []
    words = [c25.word(env, "w%d" % i) for i in range(6)]
    for i in range(n):
        p = roll(patterns) if roll(6) == 0 else roll(2) * (patterns - 1)
        ch, line = roll(tracks), roll(256) if roll(2) else roll(12)
        what = [words[roll(6)], words[roll(6)], words[roll(6)]]
        s.pattern_pool.add_note(p, ch, line, *what)
        done.append((p, ch, line, what))
    want = {}
    for p, ch, line, what in done:
        want[(p, ch, line)] = what
    check_all(env, s, want, patterns)
    env.reach("end")


def check_all(env, s, want, patterns):
    root = c25.write(env, s)
    got = {}
    for p, e in enumerate(root.findall("PatternPool/Patterns/Pattern")):
        for ch, t in enumerate(e.findall("Tracks/PatternTrack")):
            for x in t.findall("Lines/Line"):
                k = (p, ch, env.fix(env.num(x.get("index"))))
                env.check(k not in got, "a cell appears twice")
                got[k] = [env.tok(c.findtext(z)) for c in x.findall("NoteColumns/NoteColumn") for z in ("Note", "Instrument", "Panning")]
    env.check(len(root.findall("PatternPool/Patterns/Pattern")) == patterns, "another number of patterns than the notes need")
    for k in got:
        env.check(k in want, "a note where none was placed")
    for k, v in want.items():
        env.check(k in got and len(got[k]) == 3 and env.truth(env.and_(*[env.same(a, b) for a, b in zip(got[k], v)])), "a note was lost or changed")


def dense(env, lines, tracks):
    """Every line of a pattern filled, in various orders, some of them twice; the first notes anywhere."""
    s = env.mod("xrns.parts.song").Song(tracks=tracks, instruments=1, lines_per_track=lines)
    want = {}
    order = env.choose("order", ("up", "down", "mixed"))
    base = env.choose("base", (0, 1, lines - 1))
    words = [c25.word(env, "w%d" % i) for i in range(4)]
    for i in range(lines + lines // 2):
        k = {"up": i, "down": -1 - i, "mixed": base + 13 * i}[order] % lines
        for ch in range(tracks):
            what = [words[(i + ch) % 4], words[(i * 3 + 1) % 4], words[(i * 5 + ch) % 4]]
            s.pattern_pool.add_note(1, ch, k, *what)
            want[(1, ch, k)] = what
    check_all(env, s, want, 2)
    env.reach("end")


def cases(tier):
    q = tier == "quick"
    out = [Case("none", song, {"n": 0, "tracks": 2, "patterns": 1, "lines": 64, "wide": False}, "no placements", reach=("end",)),
           Case("three", song, {"n": 3, "tracks": 2, "patterns": 3, "lines": 64, "wide": True}, "3 placements, 2 tracks, 3 patterns, any line and texts", reach=("end",), weight=3),
           Case("four", song, {"n": 4, "tracks": 2, "patterns": 2, "lines": 64, "wide": False}, "4 placements, 2 tracks, 2 patterns, any line", reach=("end",), weight=5),
           Case("far", song, {"n": 2, "tracks": 3, "patterns": 12, "lines": 512, "wide": False}, "2 placements, 3 tracks, 12 patterns, 512 lines", reach=("end",), weight=5),
           Case("partial", partial, {"n": 3 if q else 4}, "placements with and without instrument and panning on one track", reach=("end",), weight=4),
           Case("again", again, {"n": 2 if q else 3}, "placements of equal or partly equal notes", reach=("end",), weight=4),
           Case("marks", marks, {"n": 2 if q else 3}, "placements of off marks, notes and marks without a note on one track", reach=("end",), weight=4),
           Case("scripted", scripted, {"n": 1500 if q else 4000, "patterns": 1100 if q else 2500, "tracks": 11}, "1500 scripted placements over 1100 patterns and 11 tracks, any texts", reach=("end",), weight=9, path_limit=300),
           Case("dense64", dense, {"lines": 64, "tracks": 2}, "every line of a pattern of 64 lines filled, in several orders, any texts", reach=("end",), weight=4),
           Case("dense512", dense, {"lines": 512, "tracks": 1}, "the same with 512 lines", reach=("end",), weight=5),
           Case("one_cell", song, {"n": 4 if q else 5, "tracks": 1, "patterns": 1, "lines": 512, "wide": True}, "placements on one track", reach=("end",), weight=2)]
    if not q:
        out += [Case("five", song, {"n": 5, "tracks": 2, "patterns": 2, "lines": 64, "wide": False}, "5 placements", reach=("end",), weight=9),
                Case("four3", song, {"n": 4, "tracks": 2, "patterns": 3, "lines": 64, "wide": False}, "4 placements, 3 patterns", reach=("end",), weight=9),
                Case("two", two, {}, "two songs filled alternately", reach=("end",), weight=9)]
    return out

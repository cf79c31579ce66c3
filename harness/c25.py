from symx.case import Case
from harness import common as K

NEEDS_XSDATA = True
ASSUMPTIONS = ["settings and line numbers are whole numbers, texts are arbitrary (opaque) strings; the escaping of texts is checked for chosen ones",
               "an absent and an empty element mean the same; decoration (colours, mixer devices, column visibility) is not song data"]

NUMBERS = [("beats_per_min", "BeatsPerMin"), ("lines_per_beat", "LinesPerBeat"), ("ticks_per_line", "TicksPerLine"),
           ("signature_numerator", "SignatureNumerator"), ("signature_denominator", "SignatureDenominator"),
           ("metronome_beats_per_bar", "MetronomeBeatsPerBar"), ("metronome_lines_per_beat", "MetronomeLinesPerBeat"),
           ("octave", "Octave"), ("loop_coeff", "LoopCoeff")]
TEXTS = [("song_name", "SongName"), ("artist", "Artist")]
STATES = ("Active", "Off", "Muted")
KINDS = ("SequencerTrack", "SequencerMasterTrack", "SequencerSendTrack")


class Want:
    """What the document has to say, recorded while the song is built."""

    def __init__(self):
        self.glob, self.shuffle, self.amounts = {}, False, [0, 0, 0, 0]
        self.tracks = []            # (kind, name, state, soloed)
        self.instruments = 0
        self.patterns = []          # pattern -> track -> [(line, (note, instr, pan))]
        self.sequence = []


def word(env, tag):
    """An arbitrary text."""
    return env.cat("t", env.zint(tag, 0, 1 << 40))


def new(env, tracks, instruments, lines=64):
    song = env.mod("xrns.parts.song").Song(tracks=tracks, instruments=instruments, lines_per_track=lines)
    w = Want()
    for a, _ in NUMBERS:
        w.glob[a] = getattr(song.globals, a)
    for a, _ in TEXTS:
        w.glob[a] = getattr(song.globals, a)
    w.shuffle, w.amounts = song.globals.shuffle_is_active, list(song.globals.shuffle_amounts)
    w.instruments = instruments
    w.tracks = [["SequencerTrack", "Track %d" % (i + 1), "Active", False] for i in range(tracks)] + [[KINDS[1], "Mst", "Active", False], [KINDS[2], "S01", "Active", False]]
    w.n = tracks
    return song, w


def every_track(song):
    return list(song.tracks.tracks) + list(song.tracks.master_tracks) + list(song.tracks.send_tracks)


def place(song, w, p, ch, line, note, instr, pan):
    song.pattern_pool.add_note(p, ch, line, note, instr, pan)
    while len(w.patterns) <= p:
        w.patterns.append([[] for _ in range(w.n)])
    w.patterns[p][ch].append((line, (note, instr, pan)))


def write(env, song, name="song.xrns"):
    with open(env.path(name), "wb") as f:
        env.mod("xrns.writer").writer(f, song)
    names, root = env.read_xrns(name)
    env.check(list(names) == ["Song.xml"], "the archive does not hold exactly Song.xml")
    return root


def flag(text):
    return {"true": True, "1": True, "false": False, "0": False, None: None}.get(text, text)


def empty(x):
    return None if x is None or x == "" else x


def check_document(env, root, w):
    g = root.findall("GlobalSongData")
    env.check(root.tag == "RenoiseSong" and len(g) == 1, "the document has no global settings")
    g = g[0]
    for a, tag in NUMBERS:
        env.check(len(g.findall(tag)) == 1, "a setting is missing")
    env.check(env.and_(*[env.same(env.num(g.findtext(tag)), w.glob[a]) for a, tag in NUMBERS]), "a setting does not have its value")
    for a, tag in TEXTS:
        got = empty(env.tok(g.findtext(tag)))
        env.check(env.same(got, empty(w.glob[a])), "a text of the song is not at its place")
    env.check(env.same(flag(g.findtext("ShuffleIsActive")), env.fix(w.shuffle)), "the shuffle setting is wrong")
    am = [env.num(e.text) for e in g.findall("ShuffleAmounts/ShuffleAmount")]
    env.check(len(am) == len(w.amounts) and env.truth(env.and_(*[env.same(x, y) for x, y in zip(am, w.amounts)])), "the shuffle amounts are wrong")
    tr = list(root.find("Tracks"))
    for kind in KINDS:
        got = [t for t in tr if t.tag == kind]
        want = [t for t in w.tracks if t[0] == kind]
        env.check(len(got) == len(want), "another number of tracks")
        for t, (_, name, state, soloed) in zip(got, want):
            env.check(env.same(empty(env.tok(t.findtext("Name"))), empty(name)), "a track has another name")
            env.check(env.same(t.findtext("State"), state), "a track has another state")
            env.check(env.same(flag(t.findtext("Soloed")), env.fix(soloed)), "a track has another solo flag")
    env.check(len(tr) == len(w.tracks), "tracks of another kind")
    env.check([e.tag for e in root.find("Instruments")].count("Instrument") == w.instruments == len(root.find("Instruments")), "another number of instruments")
    pats = root.findall("PatternPool/Patterns/Pattern")
    env.check(len(pats) == len(w.patterns), "another number of patterns")
    for p, want in zip(pats, w.patterns):
        kids = [e.tag for e in p.find("Tracks")]
        env.check([kids.count("Pattern" + k[9:] if k != KINDS[0] else "PatternTrack") for k in KINDS] == [w.n, 1, 1] and len(kids) == w.n + 2, "a pattern has other tracks than the song")
        for t in p.find("Tracks"):
            if t.tag != "PatternTrack":
                env.check(not t.findall("Lines/Line"), "notes on a master or send track")
        for t, cells in zip(p.findall("Tracks/PatternTrack"), want):
            check_lines(env, t.findall("Lines/Line"), cells)
    seq = [env.num(e.findtext("Pattern")) for e in root.findall("PatternSequence/SequenceEntries/SequenceEntry")]
    env.check(len(seq) == len(w.sequence) and env.truth(env.and_(*[env.same(x, y) for x, y in zip(seq, w.sequence)])), "another play sequence")


def check_lines(env, lines, cells):
    """cells: [(line, (note, instrument, panning))] in any order; line numbers distinct."""
    env.check(len(lines) == len(cells), "another number of lines")
    for ln in lines:
        cols = ln.findall("NoteColumns/NoteColumn")
        env.check(len(cols) == 1, "a line has another number of notes")
        idx = env.num(ln.get("index"))
        got = [empty(env.tok(cols[0].findtext(x))) for x in ("Note", "Instrument", "Panning")]
        alts = [env.and_(env.same(idx, k), *[env.same(a, empty(b)) for a, b in zip(got, c)]) for k, c in cells if not (type(k) is type(idx) is int and k != idx)]
        env.check(env.or_(*alts), "a line is not the note placed there")
        env.check(all(e.tag in ("Note", "Instrument", "Panning") or not (e.text or "").strip() for e in cols[0]), "a note carries other data")


# ------------------------------------------------------------------ cases
def settings(env, amounts):
    """Every global setting arbitrary."""
    song, w = new(env, 2, 1)
    for a, _ in NUMBERS:
        w.glob[a] = env.zint(a, -(1 << 40), 1 << 40)
        setattr(song.globals, a, w.glob[a])
    for a, _ in TEXTS:
        w.glob[a] = word(env, a)
        setattr(song.globals, a, w.glob[a])
    n = env.choose("amounts", amounts)
    w.amounts = [env.zint("sh%d" % i, -(1 << 40), 1 << 40) for i in range(n)]
    song.globals.shuffle_amounts = list(w.amounts)
    w.shuffle = env.bool("shuffle")
    song.globals.shuffle_is_active = w.shuffle
    check_document(env, write(env, song), w)
    env.reach("shuffle" if w.shuffle else "straight")


def tracks(env, n, states):
    """Every track's name, state and solo flag arbitrary."""
    song, w = new(env, n, 3)
    ts = every_track(song)
    for i, (t, x) in enumerate(zip(ts, w.tracks)):
        t.name = x[1] = word(env, "n%d" % i)
    for k in range(states):
        i = env.choose("i%d" % k, range(len(ts)))
        ts[i].state = w.tracks[i][2] = env.choose("st%d" % k, STATES)
        s = env.bool("solo%d" % k)
        ts[i].soloed = w.tracks[i][3] = s
    check_document(env, write(env, song), w)
    env.reach("end")


def shape(env, counts, instruments):
    """Every number of tracks and instruments; further master and send tracks."""
    song, w = new(env, env.choose("tracks", counts), env.choose("instruments", instruments))
    m = env.mod("xrns.parts.track")
    if env.bool("more"):
        song.tracks.master_tracks.append(m.SequencerMasterTrack("M2"))
        song.tracks.send_tracks.append(m.SequencerSendTrack("S02"))
        w.tracks += [[KINDS[1], "M2", "Active", False], [KINDS[2], "S02", "Active", False]]
    place(song, w, 1, w.n - 1, 5, "C-4", "00", None) if w.n else None
    check_document(env, write(env, song), w)
    env.reach("more" if len(w.tracks) > w.n + 2 else "plain")


def notes(env, plan, lines):
    """Notes at arbitrary lines with arbitrary texts (or none) and an arbitrary play sequence."""
    song, w = new(env, 3, 2, lines)
    for i, (p, ch) in enumerate(plan):
        line = env.zint("l%d" % i, 0, lines - 1)
        for k, _ in (w.patterns[p][ch] if len(w.patterns) > p else ()):
            env.assume(env.not_(env.same(k, line)))
        note, instr, pan = word(env, "n%d" % i), word(env, "i%d" % i), word(env, "p%d" % i)
        have = env.pick("have%d" % i, 4) if i < 2 else 3
        place(song, w, p, ch, line, note, instr if have & 1 else None, pan if have & 2 else None)
    for i in range(env.pick("seq", 4)):
        s = env.zint("s%d" % i, 0, 1000)
        song.pattern_sequence.add_pattern(s)
        w.sequence.append(s)
    check_document(env, write(env, song), w)
    env.reach("seq%d" % len(w.sequence))


def repeated(env, n):
    """A play sequence that holds one entry several times, or whose entries were removed, moved or set anew."""
    song, w = new(env, 2, 1)
    e = song.pattern_sequence
    a = [env.zint("s%d" % i, 0, 5000) for i in range(n)]
    for x in a:
        e.add_pattern(x)
    s = e.sequence_entries
    how = env.choose("how", ("again", "front", "reverse", "remove", "set", "none", "double"))
    if how == "again":
        s.append(s[env.pick("k", n)])
        a.append(a[s.index(s[-1])])
    elif how == "front":
        s.insert(0, s.pop())
        a.insert(0, a.pop())
    elif how == "reverse":
        s.reverse()
        a.reverse()
    elif how == "remove":
        k = env.pick("k", n)
        del s[k], a[k]
    elif how == "set":
        k = env.pick("k", n)
        s[k].pattern = a[k] = env.zint("new", 0, 5000)
    elif how == "double":
        s.extend(list(s))
        a = a + a
    w.sequence = a
    check_document(env, write(env, song), w)
    env.reach(how)


def texts(env):
    """Texts that need escaping, and empty ones."""
    song, w = new(env, 2, 1)
    opts = ("", "a & b", "<x y='1'>", "]]>", "\u00e4\u4e16\U0001F3B5", "\"q\"", "a  b", "-- %s {0}", "end  ", "  start", "  ", "two\nlines\n", "\ttab", "</Artist>", "&amp;", "<!-- c -->", "<![CDATA[x]]>", "0", "None", "true", "\u00a0\u2028", "x" * 400)
    a, b = env.choose("a", opts), env.choose("b", opts)
    song.globals.song_name = w.glob["song_name"] = a
    song.globals.artist = w.glob["artist"] = b
    song.tracks.tracks[1].name = w.tracks[1][1] = a
    song.tracks.send_tracks[0].name = w.tracks[3][1] = b
    place(song, w, 0, 1, 7, b, a, None)
    check_document(env, write(env, song), w)
    env.reach("end")


def two(env):
    """Two songs under construction at once; writing twice gives the same document; old archives are replaced."""
    a, wa = new(env, 2, 1)
    b, wb = new(env, 2, 2)
    for s, w, t in ((a, wa, "a"), (b, wb, "b")):
        x = env.zint("bpm" + t, 20, 999)
        s.globals.beats_per_min = w.glob["beats_per_min"] = x
        s.globals.shuffle_amounts[1] = w.amounts[1] = env.zint("sh" + t, 0, 100)
        s.tracks.tracks[0].name = w.tracks[0][1] = word(env, "n" + t)
        s.tracks.tracks[1].soloed = w.tracks[1][3] = env.bool("solo" + t)
    for i, (s, w) in enumerate(((a, wa), (b, wb), (a, wa))):
        place(s, w, 0, 1, env.zint("l%d" % i, 10 * i, 10 * i + 9), word(env, "m%d" % i), word(env, "i%d" % i), None)
        s.pattern_sequence.add_pattern(i)
        w.sequence.append(i)
    r1 = write(env, a, "one.xrns")
    check_document(env, r1, wa)
    check_document(env, write(env, b, "one.xrns" if env.bool("over") else "two.xrns"), wb)
    r3 = write(env, a, "one.xrns")
    check_document(env, r3, wa)
    K.same_tree(env, r1, r3, "writing a song twice gives different documents")
    env.reach("end")


def scripted(env, n, patterns, seq):
    """A large song: hundreds of patterns, notes, entries and instruments; texts and settings arbitrary."""
    roll = K.Rolls(25)
    song, w = new(env, 11, 300, 512)
    for a, _ in NUMBERS[:4]:
        w.glob[a] = env.zint(a, 1, 1000)
        setattr(song.globals, a, w.glob[a])
    words = [word(env, "w%d" % i) for i in range(5)]
    used = set()
    for i in range(n):
        p = patterns - 1 if i == 0 else roll(patterns) if i % 4 else roll(3)
        ch, line = roll(11), roll(512)
        if (p, ch, line) not in used:
            used.add((p, ch, line))
            place(song, w, p, ch, line, words[roll(5)], words[roll(5)] if roll(3) else None, words[roll(5)] if roll(3) else None)
    for i in range(seq):
        x = roll(patterns) if i % 5 else env.zint("s%d" % (i % 7), 0, 5000)
        song.pattern_sequence.add_pattern(x)
        w.sequence.append(x)
    check_document(env, write(env, song), w)
    env.reach("end")


def dense(env, lines, tracks):
    """Every line of a pattern filled, placed in any of several orders."""
    song, w = new(env, tracks, 2, lines)
    order = env.choose("order", ("up", "down", "mixed"))
    words = [word(env, "w%d" % i) for i in range(3)]
    for i in range(lines):
        k = {"up": i, "down": lines - 1 - i, "mixed": 13 * i % lines}[order]
        for ch in range(tracks):
            place(song, w, 0, ch, k, words[(i + ch) % 3], words[i * 5 % 3] if i % 3 else None, words[i % 3] if i % 2 else None)
    check_document(env, write(env, song), w)
    env.reach("end")


def cases(tier):
    q = tier == "quick"
    A = [(0, 0), (0, 2), (1, 1)]
    B = [(2, 0), (0, 0), (2, 0), (1, 2)]
    out = [Case("settings", settings, {"amounts": range(6)}, "every global setting arbitrary", reach=("shuffle", "straight")),
           Case("tracks", tracks, {"n": 3, "states": 2}, "names of all tracks arbitrary, any state and solo flag", reach=("end",)),
           Case("tracks8", tracks, {"n": 8, "states": 1}, "the same with eight tracks", reach=("end",)),
           Case("shape", shape, {"counts": (0, 1, 2, 7, 8, 9, 12, 17, 33, 65) if q else (*range(0, 40), 64, 65, 130), "instruments": (0, 1, 2, 9, 130) if q else (0, 1, 2, 3, 9, 50, 129, 260)}, "numbers of tracks, instruments, master and send tracks", reach=("more", "plain"), weight=3),
           Case("notes_a", notes, {"plan": A, "lines": 64}, "notes %s at arbitrary lines, any texts, any play sequence" % (A,), reach=("seq0", "seq3")),
           Case("notes_b", notes, {"plan": B, "lines": 512}, "notes %s at arbitrary lines, any texts, any play sequence" % (B,), reach=("seq0", "seq3"), weight=3),
           Case("repeated", repeated, {"n": 4}, "play sequences changed after they were built", reach=("again", "front", "reverse", "remove", "set", "none", "double")),
           Case("texts", texts, {}, "texts that need escaping", reach=("end",)),
           Case("dense", dense, {"lines": 512, "tracks": 2}, "a pattern with a note on every line", reach=("end",), weight=5),
           Case("scripted", scripted, {"n": 1200 if q else 3000, "patterns": 1100 if q else 2500, "seq": 1500}, "a large scripted song with arbitrary texts", reach=("end",), weight=9, path_limit=300),
           Case("two", two, {}, "two songs at once, written alternately", reach=("end",))]
    return out

from symx.case import Case
from harness import common as K

NEEDS_XSDATA = True
ASSUMPTIONS = ["'alone' is decided by doing the same in freshly imported modules of the code under test"]
MAXLEN = 1 << 20


def facts(g):
    return [g.version, g.size(), g.clock("ym2151"), g.clock("ym2413")]


def check_facts(env, g, want, msg):
    got = facts(g)
    env.check(env.and_(*[env.same(a, b) for a, b in zip(got, want)]), msg)
    for chip, clock in (("ym2151", want[2]), ("ym2413", want[3])):
        env.check(env.same(env.truth(g.supports(chip)), clock > 0), msg)


def version(env, c, kind):
    """Keep the version field of a content on one side of the format's limits."""
    lo, hi = {"old": (0x100, 0x109), "mid": (0x110, 0x149), "new": (0x150, 0x171)}[kind]
    v = K.le(env, c, 8, 4)
    env.assume(env.and_(v >= lo, v <= hi, (v & 15) <= 9, ((v >> 4) & 15) <= 9))


def headers(env, kinds):
    """Several files opened one after the other; each keeps answering for itself."""
    cs = []
    for i, k in enumerate(kinds):
        c = env.content("f%d" % i, MAXLEN, 0x80, K.HEADER)
        version(env, c, k)
        cs.append(c)
    alone = []
    for c in cs:
        env.fresh()
        alone.append(facts(env.mod("vgm.core").reader(env.file(c))))
    env.fresh()
    core = env.mod("vgm.core")
    gs = [core.reader(env.file(c)) for c in cs]
    for g, w in zip(gs, alone):
        check_facts(env, g, w, "a file's header facts depend on the other files opened")
    again = core.reader(env.file(cs[0]))
    check_facts(env, again, alone[0], "a file's header facts depend on the files opened before")
    for g, w in zip(gs, alone):
        check_facts(env, g, w, "a file's header facts change when another file is opened")
    env.reach("end")


def starts(env, kinds):
    """Files whose data begin at different places, opened together: each is decoded from its own start."""
    built = []
    for i, k in enumerate(kinds):
        h = dict(K.HEADER)
        v = {"old": 0x101, "mid": 0x110, "new": 0x151}[k]
        h.update({8: v & 255, 9: v >> 8, 10: 0, 11: 0})
        off = 0x0C
        if k == "new":
            off = 0x0C + 3 * env.int("off%d" % i, 0, 15)
            h.update({0x34: off, 0x35: 0, 0x36: 0, 0x37: 0})
        for j in range(16):
            p = 0x40 + 3 * j
            h.update({p: 0x54, p + 1: env.int("f%d.r%d" % (i, j), 0, 255), p + 2: j})
        built.append((h, off))
    items = []
    for h, _ in built:
        items.append(env.bytes([h.get(j, 0) for j in range(0x40 + 48)] + [0x66]))
    core = env.mod("vgm.core")
    gs = [core.reader(env.file(b)) for b in items]
    for turn in range(2):
        for g, (h, off) in zip(gs, built):
            err, c = env.raises(next, g)
            n = (off - 0x0C) // 3 + turn
            if env.truth(n <= 15):
                env.check(err is None and c.command_id == 0x54 and env.same(c.value, n), "a file is not decoded from its own start")
            else:
                env.check(isinstance(err, StopIteration) or (err is None and c.command_id == 0x66), "a file is not decoded from its own start")
    env.reach("end")


SHAPES = ("write", "wait", "block", "other", "end")


def shape(env, tag, k):
    v = lambda n: env.int("%s.%s" % (tag, n), 0, 255)
    return {"write": lambda: [0x54, v("a"), v("b")], "wait": lambda: [0x61, v("a"), v("b")], "other": lambda: [0xC3, v("a"), v("b"), 0x66],
            "block": lambda: [0x67, 0x66, 0, 2, 0, 0, 0, v("a"), v("b")], "end": lambda: [0x66]}[k]()


def cmd_facts(env, g):
    err, c = env.raises(next, g)
    if err is not None:
        return [type(err).__name__]
    return [type(c).__name__, c.command_id] + [getattr(c, a) for a in ("reg", "value", "samples", "payload") if hasattr(c, a)]


def commands(env, n, first):
    """Two files decoded in turns deliver what each delivers alone."""
    bodies = []
    for f in range(2):
        body = []
        for i in range(n):
            body += shape(env, "f%d.%d" % (f, i), first if i + f == 0 else env.choose("k%d.%d" % (f, i), SHAPES))
        bodies.append(body)
    alone = []
    for b in bodies:
        env.fresh()
        g = env.mod("vgm.core").reader(env.file(K.stream(env, b)))
        alone.append([cmd_facts(env, g) for _ in range(n + 1)])
    env.fresh()
    core = env.mod("vgm.core")
    gs = [core.reader(env.file(K.stream(env, b))) for b in bodies]
    for i in range(n + 1):
        for g, w in zip(gs, alone):
            got = cmd_facts(env, g)
            env.check(len(got) == len(w[i]) and env.and_(*[env.same(a, b) for a, b in zip(got, w[i])]), "decoding one file changes what another one delivers")
    env.reach("end")


def cuts(env, kinds, turns):
    """Files that end inside a command or inside the header, one after the other, in turns, or one of them again."""
    files = []
    for f, ks in enumerate(kinds):
        k = env.choose("k%d" % f, ks)
        tag = "f%d" % f
        if k == "header":
            body, cut = [], env.choose("cut%d" % f, (1, 12, 0x2D))
        else:
            last = shape(env, tag, k)
            body = [0x54, env.int(tag + ".r", 0, 255), env.int(tag + ".v", 0, 255)] + last
            cut = env.choose("cut%d" % f, range(len(last)))
        files.append((body, cut))

    def make(f):
        body, cut = files[f]
        env.headers = f                     # the same header bytes each time
        c = K.stream(env, body)
        n = c.length - cut
        return env.bytes([c.at(i) for i in range(n)])

    def start(f):
        return env.raises(env.mod("vgm.core").reader, env.file(make(f)))

    def use(r, times):
        err, g = r
        if err is not None:
            return [[type(err).__name__]]
        return [cmd_facts(env, g) for _ in range(times)]
    alone = []
    for f in range(len(files)):
        env.fresh()
        alone.append(use(start(f), 3))
    env.fresh()
    if turns:
        gs = [start(f) for f in range(len(files))]
        out = [[] for _ in files]
        for i in range(3):
            for f, r in enumerate(gs):
                if r[0] is None or i == 0:
                    out[f] += use(r, 1)
        got = [(f, out[f]) for f in range(len(files))]
    else:
        got = [(f, use(start(f), 3)) for f in (0, 1, 0, 0, 1)]
    for f, facts_ in got:
        env.check(len(facts_) == len(alone[f]), "a file that ends early changes what another one delivers")
        for x, y in zip(facts_, alone[f]):
            env.check(len(x) == len(y) and env.and_(*[env.same(a, b) for a, b in zip(x, y)]), "a file that ends early changes what another one delivers")
    env.reach("end")


def states(env, n):
    """Two songs under construction in turns (same channels and registers)."""
    a, b = K.Chip(env), K.Chip(env)
    for i in range(n):
        for tag, chip in (("a", a), ("b", b)):
            ch = (0, 7)[i % 2]
            chip.fill([0x18, 0x60 + ch, 0x20 + ch, 0x28 + ch], "%s%d" % (tag, i))
            chip.wait(env.int("%s.w%d" % (tag, i), 0, 1 << 12))
            chip.key(ch, 15 if tag == "a" or i else env.int("m", 0, 15))
    c = K.Chip(env)
    c.key(0, 3)
    for chip in (a, b, c):
        K.check_log(env, chip.s, chip, pitch=True)
        K.check_instruments(env, chip.s, chip)
        env.check(env.and_(*[env.same(x, y) for x, y in zip(chip.s.ticks(), sorted_beats(env, chip))]), "a song's beats depend on another song")
    env.check(len(c.s.configs) == 1 and len(c.s.ticks()) == 1, "a new song starts with another one's data")
    env.reach("end")


def sorted_beats(env, chip):
    """Times of the reference in order (they grow), without repetitions."""
    out = []
    for t in chip.beats:
        if not out or env.truth(t != out[-1]):
            out.append(t)
    return out


def process(env, order):
    """Whole files processed and exported one after the other in one process."""
    def body(tag, ch):
        return [0x61, env.int(tag + ".w", 0, 255), 0, 0x54, 0x60 + ch, env.int(tag + ".tl", 0, 127), 0x54, 0x28 + ch, env.int(tag + ".kc", 0, 15) * 8,
                0x54, 0x08, 0x78 + ch, 0x62, 0x54, 0x08, 0x18 + ch, 0x54, 0x18, env.int(tag + ".lfo", 0, 255), 0x54, 0x08, 0x78 + ch, 0x66]

    bodies = {"a": body("a", 0), "b": body("b", 1)}

    def run(f, i):
        core, main = env.mod("vgm.core"), env.mod("main")
        st = main.process_vgm_file(core.reader(env.file(K.stream(env, bodies[f]))))
        ex = env.mod("extractors")
        ex.extract_instruments(env.path("i%d" % i), st)
        ex.extract_tracks_to_xrns(st, env.path("t%d" % i), 735)
        ex.extract_tracks(st, env.path("c%d" % i), 735)
        events = [[env.text_of(e) for e in st.key_presses(ch)] + [e.sample for e in st.key_presses(ch)] for ch in range(3)]
        return events, env.read_json("i%d" % i), env.read_xrns("t%d" % i)[1], env.read_csv("c%d" % i)

    alone = {}
    for i, f in enumerate("ab"):
        env.fresh()
        alone[f] = run(f, i)
    env.fresh()
    for i, f in enumerate(order):
        ev, js, doc, csv = run(f, 10 + i)
        w = alone[f]
        env.check(env.same(ev, w[0]), "a song's events depend on the files processed before")
        env.check(env.same(js, w[1]), "an instrument export depends on the files processed before")
        K.same_tree(env, doc, w[2], "a song export depends on the files processed before")
        env.check(env.same(csv, w[3]), "a track export depends on the files processed before")
    env.reach("end")


def busy(env, n):
    """A long song that uses everything goes before a short one; the short one comes out as alone."""
    x, body = 777, []
    def r(k):
        nonlocal x
        x = (x * 1103515245 + 12345) & 0x7FFFFFFF
        return (x >> 12) % k

    for i in range(n):
        k = r(10)
        if k < 6:
            reg = (0x0F, 0x18, 0x19, 0x1B, 0x01, 0x10, 0x12, 0x14)[r(8)] if k == 0 else 0x20 + r(0xE0)
            body += [0x54, reg, r(256)]
        elif k == 6:
            body += [0x61, r(256), r(16)]
        elif k == 7:
            body += [0x67, 0x66, 0, 3, 0, 0, 0, 1, 2, 3, 0xE0, 1, 0, 0, 0, 0x85, 0x91, 1, 2, 3, 4]
        else:
            body += [0x54, 8, r(16) * 8 + r(8), 0x62]
    v = lambda t, hi=255: env.int(t, 0, hi)
    short = [0x82, 0x61, v("w"), 0, 0x54, 0x60, v("tl", 127), 0x54, 8, 0x78, 0x62, 0x54, 0x29, v("kc", 15) * 8, 0x54, 8, 0x79, 0x54, 0x21, 0xC0, 0x54, 8, 1, 0x66]
    none = [0x62, 0x54, 8, 0, 0x66]

    def run(b, i):
        core, main, ex = env.mod("vgm.core"), env.mod("main"), env.mod("extractors")
        st = main.process_vgm_file(core.reader(env.file(K.stream(env, b))))
        env.raises(lambda: st.ticks_per_note(show_progress=False) if i % 2 else None)
        ex.extract_instruments(env.path("i%d" % i), st)
        ex.extract_tracks_to_xrns(st, env.path("t%d" % i), 735)
        ex.extract_tracks(st, env.path("c%d" % i), 735)
        events = [[env.text_of(e) for e in st.key_presses(ch)] + [e.sample for e in st.key_presses(ch)] for ch in range(8)]
        return events, env.read_json("i%d" % i), env.read_xrns("t%d" % i)[1], env.read_csv("c%d" % i), st.configs, st.ticks()

    alone = []
    for i, b in enumerate((short, none)):
        env.fresh()
        alone.append(run(b, i)[:4])
    env.fresh()
    first = run(body + [0x66], 10)
    kept = len(first[4]), len(first[5])
    env.check(kept[0] > 16 and kept[1] > 16, "the long song is not long")
    for i, (b, w) in enumerate(((short, 0), (none, 1), (short, 0))):
        ev, js, doc, csv = run(b, 11 + i)[:4]
        w = alone[w]
        env.check(env.same(ev, w[0]), "a song's events depend on the files processed before")
        env.check(env.same(js, w[1]), "an instrument export depends on the files processed before")
        K.same_tree(env, doc, w[2], "a song export depends on the files processed before")
        env.check(env.same(csv, w[3]), "a track export depends on the files processed before")
    env.check((len(first[4]), len(first[5])) == kept, "a song changes when another one is processed")
    env.reach("end")


def replaced(env, packed):
    """The file at one path is replaced by another one, of equal length or not, between two uses."""
    def body(tag, tail):
        return [0x61, env.int(tag + ".w", 0, 255), 0, 0x54, 0x60, env.int(tag + ".tl", 0, 127), 0x54, 0x28, env.int(tag + ".kc", 0, 15) * 8, 0x54, 0x08, 0x78] + tail + [0x66]

    tail = env.choose("tail", ([], [0x62, 0x54, 0x08, 0x79], [0x54, 0x08, 0x19]))
    first, second = K.stream(env, body("a", [0x54, 0x08, 0x00])), K.stream(env, body("b", tail))

    def run(n):
        main = env.mod("main")
        err, _ = env.raises(main.main, env.path("song.vgm"), env.path("i%d" % n), env.path("t%d" % n), 735)
        env.check(err is None, "the run failed")
        return env.read_json("i%d" % n), env.read_xrns("t%d" % n)[1]

    env.fresh()
    env.mount("song.vgm", second, gz=packed == "second")
    alone = run(0)
    env.fresh()
    env.mount("song.vgm", first, gz=packed == "first")
    run(1)
    env.mount("song.vgm", second, gz=packed == "second")
    js, doc = run(2)
    env.check(env.same(js, alone[0]), "an instrument export depends on the file processed before")
    K.same_tree(env, doc, alone[1], "a song export depends on the file processed before")
    env.reach("end")


BEATS = ((0, 3000, 6000), (1500, 3000, 4500), (1000, 3000, 5000), (0, 2000, 6000), (0, 4000, 6000), (0, 1500, 3000, 4500, 6000), (0, 6000),
         (0, 3000, 6000, 31000), (0, 3000, 6000, 36000), (2000, 5000, 8000), (0, 1024, 2048), (0, 2048, 4096), ())


def estimates(env, firsts, show):
    """Songs measured one after the other, some of them still growing between two measurements."""
    def grow(st, t, times):
        cfg = env.mod("vgm.ym2151.config")
        for x in times:
            st.beat(x - t)
            st.apply(cfg.create(0x08, 0x78))
            t = x
        return t

    def measure(st):
        return env.raises(lambda: st.ticks_per_note(show_progress=show))[1]

    a, b = env.choose("a", firsts), env.choose("b", range(len(BEATS)))
    later = tuple(max((0,) + BEATS[a]) + x for x in env.choose("later", ((), (1000,), (3000, 6000))))
    alone = []
    for times in (BEATS[a], BEATS[b], BEATS[a] + later):
        env.fresh()
        st = env.mod("vgm.ym2151.state").State()
        grow(st, 0, times)
        alone.append(measure(st))
    env.fresh()
    s, t = env.mod("vgm.ym2151.state").State(), env.mod("vgm.ym2151.state").State()
    end = grow(s, 0, BEATS[a])
    env.check(measure(s) == alone[0], "an estimate depends on the songs measured before")
    grow(t, 0, BEATS[b])
    env.check(measure(t) == alone[1], "an estimate depends on the songs measured before")
    grow(s, end, later)
    env.check(measure(s) == alone[2], "an estimate depends on what was measured before")
    env.check(measure(t) == alone[1], "an estimate depends on the songs measured before")
    env.reach("end")


def songs(env, step):
    """A song under construction is not touched by what is done to another one."""
    def default(name):
        song = env.mod("xrns.parts.song").Song(instruments=2)
        song.pattern_pool.add_note(1, 3, 9, "C-4", "01", None)
        return song

    def write(song, name):
        with open_out(env, name) as f:
            env.mod("xrns.writer").writer(f, song)
        return env.read_xrns(name)[1]

    env.fresh()
    alone = write(default("x"), "alone.xrns")
    env.fresh()
    before = default("b") if step != "after" else None
    other = env.mod("xrns.parts.song").Song(instruments=2)
    x = env.int("x", 0, 255)
    if step in ("globals", "after"):
        g = other.globals
        for k in ("beats_per_min", "lines_per_beat", "ticks_per_line", "signature_numerator", "octave", "loop_coeff"):
            setattr(g, k, x)
        g.song_name, g.artist, g.shuffle_is_active = "Other", "Another", True
        for i in range(4):
            g.shuffle_amounts[i] = x
    if step in ("tracks", "after"):
        for t in other.tracks.tracks + other.tracks.master_tracks + other.tracks.send_tracks:
            t.name, t.state, t.soloed = "Changed", "Off", True
        other.tracks.tracks.pop()
        other.tracks.send_tracks.append(other.tracks.send_tracks[0])
    if step in ("notes", "after"):
        other.pattern_pool.add_note(env.int("p", 0, 2), env.int("c", 0, 7), env.int("l", 0, 63), "D-2", "00", "F0")
        other.pattern_sequence.add_pattern(1)
        other.instruments.append(other.instruments[0])
    if step != "notes":
        env.check(write(other, "other.xrns") is not None, "the other song was not written")
    mine = before if before is not None else default("a")
    K.same_tree(env, write(mine, "mine.xrns"), alone, "a song depends on another song")
    K.same_tree(env, write(mine, "mine2.xrns"), alone, "writing a song twice gives different songs")
    env.reach("end")


def discarded(env, n):
    """Songs that are built, written and dropped one after the other; then one that outlives them."""
    bpm = [env.int("bpm%d" % i, 32, 255) for i in range(n)]

    def make(i):
        s = env.mod("xrns.parts.song").Song(tracks=2 + i % 2, instruments=2)
        if i % 3 != 1:
            s.globals.beats_per_min = bpm[i]
        s.globals.song_name, s.globals.lines_per_beat = "Song %d" % i, 4 + i
        s.tracks.tracks[0].name = "Track %d" % i
        s.instruments[0].name = "Instrument %d" % i
        s.pattern_pool.add_note(i % 2, i % 2, i, "C-%d" % i, "0%d" % i, None)
        s.pattern_sequence.add_pattern(0)
        return s

    def write(s, name):
        with open_out(env, name) as f:
            env.mod("xrns.writer").writer(f, s)
        return env.read_xrns(name)[1]

    alone = []
    for i in range(n):
        env.fresh()
        alone.append(write(make(i), "alone%d.xrns" % i))
    env.fresh()
    for i in range(n):
        K.same_tree(env, write(make(i), "one%d.xrns" % i), alone[i], "a song depends on one that was discarded")
    for i in range(n):
        s = make(i)
        first = write(s, "two%d.xrns" % i)
        del s
        K.same_tree(env, first, alone[i], "a song depends on one that was discarded")
    env.reach("end")


def open_out(env, name):
    return open(env.path(name), "wb")


def cases(tier):
    q = tier == "quick"
    out = []
    for ks in (("old", "mid"), ("mid", "old"), ("new", "new"), ("new", "old", "mid")) if q else [(a, b) for a in ("old", "mid", "new") for b in ("old", "mid", "new")] + [("old", "new", "mid"), ("new", "old", "mid"), ("mid", "old", "old")]:
        out.append(Case("headers_" + "_".join(ks), headers, {"kinds": ks}, "files of versions %s with any header contents, all open at once" % (ks,), reach=("end",), weight=6))
    for ks in ("new", "old"), ("new", "mid", "new"), ("old", "new"), ("new", "new"):
        out.append(Case("starts_" + "_".join(ks), starts, {"kinds": ks}, "files of versions %s with different data offsets open at once" % (ks,), reach=("end",), weight=3))
    for f in SHAPES:
        out.append(Case("commands_" + f, commands, {"n": 2 if q else 3, "first": f}, "two files of %d commands each, decoded in turns" % (2 if q else 3), reach=("end",), weight=5))
    for k in SHAPES[:4] + ("header",):
        for turns in (False, True):
            out.append(Case("cuts_%s_%s" % (k, "turns" if turns else "after"), cuts, {"kinds": ((k,), SHAPES[:4] + ("header",)), "turns": turns}, "two files cut anywhere in their last command or in the header, %s" % ("in turns" if turns else "one after the other and again"), reach=("end",), weight=4))
    out.append(Case("states", states, {"n": 2 if q else 3}, "two songs under construction in turns, then a third", reach=("end",), weight=8))
    for o in ("aba", "bab", "aab") if q else ("aba", "bab", "aab", "bba", "abab", "baab"):
        out.append(Case("process_" + o, process, {"order": o}, "files processed and exported in the order %s" % o, reach=("end",), weight=8))
    out.append(Case("busy", busy, {"n": 300 if q else 1500}, "a scripted song of %d commands before two short ones" % (300 if q else 1500), reach=("end",), weight=9))
    for k in ("none", "first", "second"):
        out.append(Case("replaced_" + k, replaced, {"packed": k}, "a file replaced by another between two runs of the tool (compressed: %s)" % k, reach=("end",), weight=5))
    for i in range(len(BEATS)) if not q else (0, 1, 5, 7):
        out.append(Case("estimates_%d" % i, estimates, {"firsts": (i,), "show": bool(i % 2)}, "a song with beats %s and one of %d others measured in turns" % (BEATS[i], len(BEATS)), reach=("end",), weight=4))
    out.append(Case("discarded", discarded, {"n": 4 if q else 6}, "songs with arbitrary tempos built, written and dropped one after the other", reach=("end",), weight=5))
    for s in ("globals", "tracks", "notes", "after"):
        out.append(Case("songs_" + s, songs, {"step": s}, "%s of another song changed" % s, reach=("end",), weight=4))
    return out

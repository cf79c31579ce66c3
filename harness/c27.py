import os
import sys
from symx.case import Case
from harness import common as K

NEEDS_XSDATA = True
ASSUMPTIONS = ["what the two outputs must contain is decided by properties C13 to C20; here they must be those of the given file's song and the given (or estimated) ticks per note",
               "ticks per note, when given, is at least 1; input names are ordinary file names (standard streams: property C24)",
               "a run that produces nothing may end in any way (an exception or an exit status)"]


class Song:
    """A file with two instruments and some events; some operands symbolic."""

    def __init__(self, env, wait=None, values=True):
        self.chip = chip = K.Chip(env)
        a = env.int("a", 0, 255) if values else 0x2E
        b = env.int("b", 0, 127) if values else 17
        w = env.int("w", 0, 255) if wait is None else wait
        self.body = []
        self.reg(0x20, 0xC7)
        self.reg(0x28, 0x4A)
        self.reg(0x60, b)
        self.reg(0x18, a)
        self.wait(500)
        self.key(0, 15)
        self.wait(w * 8)
        self.key(0, 0)
        self.reg(0x2B, 0x35)
        self.reg(0x23, 0x80)
        self.wait(1000)
        self.key(3, 5)
        self.wait(w)
        self.key(0, 15)
        self.body.append(0x66)

    def reg(self, r, v):
        self.body += [0x54, r, v]
        self.chip.write(r, v)

    def key(self, ch, mask):
        self.reg_key = mask
        self.body += [0x54, 0x08, (mask << 3) + ch]
        self.chip.key(ch, mask)

    def wait(self, n):
        self.body += [0x61, n & 255, n >> 8]
        self.chip.wait(n)


class Quiet(Song):
    """A file without a key-on: nothing at all, waits, writes, or key-offs only."""

    def __init__(self, env, kind):
        self.chip, self.body = K.Chip(env), []
        if kind != "nothing":
            self.wait(env.int("w", 0, 255))
        if kind == "writes":
            self.reg(0x60, env.int("b", 0, 127))
            self.reg(0x28, 0x4A)
        if kind == "offs":
            self.key(0, 0)
            self.wait(900)
            self.key(7, 0)
        self.body.append(0x66)


def outputs(env):
    """Which outputs are asked for, and how 'none' is said."""
    i = env.choose("instr", (None, "", "i.json", "x"))
    t = env.choose("track", (None, "", "t.xrns", "y"))
    return i, t


def check_outputs(env, song, i, t, tpn):
    """Exactly the requested files, holding the song's data."""
    env.check(i and env.exists(i) or not i and not env.exists("i.json") and not env.exists("x"), "the instrument list is not written exactly when requested")
    env.check(t and env.exists(t) or not t and not env.exists("t.xrns") and not env.exists("y"), "the song is not written exactly when requested")
    if i:
        got = env.read_json(i)
        env.mod("extractors").extract_instruments(env.path("ref.json"), song.chip.s)
        env.check(env.same(got, env.read_json("ref.json")), "the instrument list is not that of the file")
        env.reach("instr")
    if t:
        if tpn is None:
            tpn = song.chip.s.ticks_per_note()
        ref = K.export(env, song.chip.s, tpn, "ref.xrns")
        K.same_tree(env, K.Document(env, t).root, ref.root, "the song is not that of the file at the given ticks per note")
        env.reach("track")
    env.reach("i%dt%d" % (bool(i), bool(t)))


def leftovers(env, allowed):
    env.check(set(env.listing()) <= set(allowed), "another file was written")


def call(env, main, file, i, t, tpn, given):
    i, t = env.path(i) if i else i, env.path(t) if t else t
    if given:
        return env.raises(lambda: main.main(file, i, t, tpn))[0]
    return env.raises(lambda: main.main(file, i, t))[0]


def run(env, tpns, wait, gz, existing=False):
    """Any combination of outputs; ticks per note given or not."""
    song = Song(env, wait=None if wait is None else env.choose("w", wait))
    tpn = env.choose("tpn", tpns) if isinstance(tpns, list) else env.zint("tpn", *tpns)
    f = env.mount("song.vgm", K.stream(env, song.body), gz=gz)
    i, t = outputs(env)
    old = env.choose("existing", (0, 3, 200000)) if existing else 0
    if old:                         # outputs of an earlier run, shorter or longer, are replaced
        for n in (i, t):
            if n:
                with open(env.path(n), "wb") as o:
                    o.write(b"old" * old)
    err = call(env, env.mod("main"), f, i, t, tpn, tpn is not None or env.bool("none given"))
    env.check(err is None, "the run failed")
    check_outputs(env, song, i, t, tpn)
    leftovers(env, ["song.vgm", "ref.json", "ref.xrns", i, t])
    env.reach("end")


INPUTS = ("song.vgm", "sub/song.vgm", "a b.vgz", "$HOME.vgm", "~", "-x.vgm", "song", "sub/../s.vgm", "t.json", "\u00e4\u4e16")
NAMES = ("out", "sub/out", "sub/../out", "a b", "$HOME", "${HOME}", "~", "~root", "%d", "o*", "{0}", "\u00e4\u4e16", "-o", "o.xrns.json", " o ", "./o", "o.gz", "O.VGM", "n" * 200, "None", "0", "$SUB/x", "%HOME%", "o.vgm.vgm")


def names(env, what):
    """Files in any directory, of any name, named from the working directory or absolutely: outputs are written under exactly the names given."""
    song = Song(env, wait=40)
    os.mkdir(env.path("sub"))
    f = env.choose("input", INPUTS) if what == "input" else env.choose("input", INPUTS[:2])
    far = env.mount(f, K.stream(env, song.body))
    i, t = None, None
    if what in ("input", "both"):
        i, t = env.choose("outs", (("i.json", "t.xrns"), ("sub/i.json", "t.xrns"), ("x", "sub/y")))
    elif what == "instr":
        i = env.choose("instr", NAMES)
    else:
        t = env.choose("track", NAMES)
    rel = env.bool("relative")
    name = lambda n: n if rel or not n else env.path(n)
    if any((n or "").startswith("$SUB/") for n in (i, t)):
        os.mkdir(env.path("$SUB"))
    home = os.environ.get("SUB")
    os.environ["SUB"] = "sub"
    try:
        err, _ = env.raises(lambda: env.mod("main").main(f if env.bool("relative input") else far, name(i), name(t), 700))
    finally:
        os.environ.pop("SUB") if home is None else os.environ.update(SUB=home)
    env.check(err is None, "the run failed")
    env.check((not i or env.exists(i)) and (not t or env.exists(t)), "an output was not written under its name")
    env.check(sorted(env.listing()) == sorted(os.path.normpath(n) for n in (f, i, t) if n), "other files than the requested ones were written")
    check_outputs(env, song, i, t, 700)
    env.reach("end")


def quiet(env, kinds):
    """A file without a key-on gives an empty instrument list and a song without notes, when requested."""
    song = Quiet(env, env.choose("kind", kinds))
    f = env.mount("song.vgm", K.stream(env, song.body), gz=env.bool("gz"))
    i, t = outputs(env)
    tpn = env.choose("tpn", (735, 4000))
    err = call(env, env.mod("main"), f, i, t, tpn, True)
    env.check(err is None, "the run failed")
    check_outputs(env, song, i, t, tpn)
    if i:
        env.check(env.read_json(i) == [], "instruments in a file without a key-on")
    leftovers(env, ["song.vgm", "ref.json", "ref.xrns", i, t])
    env.reach("end")


def twice(env):
    """Two runs in one process: nothing of the first shows in the second."""
    main = env.mod("main")
    a, b = Song(env, wait=40), Song(env, wait=3, values=False)
    fa, fb = env.mount("a.vgm", K.stream(env, a.body)), env.mount("b.vgm", K.stream(env, b.body))
    ta, tb = env.choose("ta", (None, 700)), env.choose("tb", (None, 900))
    env.check(call(env, main, fa, "x" if env.bool("ix") else None, "y", ta, True) is None, "the run failed")
    env.check(call(env, main, fb, "i.json", "t.xrns", tb, True) is None, "the run failed")
    check_outputs(env, b, "i.json", "t.xrns", tb) if not env.exists("x") else None
    if env.exists("x"):
        env.mod("extractors").extract_instruments(env.path("ref.json"), b.chip.s)
        env.check(env.same(env.read_json("i.json"), env.read_json("ref.json")), "the instrument list is not that of the file")
    else:
        env.reach("end")


def refuse(env, f, err_expected=True):
    """A run on an unusable input leaves no output and does not touch existing files."""
    main = env.mod("main")
    i, t = env.choose("outs", (("i.json", None), (None, "t.xrns"), ("i.json", "t.xrns")))
    tpn = env.choose("tpn", (None, 1000))
    old = env.bool("existing")
    if old:
        for n in ("i.json", "t.xrns"):
            with open(env.path(n), "wb") as o:
                o.write(b"old\n")
    call(env, main, f, i, t, tpn, True)
    if old:
        env.check(env.same(env.raw("i.json"), b"old\n") and env.same(env.raw("t.xrns"), b"old\n"), "an existing file was touched although the input is unusable")
        env.reach("kept")
    else:
        env.check(not env.exists("i.json") and not env.exists("t.xrns"), "an output was produced from an unusable input")
        env.reach("none")
    leftovers(env, ["bad", "i.json", "t.xrns"])


def not_vgm(env, maxlen):
    """Any content that does not start with the VGM signature (nor with gzip's)."""
    c = env.content("data", maxlen)
    n = env.fix(c.length) if env.truth(c.length < 4) else 4
    if n >= 4:
        env.assume(env.not_(env.and_(*[c.at(k) == K.HEADER[k] for k in range(4)])))
    if n >= 2:
        env.assume(env.not_(env.and_(c.at(0) == 0x1F, c.at(1) == 0x8B)))
    refuse(env, env.mount("bad", c))


def short_header(env):
    """The header ends early."""
    n = env.fix(env.int("n", 4, 0x33))
    h = K.header151()
    refuse(env, env.mount("bad", env.bytes([h.get(k, 0) if k < 8 or k > 11 else env.int("h%d" % k, 0, 255) for k in range(n)])))


def short_command(env):
    """The file ends inside a register write or a wait, after a playable song."""
    song = Song(env, wait=40)
    tail = env.choose("tail", ([0x54], [0x54, 0x28], [0x61], [0x61, 0x10]))
    tail = [tail[0]] + [env.int("x", 0, 255) for _ in tail[1:]]
    refuse(env, env.mount("bad", K.stream(env, song.body[:-1] + tail), gz=env.bool("gz")))


def absent(env):
    refuse(env, env.path("absent.vgm"))


def line(env):
    """The command line: every argument in its role, in any order and spelling."""
    song = Song(env, wait=env.choose("w", (40, 255)))
    env.mount("song.vgm", K.stream(env, song.body))
    i, t = env.choose("instr", (None, "i.json")), env.choose("track", (None, "t.xrns"))
    tpn = env.choose("tpn", (None, 1, 735, 100000))
    args = []
    if i:
        args += env.choose("is", (["-i", i], ["--instrument", i], ["--instrument=" + i]))
    if t:
        args += env.choose("ts", (["-t", t], ["--track", t]))
    if tpn is not None:
        args += env.choose("tns", (["-tn", str(tpn)], ["--ticks-per-note", str(tpn)]))
    args = ["song.vgm"] + args if env.bool("first") else args + ["song.vgm"]
    err = env.script("main.py", args)
    env.check(err is None, "the run failed")
    check_outputs(env, song, i, t, tpn)
    leftovers(env, ["song.vgm", "ref.json", "ref.xrns", i, t])
    env.reach("end")


def numbers(env):
    """Ticks per note on the command line are decimal, however they are written."""
    song = Song(env, wait=env.choose("w", (40, 255)))
    env.mount("song.vgm", K.stream(env, song.body))
    text = env.choose("text", ("735", "0735", "000735", "+735", "0099", "10", "010", "1000", "1e", "0x2df", "7.5", "735.0", "", "-"))
    form = env.choose("form", ("-tn", "--ticks-per-note", "="))
    args = ["song.vgm", "-i", "i.json", "-t", "t.xrns"] + (["--ticks-per-note=" + text] if form == "=" else [form, text])
    err = env.script("main.py", args)
    if not text.lstrip("+").isdigit():
        env.check(err is not None, "something that is no number was taken for the ticks per note")
        env.check(not env.exists("i.json") and not env.exists("t.xrns"), "an output was produced from an unusable argument")
        env.reach("refused")
        return
    env.check(err is None, "the run failed")
    check_outputs(env, song, "i.json", "t.xrns", int(text))
    leftovers(env, ["song.vgm", "ref.json", "ref.xrns", "i.json", "t.xrns"])
    env.reach("end")


def streams(env):
    """'-' as the instrument output stands for standard output, '-' as the input for standard input."""
    song = Song(env, wait=env.choose("w", (40, 255)))
    content = K.stream(env, song.body)
    name = env.choose("file", ("song.vgm", "-"))
    f = "-" if name == "-" else env.mount("song.vgm", content)
    i, t, tpn = env.choose("instr", ("-", "i.json", None)), env.choose("track", ("t.xrns", None)), env.choose("tpn", (735, None))
    saved, sys.stdin = sys.stdin, Stdin(env.file(content))
    try:
        with env.capture() as out:
            err = env.raises(lambda: env.mod("main").main(f, env.path(i) if i and i != "-" else i, env.path(t) if t else t, tpn))[0]
            env.check(err is None, "the run failed")
            env.check(not sys.stdin.buffer.closed and not out.closed(), "a standard stream was closed")
    finally:
        sys.stdin = saved
    env.mod("extractors").extract_instruments(env.path("ref.json"), song.chip.s)
    docs = out.lists()
    env.check(len(docs) == (1 if i == "-" else 0), "the instrument list is not on standard output exactly when requested")
    if docs:
        env.check(env.same(docs[0], env.read_json("ref.json")), "the instrument list on standard output is not that of the file")
    check_outputs(env, song, None if i == "-" else i, t, tpn)
    leftovers(env, ["song.vgm", "ref.json", "ref.xrns", i, t])
    env.reach("stdin" if name == "-" else "file")
    env.reach("end")


class Stdin:
    def __init__(self, buffer):
        self.buffer, self.closed = buffer, False


def line_bad(env):
    """The command line on unusable input ends without output; wrong arguments are refused."""
    bad = env.choose("bad", ("not vgm", "no file", "no argument", "not a number"))
    if bad == "not vgm":
        env.mount("bad", env.bytes([0x50, 0x4B] + [env.int("b%d" % k, 0, 255) for k in range(70)]))
    elif bad == "not a number":
        env.mount("bad", K.stream(env, Song(env, wait=1).body))
    args = [] if bad == "no argument" else ["bad"]
    args += ["-i", "i.json", "-t", "t.xrns"] + (["-tn", "ten"] if bad == "not a number" else [])
    err = env.script("main.py", args)
    env.check(not env.exists("i.json") and not env.exists("t.xrns"), "an output was produced from an unusable input")
    env.reach(bad)


def cases(tier):
    q = tier == "quick"
    R4 = ("i0t0", "i0t1", "i1t0", "i1t1", "end")
    return [Case("given", run, {"tpns": [735, 4000] if q else [1, 2, 735, 1000, 7999, 100000], "wait": None, "gz": False}, "every combination of outputs, listed ticks per note, symbolic operands and wait", reach=R4, weight=5),
            Case("given_any", run, {"tpns": (1, 100000), "wait": (0, 255) if q else (0, 1, 100, 255), "gz": False}, "every combination of outputs, every ticks per note 1..100000, symbolic operands", reach=R4, weight=5),
            Case("estimated", run, {"tpns": [None], "wait": (0, 40) if q else (0, 7, 40, 255), "gz": False}, "every combination of outputs, ticks per note estimated, symbolic operands", reach=R4, weight=5),
            Case("packed", run, {"tpns": [700], "wait": (40,), "gz": True}, "a compressed file", reach=R4),
            Case("existing", run, {"tpns": [700], "wait": (40,), "gz": False, "existing": True}, "outputs that exist already, shorter or longer than the new ones", reach=R4),
            Case("names_in", names, {"what": "input"}, "input files of %d names, named from the working directory or absolutely" % len(INPUTS), reach=("end",)),
            Case("names_instr", names, {"what": "instr"}, "instrument lists of %d names" % len(NAMES), reach=("end",)),
            Case("names_track", names, {"what": "track"}, "songs of %d names" % len(NAMES), reach=("end",)),
            Case("quiet", quiet, {"kinds": ("nothing", "waits", "writes", "offs")}, "files without a key-on", reach=R4),
            Case("twice", twice, {}, "two runs", reach=("end",), weight=4),
            Case("not_vgm", not_vgm, {"maxlen": 300}, "every content of up to 300 bytes without the signature", reach=("kept", "none")),
            Case("short_header", short_header, {}, "headers of 4 to 51 bytes, any version", reach=("kept", "none")),
            Case("short_command", short_command, {}, "files that end inside a register write or wait", reach=("kept", "none")),
            Case("absent", absent, {}, "a file that does not exist", reach=("kept", "none")),
            Case("line", line, {}, "command lines with every combination, order and spelling of arguments", reach=R4, weight=5),
            Case("streams", streams, {}, "standard output for the instrument list, standard input for the file, with every combination of outputs", reach=R4 + ("file", "stdin")),
            Case("line_numbers", numbers, {}, "decimal numbers written in several ways, and what is no number", reach=("refused", "end")),
            Case("line_bad", line_bad, {}, "command lines that must fail", reach=("not vgm", "no file", "no argument", "not a number"))]

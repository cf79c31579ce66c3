from symx.case import Case
from harness import common as K

ASSUMPTIONS = ["gzip decompression itself is a stub with its documented contract (the compressed file decompresses to one arbitrary stream)"]


def plain(env):
    """Any file at all: accepted exactly when it starts with the magic."""
    core = env.mod("vgm.core")
    c = env.content("file", 80, 0)
    n = c.length
    ok = False
    if env.truth(n >= 2):
        env.assume(env.not_(env.and_(c.at(0) == 0x1F, c.at(1) == 0x8B)))
    if env.truth(n >= 4):
        ok = env.truth(env.and_(*[c.at(i) == K.HEADER[i] for i in range(4)]))
    err, g = env.raises(core.reader, env.file(c))
    if ok:
        env.check(g is not None or isinstance(err, EOFError), "a VGM file was reported as something else")
        env.reach("accepted")
    else:
        env.check(err is None and g is None, "a file without the VGM signature was accepted")
        env.reach("refused")


def facts(g):
    return [g.version, g.size(), g.clock("ym2151"), g.clock("ym2413")]


def cmds(env, g, n):
    """The first n commands, as comparable facts."""
    out = []
    it = iter(g)
    for _ in range(n):
        err, cmd = env.raises(next, it)
        if err is not None:
            out.append(type(err).__name__)
            break
        out.append([type(cmd).__name__, cmd.command_id, getattr(cmd, "reg", None), getattr(cmd, "value", None), getattr(cmd, "samples", None)])
    return out


def compare(env, a, b, msg):
    env.check(len(a) == len(b), msg)
    for x, y in zip(a, b):
        if isinstance(x, list) and isinstance(y, list):
            for p, q in zip(x, y):
                env.check(env.same(p, q) if p is not None and q is not None else (p is None) == (q is None), msg)
        elif isinstance(x, (list, str)) or isinstance(y, (list, str)):
            env.check(x == y if type(x) is type(y) else False, msg)
        else:
            env.check(x == y, msg)


def packed(env, fixed, minlen, maxlen, n):
    """A gzip file decompressing to any content gives the same view as that content."""
    core = env.mod("vgm.core")
    c = env.content("inner", maxlen, minlen, fixed)
    if not fixed:
        m = c.length
        if env.truth(m >= 2):
            env.assume(env.not_(env.and_(c.at(0) == 0x1F, c.at(1) == 0x8B)))
    e1, a = env.raises(core.reader, env.gzfile(c))
    e2, b = env.raises(core.reader, env.file(c))
    env.check(type(e1) is type(e2), "compressed and plain file are treated differently")
    if e1 is not None:
        env.check(isinstance(e1, EOFError), "unexpected error on a compressed file")
        env.reach("cut")
        return
    env.check((a is None) == (b is None), "compressed and plain file are recognised differently")
    if a is None:
        env.reach("refused")
        return
    env.reach("accepted")
    compare(env, facts(a), facts(b), "compressed and plain file report different header facts")
    if n:
        compare(env, cmds(env, a, n), cmds(env, b, n), "compressed and plain file yield different commands")


def twice(env):
    """A file compressed twice decompresses to a gzip file, not to a VGM file."""
    core = env.mod("vgm.core")
    c = env.content("inner", 1 << 16, 0x40, K.header151())
    err, g = env.raises(core.reader, env.gzfile(c, twice=True))
    env.check(err is None and g is None, "a file that decompresses to something else than VGM was accepted")
    env.reach("refused")


NAMES = ("song.vgm", "song.vgz", "song.gz", "song", "song.VGM", "song.vgm.gz", "gz", ".vgm")


def named(env, n):
    """What counts is the content: the name of the file plays no part."""
    core = env.mod("vgm.core")
    ok = env.bool("vgm")
    body = [0x61, env.int("a", 0, 255), env.int("b", 0, 255), 0x54, env.int("r", 0, 255), env.int("v", 0, 255), 0x62]
    c = K.stream(env, body) if ok else env.bytes([0x56, 0x67, 0x6D, env.choose("byte", (0, 0x21))] + [0] * 0x60)
    packed = env.bool("packed")
    name = env.choose("name", NAMES)
    with env.open(env.mount(name, c, gz=packed)) as f:
        err, g = env.raises(core.reader, f)
        env.check(err is None, "unexpected error")
        env.check((g is not None) == ok, "a file is accepted or refused for its name")
        if not ok:
            env.reach("refused")
            return
        a, b = core.reader(env.file(c)), g
        compare(env, facts(a), facts(b), "a file's header facts depend on its name")
        compare(env, cmds(env, a, n), cmds(env, b, n), "a file's commands depend on its name")
    env.reach("accepted")


def cases(tier):
    n = 2 if tier == "quick" else 3
    h = K.header151({0x34: 0x0C, 0x35: 0, 0x36: 0, 0x37: 0})
    return [Case("named", named, {"n": 4}, "files of %d names, compressed or not, with any command operands" % len(NAMES), reach=("accepted", "refused")),
            Case("twice", twice, {}, "every compressed VGM file of 64..2^16 bytes, compressed again", reach=("refused",)),
            Case("plain", plain, {}, "every file of 0..80 bytes not starting with the gzip magic", reach=("accepted", "refused")),
            Case("gzip_any", packed, {"fixed": None, "minlen": 0, "maxlen": 80, "n": 0}, "every decompressed content of 0..80 bytes", reach=("accepted", "refused", "cut")),
            Case("gzip_stream", packed, {"fixed": h, "minlen": 0x40, "maxlen": 1 << 20, "n": n}, "every decompressed content up to 2^20 bytes with a 1.51 header, first %d commands" % n, reach=("accepted",), weight=5)]

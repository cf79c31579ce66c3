from symx.case import Case
from harness import common as K

ASSUMPTIONS = ["files up to 16 MiB; the command sits at any position of the file"]
MAXLEN = 1 << 24


def one(env, lo, hi):
    """One complete command at an arbitrary position."""
    core, config = env.mod("vgm.core"), env.mod("vgm.ym2151.config")
    c = env.content("file", MAXLEN, 0x40, K.header151())
    off = K.le(env, c, 0x34, 4)
    env.assume(env.and_(off >= 0x0C, off <= MAXLEN))
    d = off + 0x34
    n = c.length
    env.assume(d + 12 <= n)
    cmd = c.at(d)
    env.assume(env.and_(cmd >= lo, cmd <= hi))
    if lo == 0x67:
        env.assume(d + 7 + K.le(env, c, d + 3, 4) <= n)
    if lo == 0x68:
        env.assume(d + 12 + K.le(env, c, d + 9, 3) <= n)
    got = next(iter(core.reader(env.file(c))))
    wait = isinstance(got, core.WaitCommand)
    if lo == 0x54:
        env.check(isinstance(got, config.YM2151Command), "a YM2151 write is not decoded as one")
        env.check(env.and_(got.reg == c.at(d + 1), got.value == c.at(d + 2)), "a YM2151 write has another register or value than the stream")
        env.observe("write", [got.reg, got.value])
        env.reach("write")
        return
    env.check(not isinstance(got, config.YM2151Command), "another command is decoded as a YM2151 write")
    if lo == 0x61:
        env.check(wait and got.samples == c.at(d + 1) + 256 * c.at(d + 2), "a wait command has another duration than the stream")
    elif lo == 0x62:
        env.check(wait and got.samples == 735, "wait command 0x62 is not 735 samples")
    elif lo == 0x63:
        env.check(wait and got.samples == 882, "wait command 0x63 is not 882 samples")
    elif lo == 0x70:
        env.check(wait and got.samples == cmd - 0x70 + 1, "a short wait has the wrong duration")
    elif lo == 0x80:
        env.check(not wait or got.samples == cmd - 0x80, "a write-and-wait command has the wrong duration")
    else:
        env.check(not wait or got.samples == 0, "a command that is no wait is decoded as one")
    env.reach("other")


def cut(env, lo):
    """The file ends inside the operands, at any position."""
    core = env.mod("vgm.core")
    c = env.content("file", MAXLEN, 0x40, K.header151())
    off = K.le(env, c, 0x34, 4)
    env.assume(env.and_(off >= 0x0C, off <= MAXLEN))
    d = off + 0x34
    n = c.length
    env.assume(env.and_(d < n, n <= d + 2, c.at(d) == lo))
    it = iter(core.reader(env.file(c)))
    err, got = env.raises(next, it)
    env.check(isinstance(err, EOFError), "a command cut short by the end of the file was delivered or raised another error")
    env.reach("cut")


def sequence(env, n):
    """n adjacent commands with values, decoded in a row."""
    core, config = env.mod("vgm.core"), env.mod("vgm.ym2151.config")
    body, want = [], []
    for i in range(n):
        k = env.pick("k%d" % i, 4)
        a, b = env.int("a%d" % i, 0, 255), env.int("b%d" % i, 0, 255)
        if k == 0:
            body += [0x54, a, b]
            want.append((a, b, None))
        elif k == 1:
            body += [0x61, a, b]
            want.append((None, None, a + 256 * b))
        elif k == 2:
            s = env.int("s%d" % i, 0x70, 0x7F)
            body += [s]
            want.append((None, None, s - 0x6F))
        else:
            body += [0x52, a, b]
            want.append((None, None, None))
    got = list(core.reader(env.file(K.stream(env, body))))
    env.check(len(got) == n, "wrong number of commands")
    for g, (r, v, w) in zip(got, want):
        if r is not None:
            env.check(isinstance(g, config.YM2151Command) and env.and_(g.reg == r, g.value == v), "a YM2151 write has another register or value than the stream")
        elif w is not None:
            env.check(isinstance(g, core.WaitCommand) and g.samples == w, "a wait command has another duration than the stream")
        else:
            env.check(not isinstance(g, (core.WaitCommand, config.YM2151Command)), "a write to another chip is taken for a YM2151 write or a wait")
    env.reach("end")


def long(env, n):
    """A long scripted stream: every write and wait carries its own values."""
    core, config = env.mod("vgm.core"), env.mod("vgm.ym2151.config")
    roll = K.Rolls(4)
    vals = [env.int("v%d" % i, 0, 255) for i in range(7)]
    body, want = [], []
    for i in range(n):
        k, a, b = roll(8), vals[roll(7)] if roll(3) else roll(256), vals[roll(7)] if roll(3) else roll(256)
        if k < 3:
            body += [0x54, a, b]
            want.append((a, b))
        elif k < 5:
            body += [0x61, a, b]
            want.append(a + 256 * b)
        elif k == 5:
            x = roll(18)
            body.append(0x70 + x if x < 16 else 0x52 + x)
            want.append(x + 1 if x < 16 else (735, 882)[x - 16])
        elif k == 6:
            body += [(0x52, 0x55, 0xA0)[roll(3)], a, b]
            want.append(None)
        else:
            m = roll(100)
            body += [0x67, 0x66, a, m, 0, 0, 0] + [vals[j % 7] for j in range(m)]
            want.append(None)
    it = iter(core.reader(env.file(K.stream(env, body))))
    for w in want:
        err, g = env.raises(next, it)
        env.check(err is None, "the stream ends early")
        if isinstance(w, tuple):
            env.check(isinstance(g, config.YM2151Command) and env.and_(g.reg == w[0], g.value == w[1]), "a YM2151 write has another register or value than the stream")
        elif w is not None:
            env.check(isinstance(g, core.WaitCommand) and g.samples == w, "a wait command has another duration than the stream")
        else:
            env.check(not isinstance(g, (core.WaitCommand, config.YM2151Command)), "a write to another chip is taken for a YM2151 write or a wait")
    env.reach("end")


def runs(env, n, kind):
    """n commands of one kind in a row, then one of every kind."""
    core, config = env.mod("vgm.core"), env.mod("vgm.ym2151.config")
    units = {"write": [0x54], "wait16": [0x61], "ntsc": [0x62], "pal": [0x63], "short": [0x70], "other": [0x52], "block": [0x67]}
    body, want = [], []

    def put(k, tag):
        a, b = env.int("a" + tag, 0, 255), env.int("b" + tag, 0, 255)
        s = env.int("s" + tag, 0x70, 0x7F) if k == "short" else 0
        return {"write": ([0x54, a, b], (a, b)), "wait16": ([0x61, a, b], a + 256 * b), "ntsc": ([0x62], 735), "pal": ([0x63], 882),
                "short": ([s], s - 0x6F), "other": ([0x52, a, b], None), "block": ([0x67, 0x66, a, 2, 0, 0, 0, 0x54, b], None)}[k]

    order = [kind] * n + list(units) + list(units)[::-1]
    for i, k in enumerate(order):
        x, w = put(k, "x" if i < n - 1 else str(i))
        body += x
        want.append(w)
    it = iter(core.reader(env.file(K.stream(env, body))))
    for w in want:
        err, g = env.raises(next, it)
        env.check(err is None, "the stream ends early")
        if isinstance(w, tuple):
            env.check(isinstance(g, config.YM2151Command) and env.and_(g.reg == w[0], g.value == w[1]), "a YM2151 write has another register or value than the stream")
        elif w is not None:
            env.check(isinstance(g, core.WaitCommand) and g.samples == w, "a wait command has another duration than the stream")
        else:
            env.check(not isinstance(g, (core.WaitCommand, config.YM2151Command)), "a write to another chip is taken for a YM2151 write or a wait")
    env.reach("end")


def cases(tier):
    out = []
    b = "arbitrary file up to 2^24 bytes, command at any position, all operand values"
    for lo, hi in ((0, 0x2F), (0x30, 0x3F), (0x40, 0x4F), (0x50, 0x53), (0x54, 0x54), (0x55, 0x60), (0x61, 0x61), (0x62, 0x62), (0x63, 0x63),
                   (0x64, 0x66), (0x67, 0x67), (0x68, 0x68), (0x69, 0x6F), (0x70, 0x7F), (0x80, 0x8F), (0x90, 0x9F), (0xA0, 0xBF), (0xC0, 0xDF), (0xE0, 0xFF)):
        out.append(Case("one_%02x_%02x" % (lo, hi), one, {"lo": lo, "hi": hi}, b, reach=("write",) if lo == 0x54 else ("other",)))
    for lo in (0x54, 0x61):
        out.append(Case("cut_%02x" % lo, cut, {"lo": lo}, b + ", file ending after 0 or 1 operand bytes", reach=("cut",)))
    n = 4 if tier == "quick" else 6
    out.append(Case("sequence", sequence, {"n": n}, "%d adjacent commands" % n, reach=("end",), weight=9))
    n = 800 if tier == "quick" else 5000
    for kind in ("write", "wait16", "ntsc", "pal", "short", "other", "block"):
        out.append(Case("runs_" + kind, runs, {"n": n, "kind": kind}, "%d commands of one kind, then two of every kind, operands symbolic" % n, reach=("end",), weight=5))
    n = 3000 if tier == "quick" else 10000
    out.append(Case("long", long, {"n": n}, "a scripted stream of %d commands, operands symbolic" % n, reach=("end",), weight=9))
    return out

from symx.case import Case
from harness import common as K

ASSUMPTIONS = ["the file is an arbitrary byte array with the read/seek/tell contract of a binary file; files up to 64 MiB"]
MAXLEN = 1 << 26


def step(env, lo, hi):
    """One decoding step at an arbitrary position of an arbitrary file, then the step after it."""
    core = env.mod("vgm.core")
    c = env.content("file", MAXLEN, 0x40, K.header151())
    off = K.le(env, c, 0x34, 4)
    env.assume(off >= 0x0C)
    env.assume(off <= MAXLEN)
    d = off + 0x34
    n = c.length
    env.assume(d < n)
    cmd = c.at(d)
    env.assume(env.and_(cmd >= lo, cmd <= hi))
    it = iter(core.reader(env.file(c)))
    for op, group in sorted(groups(lo, hi).items()):
        if env.truth(env.or_(*[cmd == g for g in group])):
            break
    else:
        raise AssertionError("unreachable")
    kind = group[0] if group[0] in (0x67, 0x68) else None
    end = d + 1 + op
    env.assume(end <= n)
    alt = None
    if kind == 0x67:
        end = end + K.le(env, c, d + 3, 4)
        env.assume(end <= n)
    elif kind == 0x68:
        alt = end + K.le(env, c, d + 9, 3)
        env.assume(alt <= n)
    last = env.truth(end == n)
    if not last:
        env.assume(c.at(end) == 0x62)
    first = next(it)
    env.check(first.command_id == cmd, "the decoded command reports another command byte")
    env.observe("id", first.command_id)
    if last:
        env.reach("last")
        err, more = env.raises(next, it)
        env.check(isinstance(err, StopIteration), "the stream does not end after the last command")
        return
    env.reach("step")
    if kind == 0x68:
        return ram_write(env, it, c, end, alt, n)
    second = next(it)
    env.check(env.and_(second.command_id == 0x62, getattr(second, "samples", None) == 735),
              "decoding went out of sync with the byte stream")


def ram_write(env, it, c, end, alt, n):
    """0x68: the format says no data follows; the listed finding is that the declared size is skipped."""
    if env.truth(alt == end):
        second = next(it)
        env.check(second.command_id == 0x62, "decoding went out of sync after a PCM RAM write of size 0")
        return
    if env.truth(alt == n):
        err, second = env.raises(next, it)
        if err is None:
            env.check(second.command_id == 0x62, "decoding went out of sync after a PCM RAM write")
        else:
            env.check(isinstance(err, StopIteration), "error after a PCM RAM write")
            env.reach("finding:ram-write-inline")
        return
    env.assume(c.at(alt) == 0x63)
    second = next(it)
    ok = env.or_(second.command_id == 0x62, second.command_id == 0x63)
    env.check(ok, "decoding went out of sync after a PCM RAM write")
    if env.truth(second.command_id == 0x63):
        env.reach("finding:ram-write-inline")


def groups(lo, hi):
    g = {}
    for x in range(lo, hi + 1):
        k = (K.OPERANDS[x], x if x in (0x67, 0x68) else 0)
        g.setdefault(k, []).append(x)
    return _Groups(g)


class _Groups(dict):
    def items(self):
        return [(k[0], v) for k, v in super().items()]


def end_of_file(env):
    """No command byte left: the stream ends, also when the data start lies beyond the file."""
    core = env.mod("vgm.core")
    c = env.content("file", MAXLEN, 0x40, K.header151())
    off = K.le(env, c, 0x34, 4)
    env.assume(off <= MAXLEN)
    env.assume(off + 0x34 >= c.length)
    it = iter(core.reader(env.file(c)))
    err, _ = env.raises(next, it)
    env.check(isinstance(err, StopIteration), "the stream does not end at the end of the file")
    env.reach("end")


def walk(env, n, first):
    """n arbitrary commands in a row inside one file of at most 96 bytes of data: all of them are
    seen, in order, each starting where the previous one ended."""
    core = env.mod("vgm.core")
    size = env.choose("size", range(1, n + 1))
    body = [env.int("b%d" % i, 0, 255) for i in range(size)]
    env.assume(env.and_(body[0] >= first, body[0] <= first + 0x3F))
    c = K.stream(env, body)
    it = iter(core.reader(env.file(c)))
    pos = 0
    while pos < size:
        for op, group in K_GROUPS:
            if env.truth(env.or_(*[env.and_(body[pos] >= a, body[pos] <= b) for a, b in group])):
                break
        if op is None:
            env.reach("block")
            return
        if pos + 1 + op > size:
            env.reach("cut")
            return
        cmd = next(it)
        env.check(cmd.command_id == body[pos], "a command was skipped, repeated or misread")
        pos += 1 + op
    env.reach("all")
    err, _ = env.raises(next, it)
    env.check(isinstance(err, StopIteration), "more commands than the stream holds")


def long(env, n, seed):
    """A scripted stream of n commands of every kind (operands symbolic), also data blocks of every size."""
    core = env.mod("vgm.core")
    roll = K.Rolls(seed)
    vals = [env.int("v%d" % i, 0, 255) for i in range(7)]
    body, cmds = [], []
    known = [x for x in range(256) if x not in (0x66, 0x67, 0x68)]
    for i in range(n):
        k = roll(30)
        if k == 0:
            m = (roll(12), roll(300), 255 + roll(3), roll(5000))[roll(4)]
            body += [0x67, 0x66, vals[roll(7)], m & 255, m >> 8, 0, 0] + [vals[(i + j) % 7] for j in range(m)]
            cmds.append(0x67)
        elif k == 1:
            body += [0x68, 0x66] + [vals[roll(7)] for _ in range(7)] + [0, 0, 0]
            cmds.append(0x68)
        elif k == 2:
            body.append(0x66)
            cmds.append(0x66)
        else:
            c = known[i % len(known)] if k < 20 else known[roll(len(known))]
            body += [c] + [vals[roll(7)] for _ in range(K.OPERANDS[c])]
            cmds.append(c)
    f = env.file(K.stream(env, body))
    it = iter(core.reader(f))
    for c in cmds:
        err, cmd = env.raises(next, it)
        env.check(err is None, "the stream ends early")
        env.check(cmd.command_id == c, "a command was skipped, repeated or misread")
    err, _ = env.raises(next, it)
    env.check(isinstance(err, StopIteration), "more commands than the stream holds")
    env.reach("all")


def chain(env, n, tail):
    """n commands in a row, each of any id and with any operands: none of them changes how the next is decoded."""
    core = env.mod("vgm.core")
    body, ids = [], []
    for i in range(n):
        op, runs = K_GROUPS[env.pick("kind%d" % i, len(K_GROUPS))]
        lo, hi = runs[env.pick("run%d" % i, len(runs))]
        x = env.int("id%d" % i, lo, hi)
        if op is None:
            x = lo if env.pick("ram%d" % i, 2) else hi
            k = env.pick("size%d" % i, 3) if x == 0x67 else 0
            body += [x, 0x66] + [env.int("t%d_%d" % (i, j), 0, 255) for j in range(1 if x == 0x67 else 7)]
            body += [k, 0, 0, 0][:4 if x == 0x67 else 3] + [env.int("d%d_%d" % (i, j), 0, 255) for j in range(k)]
        else:
            body += [x] + [env.int("o%d_%d" % (i, j), 0, 255) for j in range(op)]
        ids.append(x)
    ids += tail
    for x in tail:
        body += [x] + [0x62] * K.OPERANDS[x]
    it = iter(core.reader(env.file(K.stream(env, body))))
    for x in ids:
        err, cmd = env.raises(next, it)
        env.check(err is None, "the stream ends early")
        env.check(cmd.command_id == x, "a command was skipped, repeated or misread")
    err, _ = env.raises(next, it)
    env.check(isinstance(err, StopIteration), "more commands than the stream holds")
    env.reach("all")


def blocks(env, n, kind, size=0):
    """After n commands of one kind, a data block of any size: the next command is read right behind it."""
    core = env.mod("vgm.core")
    head = K.header151()
    p = 0x40
    unit = {0x67: [0x67, 0x66, 0, size & 255, size >> 8, 0, 0] + [0x61] * size, 0x68: [0x68, 0x66] + [0] * 10}.get(kind) or [kind] + [0x66] * K.OPERANDS[kind]
    fixed = dict(head)
    fixed.update(enumerate((0x0C).to_bytes(4, "little"), 0x34))
    for x in unit * n + [0x67, 0x66]:
        fixed[p] = x
        p += 1
    c = env.content("file", MAXLEN, p + 5, fixed)
    end = p + 5 + K.le(env, c, p + 1, 4)
    env.assume(end <= c.length)
    last = env.truth(end == c.length)
    if not last:
        env.assume(c.at(end) == 0x63)
    it = iter(core.reader(env.file(c)))
    for i in range(n):
        env.check(next(it).command_id == kind, "a command was skipped, repeated or misread")
    env.check(next(it).command_id == 0x67, "a command was skipped, repeated or misread")
    err, cmd = env.raises(next, it)
    if last:
        env.check(isinstance(err, StopIteration), "the stream does not end after its last data block")
        env.reach("last")
    else:
        env.check(err is None, "the stream ends early")
        env.check(cmd.command_id == 0x63, "decoding went out of sync after a data block")
        env.reach("next")


def _runs():
    by = {}
    for x in range(256):
        by.setdefault(None if x in (0x67, 0x68) else K.OPERANDS[x], []).append(x)
    out = []
    for op, xs in by.items():
        rs = []
        for x in xs:
            if rs and rs[-1][1] == x - 1:
                rs[-1][1] = x
            else:
                rs.append([x, x])
        out.append((op, rs))
    return out


K_GROUPS = _runs()


def cases(tier):
    out = []
    b = "file length 64..2^26, data start at any position, arbitrary content"
    for lo, hi in ((0, 0x2F), (0x30, 0x3F), (0x40, 0x4F), (0x50, 0x5F), (0x60, 0x66), (0x67, 0x67), (0x68, 0x68),
                   (0x69, 0x6F), (0x70, 0x7F), (0x80, 0x8F), (0x90, 0x9F), (0xA0, 0xBF), (0xC0, 0xDF), (0xE0, 0xFF)):
        out.append(Case("step_%02x_%02x" % (lo, hi), step, {"lo": lo, "hi": hi}, b, reach=("step", "last"), weight=5))
    out.append(Case("end", end_of_file, {}, b, reach=("end",)))
    n = 4 if tier == "quick" else 8
    for f in (0, 0x40, 0x80, 0xC0):
        out.append(Case("walk_%02x" % f, walk, {"n": n, "first": f}, "data of up to %d bytes" % n, reach=("all", "cut"), weight=9))
    for n, tail in (((2, [0x62]), (1, [0x80, 0x54, 0x63])) if tier == "quick" else ((2, [0x90, 0x62]), (3, []))):
        out.append(Case("chain_%d" % n, chain, {"n": n, "tail": tail}, "%d commands of any id and operands in a row" % n, reach=("all",), weight=9))
    for kind, n, size in ((0x67, 300, 0), (0x67, 40, 40), (0x68, 300, 0), (0xE0, 300, 0), (0x54, 1000, 0)):
        n *= 1 if tier == "quick" else 4
        out.append(Case("blocks_%02x_%d" % (kind, size), blocks, {"n": n, "kind": kind, "size": size}, "%d commands 0x%02x, then a data block of any size up to 2^26 bytes" % (n, kind), reach=("last", "next"), weight=5, path_limit=30))
    m = 3000 if tier == "quick" else 10000
    out.append(Case("long", long, {"n": m, "seed": 3}, "a scripted stream of %d commands of every kind, operands symbolic" % m, reach=("all",), weight=9))
    return out

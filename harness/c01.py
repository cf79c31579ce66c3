from symx.case import Case
from harness import common as K

ASSUMPTIONS = ["the version field holds decimal digits (BCD), as the format requires; files up to 16 MiB"]
MAXLEN = 1 << 24


def bcd(env, c):
    v = 0
    for i in range(3, -1, -1):
        b = c.at(8 + i)
        env.assume(env.and_((b & 15) <= 9, (b >> 4) <= 9))
        v = v * 100 + (b >> 4) * 10 + (b & 15)
    return v


def header(env):
    """A complete header with arbitrary fields in an arbitrary file."""
    core = env.mod("vgm.core")
    c = env.content("file", MAXLEN, 0x40, K.HEADER)
    v = bcd(env, c)
    old, new = env.truth(v < 110), env.truth(v >= 150)
    start = K.le(env, c, 0x34, 4) + 0x34 if new else 0x40
    inside = env.truth(start < c.length)
    if inside:
        within = env.truth(start < 0x38)        # the offset field's own bytes are the first commands then
        env.assume(c.at(start) == (0 if within else 0x62))
    g = core.reader(env.file(c))
    env.check(g is not None, "a VGM file was refused")
    env.check(g.version == v, "wrong version")
    env.check(g.size() == K.le(env, c, 4, 4) + 4, "wrong file size")
    opll = K.le(env, c, 0x10, 4)
    clock = opll if old else K.le(env, c, 0x30, 4)
    env.check(g.clock("ym2151") == clock, "wrong YM2151 clock")
    env.eq(env.truth(g.supports("ym2151")), env.truth(clock != 0), "wrong answer on YM2151 support")
    env.eq(env.truth(g.supports("ym2413")), env.truth(opll != 0), "wrong answer on YM2413 support")
    env.observe("facts", [g.version, g.size(), g.clock("ym2151")])
    env.reach("old" if old else "new" if new else "middle")
    err, cmd = env.raises(next, iter(g))
    if inside:
        env.check(err is None and cmd.command_id == (0 if within else 0x62), "decoding does not start at the data offset")
        if not within:
            env.check(cmd.samples == 735, "decoding does not start at the data offset")
            env.reach("decoded")
        else:
            err, cmd = env.raises(next, iter(g))
            env.check(isinstance(err, StopIteration) if env.truth(start + 1 >= c.length) else err is not None or env.same(cmd.command_id, c.at(start + 1)), "decoding does not start at the data offset")
            env.reach("within")
    else:
        env.check(isinstance(err, StopIteration), "commands decoded although the data starts beyond the end of the file")
        env.reach("beyond")


def cut(env):
    """A file that ends inside the header."""
    core = env.mod("vgm.core")
    c = env.content("file", 0x3F, 4, K.HEADER)
    n = c.length
    v = bcd(env, c) if env.truth(n >= 0x0C) else 0
    err, g = env.raises(core.reader, env.file(c))
    if env.truth(n < 0x14):
        env.check(isinstance(err, EOFError), "a header cut short was accepted")
        env.reach("short")
    elif env.truth(n < 0x34):
        if env.truth(v >= 110):
            env.check(isinstance(err, EOFError), "a header cut short before the YM2151 clock was accepted")
            env.reach("clock")
        else:
            env.check(err is None or isinstance(err, EOFError), "unexpected error on a short header")
    elif env.truth(v >= 150):
        if env.truth(n < 0x38):
            env.check(isinstance(err, EOFError), "a header cut short before the data offset was accepted")
            env.reach("offset")
        else:
            env.check(err is None, "a complete header was refused")
    else:
        env.check(err is None, "a complete header was refused")
        env.reach("whole")


def cases(tier):
    return [Case("header", header, {}, "files of 64..2^24 bytes, every field symbolic over its 32 bits", reach=("old", "middle", "new", "decoded", "within", "beyond")),
            Case("cut", cut, {}, "every file length 4..63, every content", reach=("short", "clock", "offset", "whole"))]

from symx.case import Case
from harness import common as K

ASSUMPTIONS = ["the PCM RAM write command (0x68) appears with size 0 only (other sizes: see known_findings.json)"]


def command(env, tag, size, regs=None):
    """One arbitrary command of the given operand count: (bytes, duration)."""
    if isinstance(size, str):
        if size == "block":
            m = env.choose(tag + ".size", range(4))
            return [0x67, env.int(tag + ".m", 0, 255), env.int(tag + ".t", 0, 255), m, 0, 0, 0] + [env.int("%s.p%d" % (tag, i), 0, 255) for i in range(m)], 0
        return [0x68] + [env.int("%s.o%d" % (tag, i), 0, 255) for i in range(8)] + [0, 0, 0], 0
    cmd = env.int(tag, 0, 255)
    rs = [r for n, r in GROUPS if n == size][0]
    env.assume(env.or_(*[env.and_(cmd >= a, cmd <= b) for a, b in rs]))
    env.assume(cmd != 0x66)
    ops = [env.int("%s.o%d" % (tag, i), 0, 255) for i in range(size)]
    d = 0
    if size == 2:
        if regs:
            env.assume(env.and_(ops[0] >= regs[0], ops[0] <= regs[1]))
            env.assume(env.not_(env.and_(cmd == 0x54, ops[0] == 8)))
        else:                       # a timer write
            env.assume(env.or_(cmd != 0x54, ops[0] == 0x12))
        d = env.ite(cmd == 0x61, ops[0] + 256 * ops[1], 0)
    elif size == 0:
        d = env.ite(cmd == 0x62, 735, env.ite(cmd == 0x63, 882, 0))
        d = env.ite(env.and_(cmd >= 0x70, cmd <= 0x7F), cmd - 0x6F, d)
        d = env.ite(env.and_(cmd >= 0x80, cmd <= 0x8F), cmd - 0x80, d)
    return [cmd] + ops, d


def groups():
    by = {}
    for x in range(256):
        if x not in (0x67, 0x68):
            by.setdefault(K.OPERANDS[x], []).append(x)
    out = []
    for op, xs in sorted(by.items()):
        rs = []
        for x in xs:
            if rs and rs[-1][1] == x - 1:
                rs[-1][1] = x
            else:
                rs.append([x, x])
        out.append((op, rs))
    return out


GROUPS = groups()


def clock(env, a, b, regs=None):
    """wait, any command, any command, key-on: the event's time is the sum of the waits."""
    core, main = env.mod("vgm.core"), env.mod("main")
    lo, hi = env.int("w.lo", 0, 255), env.int("w.hi", 0, 255)
    ba, da = command(env, "a", a, regs)
    bb, db = command(env, "b", b)
    body = [0x62, 0x54, 8, 0x79, 0x61, lo, hi] + ba + [0x54, 8, 0x7A] + bb + [0x54, 8, 0x7B, 0x66]
    st = main.process_vgm_file(core.reader(env.file(K.stream(env, body))))
    t1 = 735 + lo + 256 * hi + da
    for ch, t in ((2, t1), (3, t1 + db)):
        evs = st.key_presses(ch)
        env.check(len(evs) == 1, "a key-on was not recorded once")
        env.check(evs[0].sample == t, "an event's time is not the sum of the waits before it")
        env.observe("t%d" % ch, evs[0].sample)
    env.reach("end")


def long_song(env, n):
    """Many waits in one song: nothing is lost or truncated."""
    core, main = env.mod("vgm.core"), env.mod("main")
    body, total = [0x62, 0x54, 8, 0x78], 735
    v, w = env.int("v", 0, 65535), env.int("w", 0, 65535)
    for i in range(n):
        x = w if i % 3 else v
        body += [0x61, x & 255, x >> 8]
        total = total + x
    body += [0x54, 8, 0x7C, 0x66]
    st = main.process_vgm_file(core.reader(env.file(K.stream(env, body))))
    env.check(st.key_presses(4)[0].sample == total, "an event's time is not the sum of the waits before it")
    env.check(st.key_presses(0)[0].sample == 735, "an event's time changed afterwards")
    env.reach("end")


def pause(env, n):
    """A pause of n longest waits and an arbitrary one, without anything else in between."""
    core, main = env.mod("vgm.core"), env.mod("main")
    v, w = env.int("v", 0, 65535), env.int("w", 0, 65535)
    body = [0x61, w & 255, w >> 8, 0x54, 8, 0x78] + [0x61, 0xFF, 0xFF] * n + [0x61, v & 255, v >> 8, 0x54, 8, 0x79, 0x62, 0x54, 8, 0x7A, 0x66]
    st = main.process_vgm_file(core.reader(env.file(K.stream(env, body))))
    for ch, t in ((0, w), (1, w + n * 65535 + v), (2, w + n * 65535 + v + 735)):
        env.check(len(st.key_presses(ch)) == 1, "a key-on was not recorded once")
        env.check(st.key_presses(ch)[0].sample == t, "an event's time is not the sum of the waits before it")
    env.reach("end")


class Random:
    """A fixed sequence of numbers, the same in every run."""

    def __init__(self, seed):
        self.x = seed * 7919 + 12345

    def __call__(self, n):
        self.x = (self.x * 1103515245 + 12345) & 0x7FFFFFFF
        return (self.x >> 12) % n


SOME = (0x61, 0x62, 0x63, 0x67, 0x7F, 0x80, 0x85, 0x8F, 0x90, 0x91, 0x92, 0x93, 0x94, 0x95, 0xE0, 0xE1, 0x54, 0x50, 0x4F, 0x52, 0xB5, 0xC0, 0xD2, 0x30, 0x68)


def mixed(env, seed, n, some):
    """A long stream of commands of all kinds in a scripted order; every wait's length is arbitrary."""
    core, main = env.mod("vgm.core"), env.mod("main")
    r, body, t, want, waits = Random(seed), [], 0, [[] for _ in range(8)], 0
    for i in range(n):
        x = SOME[r(len(SOME))] if some else r(256)
        if x == 0x66:
            continue
        ops = [r(256) for _ in range(K.OPERANDS[x])]
        if x == 0x67:
            m = r(6)
            ops = [0x66, r(256), m, 0, 0, 0] + [r(256) for _ in range(m)]
        elif x == 0x68:
            ops[-3:] = [0, 0, 0]
        elif x == 0x54 and ops[0] == 8:
            ops[0] = 0x20
        elif x == 0x61:
            waits += 1
            if waits <= 12:
                w = env.int("w%d" % waits, 0, 65535)
                ops = [w & 255, w >> 8]
            else:
                w = ops[0] + 256 * ops[1]
            t = t + w
        body += [x] + ops
        t = t + {0x62: 735, 0x63: 882}.get(x, x - 0x6F if x >> 4 == 7 else x - 0x80 if x >> 4 == 8 else 0)
        if i % 7 == 6:
            ch = r(8)
            body += [0x54, 8, 0x78 + ch]
            want[ch].append(t)
    st = main.process_vgm_file(core.reader(env.file(K.stream(env, body + [0x66]))))
    for ch in range(8):
        evs = st.key_presses(ch)
        env.check(len(evs) == len(want[ch]), "a key-on was not recorded once")
        env.check(env.and_(*[env.same(e.sample, w) for e, w in zip(evs, want[ch])]), "an event's time is not the sum of the waits before it")
    env.reach("end")


def state_clock(env, n):
    """The clock of the chip state over arbitrarily long stretches of waiting."""
    chip = K.Chip(env)
    chip.wait(1)
    for i in range(n):
        chip.wait(env.int("w%d" % i, 0, (1 << 34) - 1))
        chip.key(i % 8, 15)
        chip.write(env.choose("r%d" % i, (0x10, 0x14, 0x0A, 0x28)), env.int("x%d" % i, 0, 255))
    for ch in range(8):
        for g, w in zip(chip.s.key_presses(ch), chip.events[ch]):
            env.check(g.sample == w["sample"], "an event's time is not the sum of the waits before it")
    env.reach("end")


def cases(tier):
    out = []
    kinds = [n for n, _ in GROUPS] + ["block", "ram"]
    for a in kinds:
        for b in kinds:
            w = 9 if a in (0, 2) or b in (0, 2) else 1
            if (a, b) == (2, 0):
                for lo in range(0, 256, 32):
                    out.append(Case("clock_2_0_%02x" % lo, clock, {"a": a, "b": b, "regs": (lo, lo + 31)}, "as below, chip register %02x..%02x" % (lo, lo + 31), reach=("end",), weight=9))
                continue
            out.append(Case("clock_%s_%s" % (a, b), clock, {"a": a, "b": b}, "two arbitrary commands with %s and %s operand bytes between waits and key-ons" % (a, b), reach=("end",), weight=w))
    n = 1500 if tier == "quick" else 5000
    out.append(Case("long", long_song, {"n": n}, "%d waits of two arbitrary lengths" % n, reach=("end",), weight=20))
    for k in (300, 33000):
        out.append(Case("pause%d" % k, pause, {"n": k}, "a pause of %d to %d samples" % (k * 65535, (k + 1) * 65535), reach=("end",), weight=20))
    for i in range(4 if tier == "quick" else 12):
        out.append(Case("mixed%d" % i, mixed, {"seed": i, "n": 250 if tier == "quick" else 1000, "some": i % 2 == 0}, "a scripted stream of %d commands of %s kinds with arbitrary waits" % (250 if tier == "quick" else 1000, "the more frequent" if i % 2 == 0 else "all"), reach=("end",), weight=9))
    out.append(Case("state", state_clock, {"n": 3 if tier == "quick" else 5}, "waits summing to 2^34 samples and more", reach=("end",)))
    return out

from symx.case import Case
from harness import common as K

ASSUMPTIONS = ["streams start with a wait; the trailing bytes are arbitrary, the commands before them are drawn from the listed shapes"]
SHAPES = ("pitch", "on", "off", "on1", "wait", "volume", "lfo", "other")


def emit(env, i, k, chip):
    """Bytes of one command of shape k; the reference chip is told what it means."""
    v = lambda lo=0, hi=255: env.int("v%d" % i, lo, hi)
    if k == "pitch":
        x = v()
        chip.ref.write(env, 0x28, x)
        return [0x54, 0x28, x]
    if k == "volume":
        x = v()
        chip.ref.write(env, 0x68, x)
        return [0x54, 0x68, x]
    if k == "lfo":
        x = v()
        chip.ref.write(env, 0x18, x)
        return [0x54, 0x18, x]
    if k == "on":
        chip.note_key(0, 15)
        return [0x54, 0x08, 0x78]
    if k == "on1":
        chip.note_key(1, 3)
        return [0x54, 0x08, 0x19]
    if k == "off":
        chip.note_key(0, 0)
        return [0x54, 0x08, 0x00]
    if k == "wait":
        x = v(0x70, 0x7F)
        chip.t = chip.t + (x - 0x6F)
        return [x]
    x = v()
    return [0x52, x, x]


def run(env, body):
    core, main = env.mod("vgm.core"), env.mod("main")
    return main.process_vgm_file(core.reader(env.file(K.stream(env, body))))


def order(env, n, first):
    """n commands of any shape: each is applied once, in stream order; with and without an end mark."""
    chip = K.Chip(env)
    body = [0x62]
    chip.t = 735
    for i in range(n):
        k = first if i == 0 else env.choose("k%d" % i, SHAPES)
        body += emit(env, i, k, chip)
    body += [0x54, 0x08, 0x7A]
    chip.note_key(2, 15)
    if env.bool("end mark"):
        body.append(0x66)
    st = run(env, body)
    K.check_log(env, st, chip, pitch=True)
    K.check_instruments(env, st, chip)
    env.observe("t", [e.sample for ch in range(3) for e in st.key_presses(ch)])
    env.reach("end")


def after_end(env, n):
    """Anything at all after the end-of-data command."""
    chip = K.Chip(env)
    w = env.int("w", 0, 255)
    body = [0x62, 0x54, 0x28, 0x3A, 0x54, 0x08, 0x78, 0x61, w, 0, 0x54, 0x08, 0x00, 0x61, 5, 0]
    chip.t = 735
    chip.ref.write(env, 0x28, 0x3A)
    chip.note_key(0, 15)
    chip.t = chip.t + w
    chip.note_key(0, 0)
    body.append(0x66)
    body += [env.int("j%d" % i, 0, 255) for i in range(n)]
    st = run(env, body)
    K.check_log(env, st, chip, pitch=True)
    K.check_instruments(env, st, chip)
    env.check(len(st.configs) == 1, "bytes after the end of the sound data created an instrument")
    env.check(list(st.ticks()) == [735], "bytes after the end of the sound data created a beat")
    env.reach("end")


def at_once(env, n, tail):
    """The end mark among the first commands, whatever came before it; what follows does not count."""
    chip = K.Chip(env)
    body = []
    for i in range(n):
        body += emit(env, i, env.choose("k%d" % i, SHAPES), chip)
    body.append(0x66)
    w = env.int("w", 0, 255)
    body += {"song": [0x54, 0x08, 0x78, 0x61, w, 1, 0x54, 0x08, 0x79, 0x54, 0x08, 0x00], "end": [0x54, 0x08, 0x78, 0x66, 0x54, 0x08, 0x7A],
             "wait": [0x61, w, 0, 0x66], "bytes": [w, env.int("j", 0, 255), env.int("i", 0, 255)]}[tail]
    st = run(env, body)
    K.check_log(env, st, chip, pitch=True)
    K.check_instruments(env, st, chip)
    times = [e["sample"] for ch in range(8) for e in chip.events[ch] if e["on"]]
    env.check(len(times) > 0 or list(st.ticks()) == [] and len(st.configs) == 0, "commands after the end of the sound data count")
    env.check(env.and_(*[env.or_(*[env.same(t, x) for x in times]) for t in st.ticks()]), "bytes after the end of the sound data created a beat")
    env.reach("end")


def operands(env):
    """The end mark's byte value inside operands does not end the song."""
    chip = K.Chip(env)
    pre = env.choose("pre", ([0x61, 0x66, 0x00], [0x54, 0x66, 0x66], [0x54, 0x12, 0x66], [0xC0, 0x66, 0x66, 0x66], [0x52, 0x66, 0x66],
                             [0x67, 0x66, 0x00, 2, 0, 0, 0, 0x66, 0x66], [0x90, 0x66, 0x66, 0x66, 0x66], [0xE0, 0x66, 0, 0, 0], [0x50, 0x66]))
    body = [0x62] + pre
    chip.t = 735 + (0x66 if pre[0] == 0x61 else 0)
    if pre[0] == 0x54 and pre[1] == 0x66:
        chip.ref.write(env, 0x66, 0x66)
    x = env.int("x", 0, 255)
    body += [0x54, 0x2B, x, 0x54, 0x08, 0x7B, 0x66]
    chip.ref.write(env, 0x2B, x)
    chip.note_key(3, 15)
    st = run(env, body)
    K.check_log(env, st, chip, pitch=True)
    K.check_instruments(env, st, chip)
    env.reach("end")


def long(env, n, end):
    """A scripted stream of n commands: every one of them is applied, in order."""
    chip = K.Chip(env)
    roll = K.Rolls(n)
    vals = [env.int("x%d" % i, 0, 255) for i in range(6)]
    waits = [env.int("w%d" % i, 0, 255) for i in range(3)]
    body = [0x62]
    chip.t = 735
    for i in range(n):
        k = roll(12)
        x = vals[roll(6)]
        ch = roll(8)
        if k < 3:
            r = (0x28, 0x30)[roll(2)] + ch
            chip.ref.write(env, r, x)
            body += [0x54, r, x]
        elif k < 5:
            m = roll(16)
            chip.note_key(ch, m)
            body += [0x54, 0x08, m * 8 + ch]
        elif k == 5:
            v = roll(20)
            chip.ref.write(env, 0x18, v)
            body += [0x54, 0x18, v]
        elif k == 6:
            w = waits[roll(3)]
            chip.t = chip.t + w + 256 * ch
            body += [0x61, w, ch]
        elif k == 7:
            w = 0x70 + roll(16)
            chip.t = chip.t + (w - 0x6F)
            body.append(w)
        elif k == 8:
            body += [[0x52, x, x], [0x50, x], [0xC0, x, x, x], [0xE0, x, x, x, x], [0x90, x, x, x, x], [0x54, 0x14, x], [0x31, x]][roll(7)]
        elif k == 9:
            m = roll(40)
            body += [0x67, 0x66, 0, m, 0, 0, 0] + [vals[roll(6)] for _ in range(m)]
        elif k == 10:
            chip.t = chip.t + (735 if ch < 4 else 882)
            body.append(0x62 if ch < 4 else 0x63)
        else:
            body += [0x80 + ch]
            chip.t = chip.t + ch
    body += [0x54, 0x08, 0x7A]
    chip.note_key(2, 15)
    if end:
        body += [0x66, 0x54, 0x08, 0x7A, 0x66]
    st = run(env, body)
    K.check_log(env, st, chip, pitch=True)
    K.check_instruments(env, st, chip)
    env.reach("end")


def cases(tier):
    n = 4 if tier == "quick" else 5
    out = [Case("order_" + f, order, {"n": n, "first": f}, "%d commands of 8 shapes with symbolic operands" % n, reach=("end",), weight=5) for f in SHAPES]
    m = 6 if tier == "quick" else 12
    for k in range(m + 1):
        out.append(Case("after_%d" % k, after_end, {"n": k}, "%d arbitrary bytes after the end mark" % k, reach=("end",), weight=k + 1))
    for t in ("song", "end", "wait", "bytes"):
        for k in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
            out.append(Case("at_once_%d_%s" % (k, t), at_once, {"n": k, "tail": t}, "an end mark after %d commands, then %s" % (k, t), reach=("end",), weight=k + 1))
    for e in (False, True):
        n = 3000 if tier == "quick" else 8000
        out.append(Case("long_%s" % ("marked" if e else "open"), long, {"n": n + e, "end": e}, "a scripted stream of %d commands, operands symbolic" % n, reach=("end",), weight=20))
    out.append(Case("operands", operands, {}, "0x66 as an operand of 9 kinds of commands", reach=("end",)))
    return out

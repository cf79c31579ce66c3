from symx.case import Case
from harness import common as K

ASSUMPTIONS = ["white space at the end of a label is not significant",
               "cents are 1.6 per key-fraction step rounded to the nearest integer, written with two digits after a '-'"]

NAMES = ["C#", "D ", "D#", "D?", "E ", "F ", "F#", "F?", "G ", "G#", "A ", "A?", "A#", "B ", "C ", "C?"]


def expected(env, note, octave, kf, ident, right, left):
    cents = (kf * 16 + 5) // 10
    tune = "-%02d" % cents if kf > 1 else ""
    pan = "" if right and left else " Pan R" if right else " Pan L"
    return env.cat(NAMES[note], "-", octave, tune, " [", ident, "]", pan)


def text(env, ev):
    t = env.text_of(ev)
    return t.rstrip()


def label(env, notes, kfs, chans):
    """One key-on: any key code, fine tuning and panning."""
    chip = K.Chip(env)
    ch = env.choose("ch", chans)
    kc = env.int("kc", 0, 127)
    env.assume(env.or_(*[(kc & 15) == n for n in notes]))
    chip.write(0x28 + ch, kc)
    k6 = env.int("kf", kfs[0], kfs[1])
    chip.write(0x30 + ch, (k6 << 2) + env.int("kflow", 0, 3))
    rl = env.int("rl", 0, 255)
    chip.write(0x20 + ch, rl)
    chip.wait(env.int("w", 0, 1 << 16))
    chip.key(ch, 15)
    ev = chip.s.key_presses(ch)[0]
    got = text(env, ev)
    right, left = env.fix((rl >> 7) & 1), env.fix((rl >> 6) & 1)
    want = expected(env, env.fix(kc & 15), kc >> 4, env.fix(k6), 0, right, left)
    env.check(env.same(got, want), "the label does not describe the event")
    env.observe("label", got)
    env.reach("pan%d%d" % (right, left))
    env.reach("end")


def numbers(env, n):
    """Many instruments: the number in brackets is the event's."""
    chip = K.Chip(env)
    chip.write(0x20, 0xC0)
    kc = env.int("kc", 0, 127)
    chip.write(0x28, kc)
    env.assume(env.or_((kc & 15) == 1, (kc & 15) == 14))
    note = env.fix(kc & 15)
    for i in range(n):
        chip.write(0x18, i & 255)
        chip.write(0x60, i >> 8)
        chip.key(0, 1 + i % 15)
    again = env.int("again", n - 12, n - 1)
    k = env.fix(again)
    chip.write(0x18, k & 255)
    chip.write(0x60, k >> 8)
    chip.key(0, 1 + k % 15)
    evs = chip.s.key_presses(0)
    env.check(len(evs) == n + 1, "events are missing")
    for i, e in enumerate(evs):
        ident = i if i < n else k
        env.check(env.same(text(env, e), expected(env, note, kc >> 4, 0, ident, 1, 1)), "the label does not describe the event")
    env.reach("end")


def thousand(env, n):
    """More than a thousand instruments."""
    chip = K.Chip(env)
    roll = K.Rolls(16)
    pitch = []
    for i in range(n):
        ch, note, octave, kf, pan = roll(8), roll(16), roll(8), roll(64), roll(4)
        chip.write(0x18, i & 255)
        chip.write(0x1B, i >> 8 & 3)
        chip.write(0x20 + ch, pan << 6)
        chip.write(0x28 + ch, octave * 16 + note)
        chip.write(0x30 + ch, kf << 2)
        chip.key(ch, 1 + (i >> 10))
        pitch.append((ch, expected(env, note, octave, kf, i, pan >> 1, pan & 1)))
    for ch in range(8):
        evs, want = chip.s.key_presses(ch), [t for c, t in pitch if c == ch]
        env.check(len(evs) == len(want), "events are missing")
        for e, t in zip(evs, want):
            env.check(env.same(text(env, e), t), "the label does not describe the event")
    env.reach("end")


def off(env):
    chip = K.Chip(env)
    chip.key(2, 1)
    ch = env.choose("ch", (2, 5))
    chip.write(0x28 + ch, env.int("kc", 0, 255))
    chip.write(0x20 + ch, env.int("rl", 0, 255))
    chip.write(0x30 + ch, env.int("kf", 0, 255))
    chip.wait(env.int("w", 0, 1 << 16))
    chip.key(ch, 0)
    got = text(env, chip.s.key_presses(ch)[-1])
    env.check(env.same(got, "Key Off"), "a key-off is not labelled 'Key Off'")
    env.check(env.not_(env.same(text(env, chip.s.key_presses(2)[0]), "Key Off")), "a key-on is labelled 'Key Off'")
    env.reach("end")


def cases(tier):
    q = tier == "quick"
    out = []
    pans = ("pan00", "pan01", "pan10", "pan11", "end")
    for i in range(0, 64, 8):
        notes = list(range(16)) if not q else ([0, 3, 13] if i else list(range(16)))
        out.append(Case("label_%02d" % i, label, {"notes": notes, "kfs": (i, i + 7), "chans": (0,) if i or q else (0, 7)}, "notes %s, every octave and panning, key fractions %d..%d" % (notes, i, i + 7), reach=pans, weight=5))
    out.append(Case("numbers", numbers, {"n": 105 if q else 300}, "up to %d instruments, the last 12 called again" % (105 if q else 300), reach=("end",), weight=6, path_limit=200))
    n = 1040 if q else 3000
    out.append(Case("thousand", thousand, {"n": n}, "%d instruments, scripted tunings, pannings and key codes" % n, reach=("end",), weight=9, path_limit=400))
    out.append(Case("off", off, {}, "key-offs of any pitch, panning and tuning", reach=("end",)))
    return out

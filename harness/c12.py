from symx.case import Case
from harness import common as K

ASSUMPTIONS = []


def kept(env, lo, hi):
    """Arbitrary pitch registers on two channels, key-ons and key-offs, then an arbitrary write, and again."""
    chip = K.Chip(env)
    chip.wait(1)
    pre = [r + c for c in (0, 5) for r in (0x20, 0x28, 0x30)]
    chip.fill(pre, "pre")
    chip.key(0, 15)
    chip.key(5, 15)
    last = env.choose("before", (0, 15))
    chip.key(0, last)
    reg = env.fix(env.int("reg", lo, hi))
    val = env.int("val", 0, 255)
    if reg == 8:
        chip.key(env.fix(val & 7), (val >> 3) & 15, val & 128)
    else:
        chip.write(reg, val)
    chip.key(0, env.choose("after", (0, 15)))
    chip.key(5, 0)
    chip.wait(1)
    chip.write(reg if reg != 8 else 0x28, env.int("val2", 0, 255))
    chip.key(0, last)
    chip.key(5, 0)
    K.check_log(env, chip.s, chip, pitch=True)
    e = chip.s.key_presses(0)[0]
    env.observe("pitch", [e.octave, e.note, e.key_fraction])
    env.reach("end")


def sequence(env, n, first):
    """Pitch writes and key commands of one channel in any order, another channel in between."""
    chip = K.Chip(env)
    chip.wait(1)
    ch = env.choose("ch", (0, 3, 7))
    for i in range(n):
        k = first if i == 0 else env.choose("k%d" % i, ("note", "fraction", "pan", "on", "off", "other"))
        if k == "note":
            chip.write(0x28 + ch, env.int("v%d" % i, 0, 255))
        elif k == "fraction":
            chip.write(0x30 + ch, env.int("v%d" % i, 0, 255))
        elif k == "pan":
            chip.write(0x20 + ch, env.int("v%d" % i, 0, 255))
        elif k == "on":
            chip.key(ch, 15)
        elif k == "off":
            chip.key(ch, 0)
        else:
            chip.write(env.choose("r%d" % i, (0x20, 0x28, 0x30)) + (ch + 1) % 8, env.int("v%d" % i, 0, 255))
    chip.key(ch, 1)
    K.check_log(env, chip.s, chip, pitch=True)
    env.reach("end")


def long(env, n, instruments, seed):
    """Scripted long history."""
    chip, order = K.long_song(env, n, seed, instruments)
    K.check_log(env, chip.s, chip, pitch=True)
    env.reach("end")


def cases(tier):
    q = tier == "quick"
    out = []
    step = 16
    for lo in range(0, 256, step):
        out.append(Case("kept_%02x" % lo, kept, {"lo": lo, "hi": lo + step - 1}, "symbolic pitch registers of two channels, one arbitrary later write", reach=("end",), weight=2))
    for f in ("note", "fraction", "pan", "on", "off", "other"):
        out.append(Case("sequence_" + f, sequence, {"n": 3 if q else 4, "first": f}, "pitch writes and key commands in any order", reach=("end",), weight=5))
    n = 3000 if q else 12000
    out.append(Case("long", long, {"n": n, "instruments": 20, "seed": 12}, "scripted history of %d key commands with %d instruments (pitch, panning and start time symbolic)" % (n, 20), reach=("end",), weight=9))
    return out

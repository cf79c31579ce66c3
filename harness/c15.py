from symx.case import Case
from harness import common as K

ASSUMPTIONS = ["key codes of the chip: octave in bits 6-4, note in bits 3-0; the codes 3, 7, 11 and 15 are unused by the chip",
               "the off mark is the text OFF in any capitalisation"]

CODES = (0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14)
NAMES = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}


def names(env, others, late):
    """The name of a key-on of any key code, on any channel, whatever else was written."""
    chip = K.Chip(env)
    ch = env.choose("ch", range(8) if not others else (0, 3, 7))
    if others:
        chip.write(0x20 + ch, env.int("rl", 0, 255))
        chip.write(0x30 + ch, env.int("kf", 0, 255))
        chip.wait(env.int("w", 0, 1 << 16))
        chip.key(ch, 2)
    kc = env.int("kc", 0, 127)
    note, octave = env.fix(kc & 15), env.fix(kc >> 4)
    chip.write(0x28 + ch, kc + (128 if env.bool("bit7") else 0))
    chip.key(ch, env.int("mask", 1, 15) if not others else 15)
    if late:
        chip.write(0x28 + ch, env.int("kc2", 0, 255))
    ev = chip.s.key_presses(ch)[-1]
    name = env.plain(ev.xrns_note())
    env.observe("name", name)
    env.check(len(name) == 3 and name[0] in NAMES and name[1] in "-#" and name[2] in "0123456789", "not a well-formed tracker note")
    if note in CODES:
        # semitones above the C# of octave 0
        got = int(name[2]) * 12 + NAMES[name[0]] + (name[1] == "#") - 1
        env.check(got == octave * 12 + CODES.index(note), "the tracker note is not the chip's pitch")
        env.reach("code%d" % note)
    else:
        env.reach("unused%d" % note)


def off(env):
    """Key-offs of any pitch."""
    chip = K.Chip(env)
    chip.key(1, 15)
    ch = env.choose("ch", (1, 6))
    chip.write(0x28 + ch, env.int("kc", 0, 255))
    chip.write(0x20 + ch, env.int("rl", 0, 255))
    chip.wait(env.int("w", 0, 1 << 16))
    chip.key(ch, 0)
    name = env.plain(chip.s.key_presses(ch)[-1].xrns_note())
    env.observe("name", name)
    env.check(name.upper() == "OFF", "a key-off is not written as an off mark")
    on = env.plain(chip.s.key_presses(1)[0].xrns_note())
    env.check(on.upper() != "OFF", "a key-on is written as an off mark")
    env.reach("end")


def cases(tier):
    r = tuple("code%d" % c for c in CODES) + tuple("unused%d" % c for c in (3, 7, 11, 15))
    return [Case("names", names, {"others": False, "late": False}, "every key code, any channel, any non-empty operator set", reach=r, weight=9),
            Case("names_others", names, {"others": True, "late": True}, "every key code, with other registers, waits and key-ons around it", reach=r, weight=9),
            Case("off", off, {}, "key-offs on the key-on's and on another channel, any pitch", reach=("end",))]

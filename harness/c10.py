from symx.case import Case
from harness import common as K

ASSUMPTIONS = ["any register byte incl. undocumented ones; key commands with any channel and operator set"]


def snapshot(chip):
    return [(dict(K.instrument_of(c)), K.mask_of(c)) for c in chip.s.configs]


def number(env, c):
    return c.repr_json()["id"] if hasattr(c, "repr_json") else None


def frozen(env, lo, hi, setup, prop_ops):
    """Captured instruments, then arbitrary commands: nothing about them changes."""
    chip = K.Chip(env)
    chip.wait(1)
    if setup == "symbolic":
        chip.fill(K.BASE_REGS + K.channel_regs(0) + K.channel_regs(7), "pre")
    chip.key(0, 15)
    if setup == "symbolic":
        chip.key(7, 5)
        chip.key(0, 3)
    before = snapshot(chip)
    nums = [number(env, c) for c in chip.s.configs]
    kept = list(chip.s.configs)
    # arbitrary later commands
    reg = env.fix(env.int("reg", lo, hi))
    val = env.int("val", 0, 255)
    if reg == 8:
        chip.key(env.fix(val & 7), (val >> 3) & 15, val & 128)
    else:
        chip.write(reg, val)
    chip.wait(env.int("wait", 0, 1000))
    if prop_ops:
        # a second round: the same register again, a key-off and a key-on of either channel
        ch = env.choose("again", (0, 7))
        chip.key(ch, 0)
        chip.key(ch, 15)
        chip.write(reg if reg != 8 else 0x18, env.int("val2", 0, 255))
        chip.key(ch, 1)
    for i, (p, m) in enumerate(before):
        now = K.instrument_of(chip.s.configs[i])
        K.check_same(env, now, p, list(p), "a captured instrument changed")
        env.check(K.mask_of(chip.s.configs[i]) == m, "a captured instrument's operators changed")
        env.check(chip.s.configs[i] is kept[i] or K.instrument_of(kept[i]) == now, "a captured instrument was exchanged")
        env.check(number(env, chip.s.configs[i]) == nums[i], "a captured instrument's number changed")
    env.reach("end")


def history(env, n):
    """Longer histories on one channel: every event's instrument still shows what was in force."""
    chip = K.Chip(env)
    chip.wait(1)
    for i in range(n):
        r = env.choose("r%d" % i, (0x18, 0x19, 0x1B, 0x0F, 0x27, 0x3F, 0x4F, 0x67, 0x97, 0xAF, 0xD7, 0xFF))
        chip.write(r, env.int("v%d" % i, 0, 255))
        chip.key(7, env.int("m%d" % i, 1, 15))
    K.check_instruments(env, chip.s, chip)
    env.reach("end")


def long(env, n, instruments, seed):
    """Scripted long history: every event's instrument still shows what was in force, and keeps doing so."""
    chip, order = K.long_song(env, n, seed, instruments)
    K.check_instruments(env, chip.s, chip)
    before, nums, kept = snapshot(chip), [number(env, c) for c in chip.s.configs], list(chip.s.configs)
    chip.fill(K.BASE_REGS + K.channel_regs(7), "post")
    chip.key(7, 9)
    for i, (p, m) in enumerate(before):
        K.check_same(env, K.instrument_of(chip.s.configs[i]), p, list(p), "a captured instrument changed")
        env.check(K.mask_of(chip.s.configs[i]) == m, "a captured instrument's operators changed")
        env.check(number(env, chip.s.configs[i]) == nums[i], "a captured instrument's number changed")
        env.check(chip.s.configs[i] is kept[i] or K.instrument_of(kept[i]) == p, "a captured instrument was exchanged")
    env.reach("end")


def cases(tier):
    out = []
    b = "instruments captured from symbolic registers of channels 0 and 7, then an arbitrary command"
    step = 16 if tier == "quick" else 8
    for lo in range(0, 256, step):
        out.append(Case("frozen_%02x" % lo, frozen, {"lo": lo, "hi": lo + step - 1, "setup": "symbolic", "prop_ops": False}, b, reach=("end",), weight=3))
        out.append(Case("again_%02x" % lo, frozen, {"lo": lo, "hi": lo + step - 1, "setup": "symbolic" if tier == "thorough" else "reset", "prop_ops": True}, b + ", key-off, key-ons and a second write", reach=("end",), weight=4))
    out.append(Case("history", history, {"n": 2 if tier == "quick" else 3}, "writes to any parameter class followed by key-ons", reach=("end",), weight=9))
    n = 1000 if tier == "quick" else 4000
    out.append(Case("long", long, {"n": n, "instruments": n // 2, "seed": 10}, "scripted history of %d key commands with %d instruments (pitch, panning and start time symbolic)" % (n, n // 2), reach=("end",), weight=9))
    return out

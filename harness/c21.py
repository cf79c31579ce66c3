from symx.case import Case
from harness import common as K

ASSUMPTIONS = ["keys of the export: id, base {lfo, amp_md, phs_md, waveform}, operators, channel {feedback, connection, ams, pms, noise, noise_freq, m1, c1, m2, c2 {tl, ar, d1r, d1l, d2r, rr, ks, mul, dt1, dt2, ase}}; further keys are ignored",
               "the chip's operator registers are ordered M1, M2, C1, C2; the key-on bits M1, C1, M2, C2"]

SLOT = {"m1": 0, "m2": 1, "c1": 2, "c2": 3}
OPKEY = {"tl": "total_level", "ar": "attack_rate", "d1r": "first_decay_rate", "d1l": "first_decay_level", "d2r": "second_decay_rate",
         "rr": "release_rate", "ks": "key_scale", "mul": "multiply", "dt1": "first_detune", "dt2": "second_detune", "ase": "ase"}
CHKEY = {"feedback": "fb", "connection": "connection", "ams": "ams", "pms": "pms", "noise": "noise", "noise_freq": "noise_freq"}
WAVE = ["SAW", "SQUARE", "TRIANGLE", "NOISE"]
OPNAME = [(1, "MOD1"), (2, "CAR1"), (4, "MOD2"), (8, "CAR2")]


def check_entry(env, js, number, instr, mask):
    env.check(env.same(js["id"], number), "the entry has another number")
    conds = [env.same(js["base"][k], instr[(k,)]) for k in ("lfo", "amp_md", "phs_md")]
    env.check(env.and_(*conds), "wrong chip-wide parameters")
    env.check(env.same(js["base"]["waveform"], WAVE[env.fix(instr[("waveform",)])]), "wrong waveform")
    m = env.fix(mask)
    env.check(env.same(js["operators"], "|".join(n for b, n in OPNAME if m & b)), "wrong operator names")
    ch = js["channel"]
    env.check(env.and_(*[env.same(ch[k], instr[(f,)]) for k, f in CHKEY.items()]), "wrong channel parameters")
    for name, slot in SLOT.items():
        env.check(env.and_(*[env.same(ch[name][k], instr[(slot, f)]) for k, f in OPKEY.items()]), "wrong operator parameters")


def export(env, state, name="instr.json"):
    env.mod("extractors").extract_instruments(env.path(name), state)
    js = env.read_json(name)
    env.check(isinstance(js, list), "the export is not a list")
    return js


def one(env, ch):
    """One instrument, every parameter register symbolic."""
    chip = K.Chip(env)
    chip.fill(K.BASE_REGS + K.channel_regs(ch), "a")
    chip.key(ch, env.int("mask", 1, 15))
    w = chip.events[ch][0]
    chip.wait(env.int("w", 0, 1000))
    chip.key(ch, 0)
    export(env, chip.s, "first.json")
    js = export(env, chip.s)
    env.check(len(js) == 1, "another number of entries than captured instruments")
    check_entry(env, js[0], 0, w["instr"], w["mask"])
    env.reach("end")


def some(env, plan, regs):
    """Several instruments, registers overwritten in between: entries in number order."""
    chip = K.Chip(env)
    for i, (ch, mask) in enumerate(plan):
        chip.fill([r + (ch if r >= 0x20 else 0) for r in regs], "v%d" % i)
        chip.key(ch, mask)
    export(env, chip.s, "first.json")
    js = export(env, chip.s)
    n = len(js)
    env.check(n == len(chip.s.configs), "another number of entries than captured instruments")
    seen = set()
    for ch in range(8):
        for ev, w in zip(chip.s.key_presses(ch), chip.events[ch]):
            if w["on"]:
                k = env.fix(ev.config_id)
                env.check(0 <= k < n, "a captured instrument is not exported")
                seen.add(k)
                check_entry(env, js[k], k, w["instr"], w["mask"])
    env.check(len(seen) == n, "an entry that no key-on captured")
    env.reach("n%d" % n)
    env.reach("end")


def none(env):
    chip = K.Chip(env)
    chip.fill(K.BASE_REGS, "a")
    chip.key(2, 0)
    env.check(export(env, chip.s) == [], "entries without captured instruments")
    env.reach("end")


def many(env, n):
    chip = K.Chip(env)
    x = env.int("x", 0, 31)
    for i in range(n):
        chip.write(0x18, i & 255)
        chip.write(0x60 + 3, i >> 8)
        chip.write(0x80 + 3, x)
        chip.key(3, 15)
    export(env, chip.s, "first.json")
    js = export(env, chip.s)
    env.check(len(js) == n, "another number of entries than captured instruments")
    for i, w in enumerate(chip.events[3]):
        check_entry(env, js[i], i, w["instr"], 15)
    env.reach("end")


def cases(tier):
    q = tier == "quick"
    out = [Case("none", none, {}, "no instrument", reach=("end",))]
    for ch in range(8):
        out.append(Case("one_%d" % ch, one, {"ch": ch}, "one instrument of channel %d: all 28 channel registers and the chip-wide ones hold any value, any non-empty operator set" % ch, reach=("end",), weight=6))
    for nm, regs in (("tl", [0x60, 0x20]), ("base", [0x18, 0x1B]), ("ops", [0xA0, 0x48, 0xF0]), ("noise", [0x0F, 0x38])):
        plan = [(0, 15), (7, 15), (0, 3), (7, 3)] + ([] if q else [(0, 15), (3, 15)])
        out.append(Case("some_" + nm, some, {"plan": plan, "regs": regs}, "%d key-ons of two channels with registers %s written in between" % (len(plan), [hex(r) for r in regs]), reach=("n2", "n3", "end") if nm != "noise" else ("n2", "end"), weight=8))
    out.append(Case("many", many, {"n": 150 if q else 600}, "%d instruments" % (150 if q else 600), reach=("end",), weight=4, path_limit=200))
    return out

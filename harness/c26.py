import copy
from symx.case import Case
from harness import common as K

ASSUMPTIONS = ["parameters take the values of their registers (numbers up to 255, switches true or false, the four waveforms)",
               "copies are those the sets define: copy.deepcopy and the copy constructor"]

OP = ["total_level", "attack_rate", "first_decay_rate", "first_decay_level", "second_decay_rate", "release_rate", "key_scale",
      "multiply", "first_detune", "second_detune", "ase"]
SETS = {"BaseConfig": ["waveform", "lfo", "amp_md", "phs_md"],
        "OperatorConfig": OP,
        "NoteConfig": ["right", "left", "octave", "note", "key_fraction"],
        "ChannelConfig": ["fb", "ams", "pms", "connection", "noise", "noise_freq"] + [(i, f) for i in range(4) for f in OP]}
SWITCHES = ("ase", "right", "left", "noise")
MAX = {"total_level": 127, "lfo": 255, "amp_md": 127, "phs_md": 127, "fb": 7, "connection": 7, "pms": 7, "ams": 3, "noise_freq": 31,
       "octave": 7, "note": 15, "key_fraction": 63, "attack_rate": 31, "first_decay_rate": 31, "second_decay_rate": 31,
       "first_decay_level": 15, "release_rate": 15, "key_scale": 3, "multiply": 15, "first_detune": 7, "second_detune": 3}


def get(o, f):
    return getattr(o.operators[f[0]], f[1]) if isinstance(f, tuple) else getattr(o, f)


def put(o, f, v):
    if isinstance(f, tuple):
        setattr(o.operators[f[0]], f[1], v)
    else:
        setattr(o, f, v)


def value(env, cfg, f, tag):
    n = f[1] if isinstance(f, tuple) else f
    tag = "%s.%s" % (tag, f if isinstance(f, str) else "%d.%s" % f)
    if n == "waveform":
        return cfg.Waveform(env.pick(tag, 4))
    if n in SWITCHES:
        return env.bool(tag)
    return env.int(tag, 0, MAX[n])


def filled(env, kind, tag):
    cfg = env.mod("vgm.ym2151.config")
    o, vals = getattr(cfg, kind)(), {}
    for f in SETS[kind]:
        vals[f] = value(env, cfg, f, tag)
        put(o, f, vals[f])
    return o, vals


def agree(env, a, b):
    return env.and_(*[env.same(a[f], b[f]) for f in a])


def current(o, kind):
    return {f: get(o, f) for f in SETS[kind]}


def iff(env, a, b):
    return env.and_(env.or_(env.not_(a), b), env.or_(a, env.not_(b)))


def equal(env, kind):
    """Equal exactly when all parameters are."""
    a, va = filled(env, kind, "a")
    b, vb = filled(env, kind, "b")
    want = agree(env, va, vb)
    eq, ne = env.compare(a, b)
    env.check(iff(env, eq, want), "== does not compare all parameters")
    env.check(iff(env, ne, env.not_(want)), "!= does not compare all parameters")
    eq2, _ = env.compare(b, a)
    env.check(iff(env, eq2, want), "== is not symmetric")
    e3, n3 = env.compare(a, a)
    env.check(env.and_(e3, env.not_(n3)), "a set differs from itself")
    env.reach("equal" if env.truth(want) else "different")


def made(env, o, kind, how):
    if how == "deepcopy":
        return copy.deepcopy(o)
    if how == "constructor":
        return getattr(env.mod("vgm.ym2151.config"), kind)(o)
    if how == "in_list":
        return copy.deepcopy([o])[0]
    return copy.deepcopy(made(env, o, kind, "constructor"))


def copies(env, kind, rounds):
    """A copy is equal, and neither follows changes of the other."""
    cfg = env.mod("vgm.ym2151.config")
    o, vals = filled(env, kind, "a")
    how = env.choose("how", ("deepcopy", "constructor", "in_list", "twice"))
    c = made(env, o, kind, how)
    env.check(type(c) is type(o), "a copy is of another kind")
    eq, ne = env.compare(c, o)
    env.check(env.and_(eq, env.not_(ne)), "a copy differs from its original")
    env.check(agree(env, current(c, kind), vals), "a copy has other parameters")
    sides = [(o, dict(vals)), (c, dict(vals))]
    for r in range(rounds):
        f = SETS[kind][env.pick("f%d" % r, len(SETS[kind]))]
        who = 1 if env.bool("who%d" % r) else 0
        v = value(env, cfg, f, "new%d" % r)
        put(sides[who][0], f, v)
        sides[who][1][f] = v
        for x, want in sides:
            env.check(agree(env, current(x, kind), want), "a change of one set shows in the other")
    eq, _ = env.compare(o, c)
    env.check(iff(env, eq, agree(env, sides[0][1], sides[1][1])), "== does not compare all parameters after changes")
    env.reach(how)


def wholesale(env):
    """Replacing or extending a channel set's operators leaves its copy alone."""
    cfg = env.mod("vgm.ym2151.config")
    o, vals = filled(env, "ChannelConfig", "a")
    c = made(env, o, "ChannelConfig", env.choose("how", ("deepcopy", "constructor")))
    i = env.choose("i", range(4))
    n = cfg.OperatorConfig()
    n.total_level = env.int("tl", 0, 127)
    o.operators[i] = n
    o.operators.append(cfg.OperatorConfig())
    env.check(len(c.operators) == 4, "a copy shares the list of operators")
    env.check(agree(env, current(c, "ChannelConfig"), vals), "a copy shares the list of operators")
    env.reach("end")


def cases(tier):
    out = []
    for k in SETS:
        out.append(Case("equal_" + k, equal, {"kind": k}, "two %s with arbitrary parameters" % k, reach=("equal", "different")))
        out.append(Case("copies_" + k, copies, {"kind": k, "rounds": 1 if tier == "quick" or k == "ChannelConfig" else 2}, "copies of a %s with arbitrary parameters, then changes" % k,
                        reach=("deepcopy", "constructor", "in_list", "twice"), weight=3))
    out.append(Case("wholesale", wholesale, {}, "replaced operators", reach=("end",)))
    return out

from symx.case import Case
from harness import common as K

NEEDS_XSDATA = True
ASSUMPTIONS = ["instrument numbers up to 255 (two hexadecimal digits)",
               "an absent or empty instrument or panning entry means none; the note names are those of property C15 for the chip's twelve codes, any capitalisation of OFF is the off mark"]


def none(x):
    return None if x is None or x == "" else x


def cell_is(env, c, w, ident):
    """Cell c shows reference event w with instrument number ident."""
    if w["on"]:
        note, octave = env.fix(w["pitch"]["note"]), w["pitch"]["octave"]
        if note % 4 != 3:
            env.check(env.same(c.note, K.note_text(env, note, octave)), "the cell has another note than the event")
        env.check(env.same(c.instr, "%02X" % ident), "the cell has another instrument than the event")
    else:
        env.check(env.plain(c.note).upper() == "OFF", "a key-off is not written as an off mark")
        env.check(none(c.instr) is None, "a key-off carries an instrument")
    right, left = env.truth(w["pitch"]["right"] != 0), env.truth(w["pitch"]["left"] != 0)
    pan = none(c.pan)
    if right and left:
        env.check(pan is None, "a panning mark although both outputs are on")
    elif right:
        env.check(env.same(pan, "00"), "wrong panning mark for the right output")
    else:
        env.check(env.same(pan, "F0"), "wrong panning mark without the right output")
    env.reach("pan%d%d" % (bool(right), bool(left)))


def one(env, on, chans):
    """A single event of any pitch, panning and row; later writes do not matter."""
    chip = K.Chip(env)
    ch = env.choose("ch", chans)
    other = (ch + 3) % 8
    if not on:
        chip.key(other, 15)
    chip.write(0x28 + ch, env.int("kc", 0, 127))
    chip.write(0x20 + ch, env.int("rl", 0, 255))
    chip.write(0x30 + ch, env.int("kf", 0, 255))
    chip.wait(1000 * env.choose("row", (0, 5, 63, 64)))
    chip.key(ch, 15 if on else 0)
    w = chip.events[ch][0]
    chip.write(0x20 + ch, env.int("rl2", 0, 255))
    chip.write(0x28 + ch, env.int("kc2", 0, 255))
    doc = K.export(env, chip.s, 1000)
    cells = [c for c in doc.cells if c.track == ch]
    env.check(len(cells) == 1, "the event is not exactly one cell")
    cell_is(env, cells[0], w, 0)
    env.reach("end")


def pair(env, on, notes):
    """Two events of one channel, any octaves and panning: the cells show each its own."""
    chip = K.Chip(env)
    ch = 6
    for i in range(2):
        chip.write(0x28 + ch, env.int("oct%d" % i, 0, 7) * 16 + env.choose("note%d" % i, notes))
        chip.write(0x20 + ch, env.int("rl%d" % i, 0, 3) * 64)
        chip.wait(1000)
        chip.key(ch, 15 if i == 0 or on else 0)
    doc = K.export(env, chip.s, 1000)
    got = {c.pattern * 64 + env.fix(c.line): c for c in doc.cells}
    env.check(sorted(got) == [1, 2], "an event is not on its row")
    for i in range(2):
        cell_is(env, got[i + 1], chip.events[ch][i], 0)
    env.reach("end")


def several(env, n, chans, rows):
    """Events of any kind on several channels: every cell shows its own event."""
    chip = K.Chip(env)
    where = {}
    idents = []
    for i in range(n):
        ch = chans[i % len(chans)]
        chip.write(0x20 + ch, env.int("rl%d" % i, 0, 3) * 64)
        chip.write(0x28 + ch, (i * 5 + 2) % 128)
        on = i == 0 or env.bool("on%d" % i)
        # key-ons use one of two operator sets, so that instruments repeat
        mask = 0 if not on else 15 if env.bool("m%d" % i) else 6
        chip.key(ch, mask)
        ident = None
        if on:
            key = mask
            if key not in idents:
                idents.append(key)
            ident = idents.index(key)
        where[(ch, i * rows)] = (chip.events[ch][-1], ident)
        chip.wait(rows * 700)
    doc = K.export(env, chip.s, 700)
    got = {(c.track, c.pattern * 64 + env.fix(c.line)): c for c in doc.cells}
    env.check(len(doc.cells) == len(where), "another number of cells than events")
    for k, (w, ident) in where.items():
        env.check(k in got, "an event is not on its row")
        cell_is(env, got[k], w, ident)
    env.reach("end")


def many(env, n):
    """Many instruments: the hexadecimal number is the event's instrument."""
    chip = K.Chip(env)
    k = env.fix(env.int("again", 0, n - 1))
    for i in list(range(n)) + [k]:
        chip.write(0x18, i & 255)
        chip.write(0x20, 0xC0)
        chip.key(0, 15)
        chip.wait(900)
    doc = K.export(env, chip.s, 900)
    got = {c.pattern * 64 + env.fix(c.line): c for c in doc.cells}
    for i in range(n + 1):
        env.check(i in got and env.same(got[i].instr, "%02X" % (i if i < n else k)), "the cell has another instrument than the event")
    env.check(doc.instruments == n, "another number of instruments")
    env.reach("end")


def scripted(env, n, patterns, seed, instruments):
    """A long song: many events and instruments over hundreds of patterns."""
    chip, cells, idents, last = K.far_song(env, n, patterns, seed, instruments=instruments)
    K.check_far(env, K.export(env, chip.s, 1000), cells, idents, last)
    env.reach("end")


def dense(env, rows, chans, seed):
    """A song with events on every row."""
    chip, cells, idents, last = K.dense_song(env, rows, chans, seed)
    K.check_far(env, K.export(env, chip.s, 1000), cells, idents, last)
    env.reach("end")


def cases(tier):
    q = tier == "quick"
    pans = ("pan00", "pan01", "pan10", "pan11", "end")
    out = [Case("on", one, {"on": True, "chans": (0, 7) if q else range(8)}, "one key-on of any pitch, tuning and panning", reach=pans, weight=9),
           Case("off", one, {"on": False, "chans": (0, 6) if q else range(8)}, "one key-off of any pitch, tuning and panning", reach=pans, weight=5),
           Case("pair_on", pair, {"on": True, "notes": (8, 14) if q else (0, 8, 14)}, "two key-ons of one channel, any octaves and panning", reach=pans, weight=9),
           Case("pair_off", pair, {"on": False, "notes": (8, 14) if q else (0, 8, 14)}, "a key-on and a key-off of one channel, any octaves and panning", reach=pans, weight=9),
           Case("several2", several, {"n": 3, "chans": (0, 1), "rows": 1}, "3 events on two channels, each key-on or key-off, any panning", reach=pans, weight=8),
           Case("several3", several, {"n": 3 if q else 4, "chans": (5, 2, 5), "rows": 33}, "events over several patterns", reach=pans, weight=8),
           Case("several1", several, {"n": 3, "chans": (4,), "rows": 2}, "events on one channel", reach=pans, weight=8)]
    n = 24 if q else 256
    out.append(Case("many", many, {"n": n}, "%d instruments, any of them used again" % n, reach=("end",), weight=6, path_limit=200))
    if q:
        out.append(Case("many256", many256, {}, "256 instruments", reach=("end",), weight=3, path_limit=200))
    for k, (rows, chans) in enumerate(((200, (2,)), (64, range(8)), (130, (0, 7, 3)))):
        out.append(Case("dense_%d" % k, dense, {"rows": rows, "chans": tuple(chans), "seed": 180 + k}, "scripted song with events on each of %d rows of %d channels" % (rows, len(chans)), reach=("end",), weight=5, path_limit=300))
    out.append(Case("scripted", scripted, {"n": 1500, "patterns": 300 if q else 2500, "seed": 18, "instruments": 250}, "scripted song of 1500 events with 250 instruments over hundreds of patterns, starting anywhere in its first row", reach=("end",), weight=9, path_limit=300))
    return out


def many256(env):
    many_fixed = [255, 9, 10, 15, 16, 31, 160]
    chip = K.Chip(env)
    for i in list(range(256)) + many_fixed:
        chip.write(0x18, i & 255)
        chip.write(0x20, env.int("rl", 0, 1) * 64 + 0x80)
        chip.key(0, 15)
        chip.wait(900)
    doc = K.export(env, chip.s, 900)
    got = {c.pattern * 64 + env.fix(c.line): c for c in doc.cells}
    for i, k in enumerate(list(range(256)) + many_fixed):
        env.check(i in got and env.same(got[i].instr, "%02X" % k), "the cell has another instrument than the event")
    env.reach("end")

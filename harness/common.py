"""Shared pieces of the harnesses: independent restatement of the VGM format and of the YM2151
register map, and builders of symbolic files and states.  Used symbolically and natively."""


def ranges(*rs):
    out = set()
    for a, b in rs:
        out.update(range(a, b + 1))
    return out


# operand bytes per command byte (VGM 1.71; reserved bytes without operands included)
OPERANDS = {}
for _c in range(256):
    OPERANDS[_c] = 0
for _rs, _n in (((0x30, 0x3F), 1), ((0x40, 0x4E), 2), ((0x4F, 0x50), 1), ((0x51, 0x5F), 2), ((0x61, 0x61), 2),
                ((0x67, 0x67), 6), ((0x68, 0x68), 11), ((0x90, 0x91), 4), ((0x92, 0x92), 5), ((0x93, 0x93), 10),
                ((0x94, 0x94), 1), ((0x95, 0x95), 4), ((0xA0, 0xBF), 2), ((0xC0, 0xDF), 3), ((0xE0, 0xFF), 4)):
    for _c in range(_rs[0], _rs[1] + 1):
        OPERANDS[_c] = _n

HEADER = {0: 0x56, 1: 0x67, 2: 0x6D, 3: 0x20}


def le(env, content, pos, n):
    """Little-endian integer of n bytes at pos."""
    v = 0
    for i in range(n - 1, -1, -1):
        v = v * 256 + content.at(pos + i)
    return v


def header151(extra=None):
    """Fixed bytes of a version 1.51 header whose other fields stay symbolic."""
    d = dict(HEADER)
    d.update({8: 0x51, 9: 0x01, 10: 0, 11: 0})
    d.update(extra or {})
    return d


def stream(env, body, version=0x151, clock=3579545):
    """Content of a plain VGM file with the given command bytes (ints or symbolic bytes).  The header
    fields that say nothing about the commands (declared size, tag and loop offsets, sample counts, frame
    rate, other chips' clocks) are arbitrary."""
    env.headers = k = getattr(env, "headers", 0) + 1
    h = [env.int("h%d_%02x" % (k, i), 0, 255) for i in range(0x40)]
    h[0:4] = [0x56, 0x67, 0x6D, 0x20]
    h[8:12] = list(version.to_bytes(4, "little"))
    h[0x30:0x34] = list(clock.to_bytes(4, "little"))
    h[0x34:0x38] = list((0x0C).to_bytes(4, "little"))
    return env.bytes(h + list(body))


# ------------------------------------------------------------------ YM2151 register map (reference)
# register class -> list of (field, shift, mask); restated from the chip's documentation
CHANNEL_REGS = {
    0x20: [("note.right", 7, 1), ("note.left", 6, 1), ("fb", 3, 7), ("connection", 0, 7)],
    0x28: [("note.octave", 4, 7), ("note.note", 0, 15)],
    0x30: [("note.key_fraction", 2, 63)],
    0x38: [("pms", 4, 7), ("ams", 0, 3)],
}
OPERATOR_REGS = {
    0x40: [("first_detune", 4, 7), ("multiply", 0, 15)],
    0x60: [("total_level", 0, 127)],
    0x80: [("key_scale", 6, 3), ("attack_rate", 0, 31)],
    0xA0: [("ase", 7, 1), ("first_decay_rate", 0, 31)],
    0xC0: [("second_detune", 6, 3), ("second_decay_rate", 0, 31)],
    0xE0: [("first_decay_level", 4, 15), ("release_rate", 0, 15)],
}
OP_FIELDS = [f for r in sorted(OPERATOR_REGS) for f, _, _ in OPERATOR_REGS[r]]
BOOL_FIELDS = {"note.right", "note.left", "ase", "noise"}
BASE_FIELDS = ["lfo", "amp_md", "phs_md", "waveform"]
CH_FIELDS = ["fb", "connection", "ams", "pms", "noise", "noise_freq"]
NOTE_FIELDS = ["right", "left", "octave", "note", "key_fraction"]


def targets(env, reg, value):
    """Documented effect of writing value to register reg (concrete): list of (key, new value)."""
    out = []
    if reg == 0x0F:
        out = [((7, "noise"), (value >> 7) & 1), ((7, "noise_freq"), value & 31)]
    elif reg == 0x18:
        out = [(("lfo",), value)]
    elif reg == 0x19:
        if env.truth(value >= 0x80):
            out = [(("phs_md",), value & 127)]
        else:
            out = [(("amp_md",), value & 127)]
    elif reg == 0x1B:
        out = [(("waveform",), value & 3)]
    elif 0x20 <= reg <= 0x3F:
        ch = reg & 7
        out = [((ch, f), (value >> s) & m) for f, s, m in CHANNEL_REGS[reg & 0xF8]]
    elif reg >= 0x40:
        ch, op = reg & 7, (reg >> 3) & 3
        out = [((ch, op, f), (value >> s) & m) for f, s, m in OPERATOR_REGS[reg & 0xE0]]
    return out


class Ref:
    """Reference copy of the register file, in terms of documented parameters."""

    def __init__(self):
        self.p = {}
        for f in BASE_FIELDS:
            self.p[(f,)] = 0
        for ch in range(8):
            for f in CH_FIELDS:
                self.p[(ch, f)] = 0
            for f in NOTE_FIELDS:
                self.p[(ch, "note." + f)] = 0
            for op in range(4):
                for f in OP_FIELDS:
                    self.p[(ch, op, f)] = 0

    def write(self, env, reg, value):
        ts = targets(env, reg, value)
        for k, v in ts:
            self.p[k] = v
        return [k for k, _ in ts]

    def instrument(self, ch):
        """All parameters of the instrument a key-on of channel ch captures (without the mask)."""
        out = {(f,): self.p[(f,)] for f in BASE_FIELDS}
        out.update({(f,): self.p[(ch, f)] for f in CH_FIELDS})
        out.update({(op, f): self.p[(ch, op, f)] for op in range(4) for f in OP_FIELDS})
        return out

    def pitch(self, ch):
        return {f: self.p[(ch, "note." + f)] for f in NOTE_FIELDS}

    def copy(self):
        r = Ref()
        r.p = dict(self.p)
        return r


def as_int(v):
    """Parameter as an integer (booleans count 0/1, enums their value)."""
    if hasattr(v, "value"):
        return v.value
    return v


def instrument_of(cfg):
    """Observable parameters of a captured instrument, keyed like Ref.instrument."""
    out = {}
    for f in BASE_FIELDS + CH_FIELDS:
        out[(f,)] = as_int(getattr(cfg, f))
    for op in range(4):
        o = cfg.operators[op]
        for f in OP_FIELDS:
            out[(op, f)] = as_int(getattr(o, f))
    return out


def mask_of(cfg):
    return as_int(cfg.enabled_operators)


def pitch_of(ev):
    return {f: as_int(getattr(ev, f)) for f in NOTE_FIELDS}


def check_same(env, got, want, keys, msg):
    """One query for many parameters; names the parameter when it fails natively."""
    env.check(env.and_(*[env.same(got[k], want[k]) for k in keys]), msg)


ALL_REGS = ([0x0F, 0x18, 0x19, 0x19, 0x1B] + list(range(0x20, 0x40)) + list(range(0x40, 0x100)))


def channel_regs(ch):
    return [0x20 + ch, 0x28 + ch, 0x30 + ch, 0x38 + ch] + [0x40 + 8 * i + ch for i in range(24)] + ([0x0F] if ch == 7 else [])


BASE_REGS = [0x18, 0x19, 0x19, 0x1B]


class Chip:
    """A State of the code under test and the reference register file and event log, in lockstep."""

    def __init__(self, env, state=None):
        self.env = env
        self.config = env.mod("vgm.ym2151.config")
        self.s = state or env.mod("vgm.ym2151.state").State()
        self.ref = Ref()
        self.n = 0
        self.t = 0
        self.started = False
        self.events = [[] for _ in range(8)]
        self.beats = []             # times of key-ons, in order (repetitions possible)

    def write(self, reg, value):
        self.s.apply(self.config.create(reg, value))
        return self.ref.write(self.env, reg, value)

    def fill(self, regs, tag):
        """Symbolic values into the given registers (the two halves of 0x19 both get one)."""
        env = self.env
        half = 0
        for r in regs:
            self.n += 1
            if r == 0x19:
                v = env.int("%s.r19.%d" % (tag, half), 0, 127) + (128 if half else 0)
                half ^= 1
            else:
                v = env.int("%s.r%02x" % (tag, r), 0, 255)
            self.write(r, v)

    def key(self, ch, mask, low=0):
        """Key command for a (concrete) channel; the mask may be symbolic."""
        self.s.apply(self.config.create(0x08, (mask << 3) + ch + low))
        self.note_key(ch, mask)

    def note_key(self, ch, mask):
        env = self.env
        on = env.truth(mask != 0)
        if on:
            self.started = True
            self.beats.append(self.t)
        if self.started:
            self.events[ch].append({"sample": self.t, "on": on, "mask": mask, "pitch": self.ref.pitch(ch), "instr": self.ref.instrument(ch)})

    def wait(self, n):
        self.s.beat(n)
        self.t = self.t + n


def check_log(env, state, chip, pitch=False):
    """Events of every channel against the reference log: number, order, time, on/off."""
    for ch in range(8):
        got, want = state.key_presses(ch), chip.events[ch]
        env.check(len(got) == len(want), "channel %d has another number of events" % ch)
        for g, w in zip(got, want):
            env.check(g.sample == w["sample"], "an event has the wrong time")
            if w["on"]:
                env.check(g.config_id >= 0, "a key-on is recorded as a key-off")
            else:
                env.check(g.config_id < 0, "a key-off is recorded as a key-on")
            if pitch:
                check_same(env, pitch_of(g), w["pitch"], NOTE_FIELDS, "an event has the wrong pitch or panning")


def check_instruments(env, state, chip):
    """Every key-on's number resolves to an instrument with exactly the parameters in force."""
    for ch in range(8):
        for g, w in zip(state.key_presses(ch), chip.events[ch]):
            if w["on"]:
                i = env.fix(g.config_id)
                env.check(0 <= i < len(state.configs), "a key-on refers to an instrument that does not exist")
                cfg = state.configs[i]
                got = instrument_of(cfg)
                check_same(env, got, w["instr"], list(w["instr"]), "an event's instrument has other parameters than those in force")
                env.check(mask_of(cfg) == w["mask"], "an event's instrument has other operators enabled")


# ------------------------------------------------------------------ exported songs
NOTE_TEXT = ["C#", "D-", "D#", "D#", "E-", "F-", "F#", "F#", "G-", "G#", "A-", "A#", "A#", "B-", "C-", "C#"]


class Cell:
    """One note column of an exported or rendered document."""

    def __init__(self, pattern, track, line, note, instr, pan):
        self.pattern, self.track, self.line = pattern, track, line
        self.note, self.instr, self.pan = note, instr, pan


class Document:
    """What Song.xml of a written archive says."""

    def __init__(self, env, name):
        self.names, root = env.read_xrns(name)
        self.root = root
        self.bpm = env.num(root.findtext("GlobalSongData/BeatsPerMin"))
        self.lpb = env.num(root.findtext("GlobalSongData/LinesPerBeat"))
        self.instruments = len(root.findall("Instruments/Instrument"))
        tr = root.find("Tracks")
        self.tracks = [[e.tag for e in tr].count(k) for k in ("SequencerTrack", "SequencerMasterTrack", "SequencerSendTrack")]
        self.track_kinds = len(tr)
        self.patterns = root.findall("PatternPool/Patterns/Pattern")
        self.pattern_tracks = [[e.tag for e in p.find("Tracks")] for p in self.patterns]
        self.sequence = [env.num(e.findtext("Pattern")) for e in root.findall("PatternSequence/SequenceEntries/SequenceEntry")]
        self.cells = []
        for pi, p in enumerate(self.patterns):
            for ti, t in enumerate(p.findall("Tracks/PatternTrack")):
                for ln in t.findall("Lines/Line"):
                    for col in ln.findall("NoteColumns/NoteColumn"):
                        self.cells.append(Cell(pi, ti, env.num(ln.get("index")), env.tok(col.findtext("Note")),
                                               env.tok(col.findtext("Instrument")), env.tok(col.findtext("Panning"))))


def export(env, state, tpn, name="song.xrns"):
    """Run the real exporter and read its archive back."""
    env.mod("extractors").extract_tracks_to_xrns(state, env.path(name), tpn)
    return Document(env, name)


def note_text(env, note, octave):
    """Tracker name of a (concrete) note code and an octave."""
    return env.cat(NOTE_TEXT[note], octave + 1 if note == 14 else octave)


class Placed:
    """An event the exported song has to hold: channel, row, cell texts (None: not compared)."""

    def __init__(self, ch, row, note, instr=None, pan=None):
        self.ch, self.row, self.note, self.instr, self.pan = ch, row, note, instr, pan


def check_cells(env, doc, placed, what=("note",), lines=64):
    """The document's cells are exactly the last events placed on each (channel, row)."""
    for c in doc.cells:
        env.check(env.and_(c.line >= 0, c.line < lines), "a line number is outside the pattern")
    for ch in range(8):
        evs = [p for p in placed if p.ch == ch]
        cells = [c for c in doc.cells if c.track == ch]
        for i, a in enumerate(cells):
            for b in cells[:i]:
                if a.pattern == b.pattern:
                    env.check(env.not_(env.same(a.line, b.line)), "a line is written twice")
        pos = [c.pattern * lines + c.line for c in cells]
        for e in evs:
            env.check(env.or_(*[env.same(p, e.row) for p in pos]), "an event is not on its row")
        for c, p in zip(cells, pos):
            alts = []
            for i, e in enumerate(evs):
                conds = [env.same(p, e.row)] + [env.not_(env.same(f.row, e.row)) for f in evs[i + 1:]]
                for k in what:
                    conds.append(env.same(getattr(c, k), getattr(e, k)))
                alts.append(env.and_(*conds))
            env.check(env.or_(*alts), "a cell does not hold the last event of its row" if evs else "a cell on a silent track")
    env.check(all(c.track < 8 for c in doc.cells), "notes on a ninth track")


def tree_conds(env, a, b, out):
    """Conditions under which two XML trees agree (None in the list: they differ in shape)."""
    if a.tag != b.tag or len(a) != len(b) or set(a.attrib) != set(b.attrib):
        out.append(False)
        return out
    for k in a.attrib:
        out.append(env.same(env.tok(a.attrib[k]), env.tok(b.attrib[k])))
    if len(a) == 0:
        out.append(env.same(env.tok(a.text), env.tok(b.text)))
    for x, y in zip(a, b):
        tree_conds(env, x, y, out)
    return out


def same_tree(env, a, b, msg):
    env.check(env.and_(*tree_conds(env, a, b, [])), msg)


class Rolls:
    """Reproducible choices for scripted long histories."""

    def __init__(self, seed):
        self.x = seed

    def __call__(self, n):
        self.x = (self.x * 1103515245 + 12345) % (1 << 31)
        return (self.x >> 12) % n


def long_song(env, n, seed, instruments=300, start=True, zero=True):
    """A scripted history of n key commands: many instruments and returns to early ones, repeated key-ons
    and key-offs, zero and non-zero waits; pitch and panning values and the time of the start symbolic."""
    chip = Chip(env)
    roll = Rolls(seed)
    pitch = [env.int("pitch%d" % i, 0, 255) for i in range(8)]
    if start:
        chip.wait(env.zint("w.start", 0, 1 << 30))
    order = []
    made = 0

    def some(r):
        v = pitch[roll(8)] if roll(2) else roll(256)
        return v & 0xC0 if r == 0x20 else v             # what belongs to the instrument stays concrete

    for i in range(n):
        ch = roll(8)
        k = roll(10)
        if k < 5 and made < instruments:
            made += 1                                    # a new instrument
            chip.write(0x18, made & 255)
            chip.write(0x60 + ch, made >> 8)
        elif k < 7:
            old = 1 + roll(max(made, 1))                 # back to one heard before
            chip.write(0x18, old & 255)
            chip.write(0x60 + ch, old >> 8)
        for _ in range(roll(3)):
            r = (0x20, 0x28, 0x30)[roll(3)]
            chip.write(r + ch, some(r))
        j = roll(10)
        if j < 6:
            chip.key(ch, 15 if roll(8) else 1 + roll(15))
            order.append((ch, len(chip.events[ch]) - 1))
        elif j < 8:
            chip.key(ch, 0)
        else:
            chip.key(ch, 0)
            chip.write(0x20 + ch, some(0x20))
            chip.key(ch, 0)
        if roll(4) or not zero:
            chip.wait(1 + roll(2000))
    return chip, order


def far_song(env, n, patterns, seed, tpn=1000, instruments=40, jumps=12, start=0):
    """A scripted song of n events on all channels over the given number of patterns; the song starts anywhere
    within the given row.  Returns the chip and the cells {(channel, row): (note, instrument or None, pan)}."""
    chip = Chip(env)
    roll = Rolls(seed)
    chip.wait(start * tpn + env.zint("w.start", 0, tpn - 1))
    row, idents, cells = start, {}, {}
    chip.rows = [[] for _ in range(8)]
    jumps = {n * (i + 1) // (jumps + 2) for i in range(jumps)}
    for i in range(n):
        ch = roll(8) if i else 3
        on = i == 0 or roll(4) > 0
        k = roll(instruments) if i % 3 else i // 3 % instruments
        note, octave, pan = roll(16), roll(8), roll(4)
        chip.write(0x18, k & 255)
        chip.write(0x60 + ch, k >> 8)
        chip.write(0x20 + ch, pan << 6)
        chip.write(0x28 + ch, octave * 16 + note)
        chip.key(ch, 15 if on else 0)
        chip.rows[ch].append(row)
        ident = idents.setdefault((k, ), len(idents)) if on else None
        cells[(ch, row)] = (note_text(env, note, octave) if on else "Off", ident, pan)
        step = 0 if i % 2 else roll(4)
        if i in jumps:
            step += 64 * patterns // len(jumps) + roll(64) - 32
        chip.wait(step * tpn)
        row += step
    last = max(r for _, r in cells)
    return chip, cells, idents, last


def dense_song(env, rows, chans, seed, tpn=1000, instruments=20):
    """A scripted song with an event of every channel in chans on every row (sometimes two); the song starts
    anywhere within the first row.  Returns what far_song returns."""
    chip = Chip(env)
    roll = Rolls(seed)
    chip.wait(env.zint("w.start", 0, tpn - 1))
    idents, cells = {}, {}
    chip.rows = [[] for _ in range(8)]
    for row in range(rows):
        for ch in chans:
            for _ in range(1 if roll(5) else 2):
                on = not chip.started or roll(3) > 0
                k, note, octave, pan = roll(instruments), roll(16), roll(8), roll(4)
                chip.write(0x18, k)
                chip.write(0x20 + ch, pan << 6)
                chip.write(0x28 + ch, octave * 16 + note)
                chip.key(ch, 15 if on else 0)
                chip.rows[ch].append(row)
                ident = idents.setdefault((k, ), len(idents)) if on else None
                cells[(ch, row)] = (note_text(env, note, octave) if on else "Off", ident, pan)
        chip.wait(tpn)
    return chip, cells, idents, rows - 1


def check_far(env, doc, cells, idents, last):
    got = {}
    for c in doc.cells:
        k = (c.track, c.pattern * 64 + env.fix(c.line))
        env.check(k not in got, "a line is written twice")
        got[k] = c
    env.check(len(got) == len(cells), "another number of cells than rows with events")
    for k, (note, ident, pan) in cells.items():
        env.check(k in got, "an event is not on its row")
        c = got[k]
        env.check(env.same(c.note, note), "a cell does not hold the last event of its row")
        if ident is not None and ident < 256:
            env.check(env.same(c.instr, "%02X" % ident), "the cell has another instrument than the event")
        elif ident is None:
            env.check(c.instr is None or c.instr == "", "a key-off carries an instrument")
        want = {3: None, 2: "00"}.get(pan, "F0")
        env.check(env.same(c.pan if c.pan != "" else None, want), "the cell has another panning than the event")
    n = last // 64 + 1
    env.check(len(doc.patterns) == n, "another number of patterns than the latest event needs")
    env.check(len(doc.sequence) == n and env.truth(env.and_(*[env.same(p, i) for i, p in enumerate(doc.sequence)])), "the play sequence does not list every pattern once, in order")
    env.check(env.same(doc.instruments, len(idents)), "another number of instruments than captured")

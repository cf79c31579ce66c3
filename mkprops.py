import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

p("C01","Header facts are read correctly from every VGM header",
"Opening a VGM file reports its version (decimal reading of the BCD version field), its total size (EOF offset field plus 4) and its YM2151 clock (the field at 0x30, or the YM2413 clock field at 0x10 for versions before 1.10; a chip counts as supported exactly when its clock is non-zero). Command decoding starts at 0x40 for versions before 1.50, and at 0x34 plus the offset stored at 0x34 from 1.50 on. A file that ends inside a header field it has to read is refused with an end-of-file error.",
["inputs"],"every content of the header (all 32-bit field values, any file length, including files cut short inside the header)",
"The suite opens five hand-written headers with small field values; byte order, BCD digit weight, the 1.10/1.50 version boundaries and truncation points range over 2^32 values per field.",
["src/vgm/core.py"],[("Vgm.__init__","src/vgm/core.py"),("_read32/_read_bcd","src/vgm/core.py"),("Vgm.size/supports/clock","src/vgm/core.py")],["vgm.core.reader(f): .version, .size(), .clock(), .supports(), first decoded command"])

p("C02","A file is accepted exactly when it is VGM, plain or gzip-compressed",
"The reader accepts a file exactly when its first four bytes, after transparent gzip decompression if it starts with the gzip magic, are 'Vgm ', and reports anything else as not a VGM file. A compressed file yields the same header facts and the same command stream as its decompressed content.",
["inputs"],"every first four bytes of a file and, for gzip files, every decompressed content",
"Tests try one non-VGM prefix and check only that one compressed file opens; they never compare the compressed and plain views or near-miss signatures.",
["src/vgm/core.py"],[("reader","src/vgm/core.py")],["vgm.core.reader result (None or a command iterator)"])

p("C03","Command decoding stays in sync with the VGM byte stream",
"Decoding a command consumes exactly the operand bytes that the VGM format defines for its command byte (for data blocks also the number of payload bytes the block declares), so the next command always starts right after the previous one, whatever the operand values are. Every complete command, known or reserved, is decoded without an error and reports its own command byte; when the file ends between commands, the stream ends.",
["inputs","histories"],"every command byte, every operand content, every file position and every file length",
"The suite walks one stream with one operand pattern per command byte; lengths that depend on the operand values (block sizes) and operands that look like other commands are never varied.",
["src/vgm/core.py"],[("command","src/vgm/core.py"),("Vgm.__next__","src/vgm/core.py")],["file position after each decoded command","sequence of decoded commands"])

p("C04","Decoded chip writes and waits carry exactly the values in the stream",
"A YM2151 write command is decoded as such with the register and the data byte that follow it, and each wait command is decoded with the number of samples it stands for (the 16-bit little-endian operand, 735, 882, or 1 to 16 for the short waits); no other command is decoded as a YM2151 write. If the file ends inside the operands of a YM2151 write or of a 16-bit wait, decoding raises an end-of-file error and no command with made-up values is delivered.",
["inputs"],"every command byte, every operand value, every truncation point",
"Tests sample one YM2151 write and seven waits; no truncated command is tried through the decoder.",
["src/vgm/core.py","src/vgm/command.py","src/vgm/ym2151/config.py"],[("command","src/vgm/core.py"),("WaitCommand.__init__","src/vgm/command.py"),("YM2151Command.__init__","src/vgm/ym2151/config.py")],["attributes of the decoded command objects"])

p("C05","The song clock is the exact sum of all elapsed waits",
"The time stamp of every recorded event is the number of samples of all wait commands that precede it in the stream, and of nothing else. This includes the 0x80-0x8F commands, which write a sample and then wait 0 to 15 samples, and waits of zero samples.",
["inputs","histories"],"every sequence of wait and non-wait commands with arbitrary operands before an event",
"No test runs a stream through the processing loop at all; time stamps are tested nowhere.",
["src/main.py","src/vgm/core.py","src/vgm/command.py","src/vgm/ym2151/state.py"],[("process_vgm_file","src/main.py"),("State.beat","src/vgm/ym2151/state.py"),("WaitCommand","src/vgm/command.py")],["sample of each recorded event"],[("_samples","current song time in samples","src/vgm/ym2151/state.py")])

p("C06","All commands up to the end of sound data count, and nothing after it",
"Processing a command stream applies every YM2151 write and wait that comes before the end-of-sound-data command, in stream order, each exactly once. Commands and bytes after the end-of-sound-data command, such as a trailing tag block, change neither the recorded events nor the instruments, and do not make processing fail.",
["inputs","histories"],"every command stream, with the end command at any position and arbitrary commands or bytes after it",
"No test runs the processing loop; every test stream ends at its end-of-sound-data command or never looks at what follows.",
["src/main.py","src/vgm/core.py"],[("process_vgm_file","src/main.py"),("EOSCommand","src/vgm/command.py")],["events and instruments recorded by processing a stream"])

p("C07","Every YM2151 register write sets the documented parameters",
"After any write to a YM2151 parameter register, the instrument and pitch captured by the next key-on of the channel it addresses hold exactly the values that the chip's register map assigns to the bits of the last value written: LFO frequency, AM/PM depth, waveform, noise, feedback, connection, output enables, key code, key fraction, modulation sensitivities, and the eleven parameters of each operator. Every bit of every field is honoured over its full width.",
["inputs","histories"],"every register address and data byte, from every register state reachable by earlier writes",
"Tests write one or two hand-picked values per register and only from the power-on state; widths, neighbouring bit-fields and overwrites of non-zero values are not exhausted.",
["src/vgm/ym2151/state.py","src/vgm/ym2151/config.py"],[("State.apply","src/vgm/ym2151/state.py")],["parameters of the instrument and pitch of the event recorded by the next key-on"],[("_channel_configs","current parameters per channel","src/vgm/ym2151/state.py"),("_note_configs","current pitch and panning per channel","src/vgm/ym2151/state.py"),("_current_base_config","chip-wide parameters","src/vgm/ym2151/state.py")])

p("C08","A register write changes nothing but the parameters it addresses",
"A write to any register leaves every parameter that the register map does not assign to that address as it was: other channels, other operators of the same channel, the other fields, and the time and event lists. Writes to addresses without a modelled parameter (including timer and test registers) have no effect at all.",
["inputs","histories"],"every register address and data byte, from every register state reachable by earlier writes, observed on every channel",
"Tests compare a few operator fields around single writes from the power-on state; cross-talk between channels, globals and pitch state is not exhausted.",
["src/vgm/ym2151/state.py"],[("State.apply","src/vgm/ym2151/state.py")],["parameters of instruments and events recorded by later key-ons on every channel"])

p("C09","Two key-ons share an instrument exactly when their parameters are equal",
"Each key-on is tagged with an instrument number that resolves to an instrument holding exactly the parameters in force at that key-on: the chip-wide ones, the channel's, its operators', and the set of enabled operators. Two key-ons, on any channels, get the same number exactly when all of these are equal; numbers are handed out 0, 1, 2, ... in order of first use.",
["inputs","histories"],"every history of register writes and key-ons on any channels",
"The suite's instrument-reuse tests are failing or cover one changed field; equality has to discriminate all 58 parameters pairwise in any history.",
["src/vgm/ym2151/state.py","src/vgm/ym2151/config.py"],[("State.apply key-on branch","src/vgm/ym2151/state.py"),("Config.compare","src/vgm/ym2151/config.py"),("BaseConfig/ChannelConfig/OperatorConfig.__eq__","src/vgm/ym2151/config.py")],["State.configs, instrument number of each event"],[("configs","instrument table","src/vgm/ym2151/state.py")])

p("C10","A captured instrument never changes afterwards",
"Once a key-on has captured an instrument, no later register write, wait, key-on or key-off changes any of its parameters or its number.",
["inputs","histories"],"every later command after every reachable capture",
"A test would have to follow every parameter of every operator through every later register write to notice one shared sub-object.",
["src/vgm/ym2151/state.py","src/vgm/ym2151/config.py"],[("copy.deepcopy snapshots","src/vgm/ym2151/state.py"),("__deepcopy__ / copy constructors","src/vgm/ym2151/config.py")],["State.configs before and after later commands"])

p("C11","Every key event from the first key-on on is logged once, in order",
"Each channel's event list holds exactly one event for every key-on of that channel, and for every key-off of that channel that comes after the song's first key-on (key-offs before it are left out), in command order and with the song time at which it occurred; a key-on at time zero counts like any other. Key-offs are marked as such, and never carry or create an instrument.",
["inputs","histories"],"every sequence of key commands on any channels, with any operator mask and any waits, including none, in between",
"The tests that look at event lists fail at the pinned commit; orderings, zero waits and interleaved channels are not covered.",
["src/vgm/ym2151/state.py"],[("State.apply key-on branch","src/vgm/ym2151/state.py"),("State.key_presses","src/vgm/ym2151/state.py")],["State.key_presses(ch)"],[("_channel_key_presses","event list per channel","src/vgm/ym2151/state.py"),("_first_beat","whether the first key-on was seen","src/vgm/ym2151/state.py")])

p("C12","Events keep the pitch and panning in force when they happened",
"Each recorded event carries the octave, note code, key fraction and left/right output enables that its channel had at that moment, as set by the latest register writes before it. Later writes, on any channel, do not change events already recorded.",
["inputs","histories"],"every pitch and panning state, every key event and every later register write",
"One test, failing at the pinned commit, checks a single later note change.",
["src/vgm/ym2151/note.py","src/vgm/ym2151/state.py"],[("Note.__init__","src/vgm/ym2151/note.py"),("State.apply","src/vgm/ym2151/state.py")],["attributes of events in State.key_presses(ch)"])

p("C13","The beat list is the sorted set of key-on times",
"The list of beats is strictly increasing and contains exactly the times at which at least one key-on occurred on any channel. Key-offs, waits and other register writes add nothing to it.",
["inputs","histories"],"every sequence of key commands and waits",
"No test reads the beat list.",
["src/vgm/ym2151/state.py"],[("State.ticks","src/vgm/ym2151/state.py"),("State.apply key-on branch","src/vgm/ym2151/state.py")],["State.ticks()"],[("_note_beats","set of key-on times","src/vgm/ym2151/state.py")])

p("C14","A song on a uniform grid is measured with exactly that grid spacing",
"If a song's key-ons are spaced uniformly by p samples, with p from 1000 to 7999 and at least two key-ons early enough to be analysed (before sample 32000), the automatic estimate of ticks per note is exactly p, whatever the start offset. For any song at all the estimate is an integer from 1000 to 7999.",
["inputs"],"every grid spacing, start offset and number of key-ons within the bounds",
"No test calls the estimator; its merge loop relies on running off the end of lists and on comparisons that only matter for particular spacings.",
["src/vgm/ym2151/state.py"],[("State.ticks_per_note","src/vgm/ym2151/state.py")],["return value of State.ticks_per_note()"])

p("C15","Tracker note names denote the chip's pitch",
"For every valid key code, the note name written for the tracker denotes the chip's pitch: twelve semitones per octave in the order C# D D# E F F# G G# A A# B C, the last one belonging to the next octave number. For every key code, including the four codes the chip leaves unused, the name is a well-formed tracker note (letter, '-' or '#', octave digit), and every key-off is written as an off mark.",
["inputs"],"every octave, note code, key fraction and event kind",
"No test renders a note name.",
["src/vgm/ym2151/note.py"],[("Note.xrns_note","src/vgm/ym2151/note.py"),("_NOTE_LOOKUP_XRNS","src/vgm/ym2151/note.py")],["Note.xrns_note()"])

p("C16","Event labels describe the event",
"The text label of a key-on event starts with its note name and octave, shows the fine tuning in cents (1.6 per key-fraction step, rounded) when the key fraction is above one, shows its instrument number in brackets, and adds a panning remark exactly when not both outputs are enabled: R when the right one is, L otherwise. The label of a key-off is 'Key Off'.",
["inputs"],"every octave, note code, key fraction, panning and instrument number",
"No test renders an event label.",
["src/vgm/ym2151/note.py"],[("Note.__str__","src/vgm/ym2151/note.py"),("_NOTE_LOOKUP","src/vgm/ym2151/note.py")],["str(event)"])

p("C17","Every event lands on its row of its track in the exported song",
"With t ticks per note, each recorded event appears in the exported song on the track of its channel, in the pattern and on the line given by its row number, which is its time divided by t, rounded down, with 64 lines per pattern. When several events of one channel fall on the same row, the last one is the one written; no other line of any track carries a note.",
["inputs","histories"],"every set of recorded events and every ticks-per-note value within the bounds",
"No test exports a song.",
["src/extractors.py","src/xrns/parts/pattern.py","src/xrns/xrns_serializer.py","src/xrns/writer.py"],[("extract_tracks_to_xrns","src/extractors.py"),("PatternPool.add_note","src/xrns/parts/pattern.py"),("XrnsSerializer._render_pattern_track","src/xrns/xrns_serializer.py")],["Song.xml inside the written .xrns archive"])

p("C18","Exported song cells show the event's note, instrument and panning",
"Each exported cell holds the event's note name, the event's instrument number as two upper-case hexadecimal digits for a key-on and none for a key-off, and a panning mark: none when both outputs are enabled, '00' when only the right one is, 'F0' when the right one is not.",
["inputs"],"every event content: note, octave, panning, instrument numbers 0 to 255, key-on or key-off",
"No test exports a song.",
["src/extractors.py","src/vgm/ym2151/note.py","src/xrns/xrns_serializer.py"],[("extract_tracks_to_xrns","src/extractors.py"),("XrnsSerializer._render_pattern_track","src/xrns/xrns_serializer.py")],["NoteColumn elements of Song.xml inside the written .xrns archive"])

p("C19","The exported song plays all of its patterns, in order, on eight tracks",
"The exported song has exactly as many patterns as are needed to hold the latest event, each with eight channel tracks, a master and a send track, and its play sequence lists every pattern once, in time order. It declares eight sequencer tracks plus a master and a send track, and as many instruments as were captured.",
["inputs","histories"],"every set of recorded events and every ticks-per-note value within the bounds",
"No test exports a song.",
["src/extractors.py","src/xrns/parts/song.py","src/xrns/parts/pattern_sequence.py","src/xrns/parts/track.py","src/xrns/xrns_serializer.py"],[("extract_tracks_to_xrns","src/extractors.py"),("PatternSequence.add_pattern","src/xrns/parts/pattern_sequence.py"),("XrnsSerializer.render","src/xrns/xrns_serializer.py")],["Song.xml inside the written .xrns archive"])

p("C20","The exported tempo matches the song's row length",
"For every ticks-per-note value t from 1 to 100000, the exported song's beats per minute multiplied by its lines per beat is the number of t-sample rows per minute at 44100 samples per second, to within one beat per minute of rounding.",
["inputs"],"every ticks-per-note value from 1 to 100000",
"No test exports a song; the tempo is a chain of floating-point divisions truncated to an integer.",
["src/extractors.py","src/xrns/parts/globals.py","src/xrns/xrns_serializer.py"],[("extract_tracks_to_xrns","src/extractors.py"),("Globals","src/xrns/parts/globals.py")],["BeatsPerMin and LinesPerBeat in Song.xml"])

p("C21","The instrument export lists every captured instrument faithfully",
"The instrument export is a JSON list with one entry per captured instrument, in number order, each giving its number, the chip-wide parameters, the names of its enabled operators, the channel parameters, and for each of the four operators (m1, c1, m2, c2, in the chip's own assignment of register addresses to operators) all eleven parameters with the captured values.",
["inputs"],"every value of every parameter, every operator mask and every number of captured instruments within the bound",
"Two tests encode toy objects; none encodes an instrument or checks that a value ends up under the right name.",
["src/extractors.py","src/vgm/ym2151/config.py"],[("extract_instruments","src/extractors.py"),("ConfigEncoder.default","src/vgm/ym2151/config.py"),("repr_json methods","src/vgm/ym2151/config.py")],["file written by extract_instruments"])

p("C22","The text track export shows every row of the song once",
"The CSV track export has a header line and one line per row from row 0 to the row of the last event, in order and without gaps, each giving its pattern number and its line within the pattern (64 lines per pattern). Each channel column shows the label of the last event of that channel on that row and is empty when there is none; events on the final row are included.",
["inputs","histories"],"every set of recorded events and every ticks-per-note value within the bounds",
"No test calls the text export.",
["src/extractors.py"],[("extract_tracks","src/extractors.py")],["file written by extract_tracks"])

p("C23","Files and songs processed in one process do not affect each other",
"What is reported for a file (header facts, commands, events, instruments) and for a song under construction depends on that file or song alone, not on any other file opened, processed or exported before, after or in between in the same process.",
["inputs","histories"],"every pair of files or songs and every interleaving of opening, querying and processing within the bound",
"Tests look at one file and one state object at a time; class-level and default-argument sharing shows only with two.",
["src/vgm/core.py","src/vgm/ym2151/state.py","src/vgm/ym2151/config.py","src/xrns/parts/song.py"],[("Vgm per-file state","src/vgm/core.py"),("State.__init__","src/vgm/ym2151/state.py")],["results for file A with and without another file B being handled"],[("clocks","chip clocks of a file","src/vgm/core.py")])

p("C24","Files are closed on every path and standard streams never are",
"Opening by name gives the named file in the requested mode; an empty name or '-' gives standard output for a write mode and standard input for a read mode (the byte stream for a binary mode), and any other mode is refused for them. Whatever happens while it is in use, including an error, a named file is closed afterwards and the error still reaches the caller; the standard streams are never closed.",
["inputs","fault_sequences"],"every file name and mode, with and without a failure while the file is in use",
"No test touches this helper; the closing guarantee is about exceptional paths.",
["src/tools.py"],[("smart_open","src/tools.py")],["the object yielded, whether it is closed afterwards, the exception seen by the caller"])

p("C25","A song is written to its document completely and in place",
"Every part of a song under construction appears in the rendered document at its own place with its own value: each global setting, each track, master and send track (name, state, solo flag), every instrument, every pattern with each track's lines at their line numbers with note, instrument and panning, and the play sequence; nothing else carries song data. The written archive holds exactly this document as Song.xml.",
["inputs","configurations"],"every value of every setting and every song shape within the bounds",
"No test touches the song writer; mixing up two of the many same-typed settings is invisible without comparing each one for arbitrary values.",
["src/xrns/xrns_serializer.py","src/xrns/writer.py","src/xrns/parts/globals.py","src/xrns/parts/track.py"],[("XrnsSerializer.render and _render_*","src/xrns/xrns_serializer.py"),("writer","src/xrns/writer.py")],["Song.xml inside the written archive"])

p("C26","Parameter sets compare by value and copies are independent",
"Two chip-wide, operator, channel or pitch parameter sets are equal exactly when all of their parameters are equal. A copy of a parameter set is equal to the original, and changing any parameter of either one afterwards does not change the other.",
["inputs"],"every value of every parameter of every kind of parameter set",
"Tests compare and copy only the chip-wide set, with one field changed.",
["src/vgm/ym2151/config.py"],[("__eq__ methods","src/vgm/ym2151/config.py"),("__deepcopy__ and copy constructors","src/vgm/ym2151/config.py")],["==, !=, copy.deepcopy and the copy constructors"])

p("C27","The tool writes exactly the requested outputs from the given file",
"A run reads the given file, writes the instrument list exactly when an instrument output is requested and the song exactly when a track output is requested, each to the requested name, and uses the given ticks-per-note value unchanged, estimating it from the song exactly when none is given. An input that is not a VGM file, or that ends inside its header or inside a command the tool needs, produces no output file and leaves existing files alone. The command line passes its arguments on in these roles.",
["configurations","inputs"],"every combination of requested outputs, ticks-per-note value and kind of input",
"The command-line entry is never run by the tests.",
["src/main.py"],[("main","src/main.py"),("process_vgm_file","src/main.py")],["files written by main() and by the command line, ticks-per-note value used for the export"])

p("C28","Placing notes in a song keeps every other note",
"After any sequence of note placements, each cell (pattern, track, line) holds the last note placed there, all other cells are empty, and the song has exactly as many patterns as the highest pattern number used requires, each with the song's number of tracks.",
["inputs","histories"],"every sequence of placements, in any order, within the bounds",
"No test builds a song.",
["src/xrns/parts/pattern.py","src/xrns/parts/song.py"],[("PatternPool.add_note","src/xrns/parts/pattern.py"),("Pattern.__init__","src/xrns/parts/pattern.py")],["patterns, tracks and lines of the song under construction"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))

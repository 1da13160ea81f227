# ---------------------------------------------------------------- graph construction
P('G01', 'A graph node is identified by the hash of its set of pitches',
  'Every node of a built graph has as its id the hash of the set of distinct pitches that sound together, and stores that id as its node hash. Looking a set of pitches (or the notes carrying them) up with the neighbour, connectivity and edge queries uses the same identity, so an existing node is always found from its pitches.',
  ['inputs'], 'all note sequences, pitch groups and lookups', 'The three stable builder tests use one triad; identity must agree between the one place that creates nodes and three separate query helpers for every pitch set.',
  [B], [('node creation', 'MidiGraphBuilder.build_sequence'), ('pitch-set queries', 'MidiGraphBuilder.neighbors / is_connected / get_edge_connected')])
P('G02', 'Node indices are a bijection that is only ever extended',
  'Every distinct node gets exactly one integer index and every index belongs to one node, in both lookup directions, and the pitch-set lookups agree with them. An index once handed out never changes or disappears, however many sequences and files are added later.',
  ['histories'], 'all sequences of builds on one builder, and of merges on one index mapper', 'Tests build one small sequence on a fresh builder; the guarantee is about the whole history of a builder that is reused for every file of a dataset.',
  [B, D], [('index assignment', 'MidiGraphBuilder.build_sequence'), ('mapper', 'midi_dataset.NodeHashIndexMapper')],
  state=[('index maps', 'hash->index, index->hash, hash->pitches, pitches->hash', 'MidiGraphBuilder')])
P('G03', 'Every step of a sequence updates exactly one edge of the graph',
  'The first group of a fresh graph becomes a node with a self edge of weight 1. Every later group either raises by exactly 1 the weight of the edge that already joins it to the previous group (in either direction), or, when they are not joined, adds itself as a node with an edge of weight 1 from the previous group; no step is skipped and the current group always becomes the previous one.',
  ['inputs', 'histories'], 'all sequences of note groups', 'The state space is every history of visited chords; tests check one or two hand made sequences.',
  [B], [('transition bookkeeping', 'MidiGraphBuilder.build_sequence')])
P('G04', 'Graphs contain exactly the sounding, non-drum notes, in time order',
  'Every note of a sequence that is not a drum note and has a non-zero velocity is put in exactly one time group, and no other note is. Groups are turned into graph steps in order of the time of their notes; only when filtering of single notes is requested are groups of one note left out.',
  ['inputs'], 'all note sequences', 'Tests use a handful of evenly spaced notes; skipping or reordering shows up only for particular times, velocities or drum flags.',
  [B], [('grouping', 'MidiGraphBuilder.compute_data'), ('visiting order', 'MidiGraphBuilder.build_sequence')])
P('G05', 'Oversized groups are split without loss and velocities follow pitches',
  'A group with more distinct pitches than the feature size is split into sub-groups that together hold every pitch exactly once, each no larger than the feature size; smaller groups stay whole. When velocities are included, entry i of the velocity row belongs to entry i of the pitch row and is derived from the loudest note of that pitch in the group.',
  ['inputs', 'configurations'], 'all groups and feature sizes', 'Groups above the feature size and duplicate pitches need dense classical pieces; no stable test has either.',
  [B], [('splitting and velocity alignment', 'MidiGraphBuilder.build_sequence'), ('feature tensor', 'MidiGraphBuilder.create_tensor')])
P('G06', 'Every built graph is handed out exactly once, in build order',
  'Iterating the graphs of a builder yields each graph built so far exactly once, in the order they were built, with one integer label per node that is the index of that node hash, and leaves the builder with nothing pending; a graph is never yielded a second time by a later iteration and none is dropped.',
  ['histories'], 'all interleavings of build and (partial) iteration on one builder', 'Tests drain a builder holding a single graph.',
  [B], [('emission', 'MidiGraphBuilder.graphs')])
P('G07', 'Lookup tables handed to callers are copies',
  'The hash/index/notes lookup tables that a graph builder or a dataset hands out are copies: a caller that modifies what it received cannot change the tables used for labels later on.',
  ['programs'], 'all client programs that read the tables', 'Needs a client that mutates what it was given; no test does.',
  [B, D], [('read-only views', 'hash_to_index, index_to_hash, notes_to_hash, hash_to_notes properties')])
P('G08', 'Building covers every melodic instrument and honours its options',
  'Building visits every sequence it is given and produces graph material for exactly those that are not a drum track and do not consist of exactly one note; per-instrument mode stores one graph per non-empty sequence, merged mode exactly one graph holding all of them. Each build option (feature size, velocity buckets, encoding, note filter, tolerance, velocity flag) takes effect under its own name for every sequence.',
  ['inputs', 'configurations'], 'all sets of sequences and option combinations', 'Tests build one sequence with default options.',
  [B], [('build loop', 'MidiGraphBuilder.build')])
P('G09', 'Conversion to tensors keeps rows aligned with nodes and edges',
  'In the converted graph, row i of every node attribute and of the feature matrix belongs to node i, column j of the edge index and row j of the edge weights belong to edge j of the source graph, and every node and edge contributes exactly once. Graphs whose nodes (or edges) carry different attribute names are rejected.',
  ['inputs'], 'all attributed graphs', 'Two stable tests convert one tiny graph each.',
  [B], [('conversion', 'MidiGraphBuilder.from_midi_networkx')])
P('G10', 'Rescaled velocities stay within the MIDI range',
  'Velocity rescaling returns one value per input velocity, in the same order, and every returned value lies within 0..127, whatever the input values. A louder note is never rescaled below a softer one, and rescaling to a target range takes the softest note to its lower and the loudest to its upper end.',
  ['inputs'], 'all velocity lists', 'A bound over all integers; no stable test calls it.',
  [B], [('clamping', 'MidiGraphBuilder.rescale_velocities / scale_relative_velocities')])
# ---------------------------------------------------------------- dataset
P('G11', 'Every node carries the feature tensor of its own set of pitches',
  'The attribute of every node is the tensor of exactly its pitch set: one row of feature size with the pitches from position 0 and zeros after them, and with velocities a second row holding the velocities of those pitches in the same order. With the one-hot encoding it has one one-hot row per pitch, in which every MIDI pitch 0 to 127 can be represented, followed by its velocity when velocities are included.',
  ['inputs', 'configurations'], 'all pitch sets, encodings and velocity settings', 'Tests encode one or two small sets.',
  [B], [('feature tensor', 'MidiGraphBuilder.create_tensor'), ('node attributes', 'MidiGraphBuilder.build_sequence')])
P('G12', 'Graph queries answer from the graph, merging keeps the outside edges',
  'The neighbours of a pitch set, whether two pitch sets are connected, and the edge between them are exactly what the graph holds for those two nodes and direction; an edge is returned only if it exists. Merging nodes replaces them by one node with an unused id that is joined, in the same direction and with the attributes of the old edge, to every other node one of them was joined to.',
  ['inputs'], 'all graphs, node sets and directions', 'Tests query two nodes of a tiny graph and never merge.',
  [B], [('queries', 'MidiGraphBuilder.neighbors / is_connected / get_edge_connected'), ('merging', 'MidiGraphBuilder.merge_nodes')])
P('G13', 'A builder holds the settings it was given and refuses bad ones',
  'A new builder holds exactly the settings and sequences it was created with, however it was created (12 pitches when no feature size is given), with empty tables and no graphs. A feature size outside 1..127, a negative tolerance, and for building a feature size outside 1..128, a non-positive number of velocity buckets or a tolerance outside 0..1 are refused, so nothing is built with them.',
  ['inputs', 'configurations'], 'all settings and factory functions', 'Tests use two or three fixed settings.',
  [B], [('constructor', 'MidiGraphBuilder.__init__'), ('factories', 'MidiGraphBuilder.from_file / from_midi_sequence / from_midi_sequences'), ('argument checks', 'MidiGraphBuilder.build_sequence')])
P('G14', 'Only notes that start within the tolerance share a time group',
  'Sounding notes that start at the same time are always put in the same group; with tolerance 0 notes starting at different times never are, and the notes of one group start at most one tolerance (plus, for the automatic tolerance, one unit of rounding) apart. With the automatic tolerance, notes with the same nearest multiple of it share a group; it is the given percentile of the differences between consecutive note starts of a non-drum sequence, and 0 with fewer than two differences. The size reported with the groups is the number of notes of the largest one.',
  ['inputs', 'configurations'], 'all start times, tolerances and percentiles', 'Tests group notes at a few round times with one tolerance; where the boundaries between groups lie shows only for times between the multiples.',
  [B], [('grouping', 'MidiGraphBuilder.compute_data'), ('automatic tolerance', 'MidiGraphBuilder.compute_tolerance / instrument_time_differences')])
P('D01', 'A processed dataset is written under the names it is looked up by',
  'Processing writes exactly the files whose presence counts as "already processed", under the same names; loading opens the per-instrument file when the dataset is per-instrument and the merged file otherwise.',
  ['configurations'], 'all dataset configurations', 'No stable test builds a dataset.',
  [D], [('names', 'MidiDataset.processed_file_names'), ('writer', 'MidiDataset.process'), ('reader', 'MidiDataset.load_processed / processed_file_exists')])
P('D02', 'Saved lookup tables and data come back in their own place',
  'What processing saves (graph data, slices, and the four lookup tables) is read back into the corresponding place: data as data, slices as slices, and each lookup table into the table of the same meaning.',
  ['inputs'], 'all datasets', 'No stable test builds a dataset; a swapped table loads without error.',
  [D], [('save', 'MidiDataset.process'), ('load', 'MidiDataset.load_processed')])
P('D03', 'Each processed file holds the graphs of its own variant',
  'The per-instrument file holds exactly the graphs built one per instrument and the merged file exactly those built from all instruments of a file together; both are saved with lookup tables taken from the builder after those graphs were built.',
  ['inputs', 'configurations'], 'all file lists', 'No stable test builds a dataset; both variants load fine when they are mixed up.',
  [D], [('two passes', 'MidiDataset.process, _mask_per_instrument, _mask_entire_graph')])
P('D04', 'Train, validation and test masks partition the nodes',
  'When masks are requested, processing gives every graph it stores a train, a validation and a test mask of one entry per node, and every node is in exactly one of the three; the sizes of the train and validation parts are the configured ratios of the number of nodes, rounded down.',
  ['inputs', 'configurations'], 'all graphs and ratios', 'The split is random and no stable test builds a dataset.',
  [D], [('split', 'MidiDataset._mask_per_instrument / _mask_entire_graph')])
P('D05', 'Every graph passing the filter is stored once, after the transform',
  'Every graph built from every raw file is offered to the pre-filter; those it accepts (all, when there is none) are passed through the pre-transform if one is given and the result is stored exactly once; rejected graphs are not stored. Both dataset variants behave the same way.',
  ['inputs', 'configurations'], 'all file lists, filters and transforms', 'No stable test builds a dataset.',
  [D], [('processing loops', 'MidiDataset._mask_per_instrument / _mask_entire_graph')])
P('D06', 'Cached data is only reused for the same graph options',
  'Every dataset option that is handed to the graph builder and changes the graphs it builds is part of the name of the processed file, so a dataset opened with a different setting never silently loads graphs built with another.',
  ['configurations', 'histories'], 'all pairs of configurations sharing a root directory', 'Needs two datasets with different options over one directory.',
  [D], [('names', 'MidiDataset.processed_file_names'), ('options', 'MidiDataset._mask_per_instrument / _mask_entire_graph')])
P('D07', 'A dataset rejects bad settings before touching the disk',
  'Constructing a dataset with a setting of the wrong type, or ratios, feature size, bucket count or search directory outside the documented range, raises before any file is downloaded, copied, processed or written.',
  ['inputs', 'configurations'], 'all constructor arguments', 'No stable test constructs a dataset.',
  [D], [('validation', 'MidiDataset.__init__')])
P('D08', 'Every option of a dataset reaches what it configures',
  'In both variants, graphs are built with the feature size, velocity buckets, note filter, velocity flag and tolerance the dataset was created with, and labels are removed and sanity checks made exactly as requested. Transform, pre-transform and pre-filter reach the base class in their own roles, and the raw files are the given ones or, when none are given, every .mid file of the search directory.',
  ['configurations'], 'all dataset options', 'No stable test builds a dataset.',
  [D], [('options', 'MidiDataset.__init__'), ('building passes', 'MidiDataset._mask_per_instrument / _mask_entire_graph'), ('raw files', 'MidiDataset.raw_file_names')])
P('D09', 'Given files end up in the raw directory under the names they are read by',
  'When files are given, each of them is copied into the raw directory under its own file name, and that name becomes its entry in the list of files, while the list the caller gave stays as it was; a file that does not exist raises instead of being passed over. When no files are given, every listed file is fetched into the raw directory.',
  ['inputs', 'configurations'], 'all lists of files', 'No stable test builds a dataset.',
  [D], [('download', 'MidiDataset.download')])
# ---------------------------------------------------------------- reader / writer
P('R01', 'Reading keeps every sounding note with its own values and track',
  'Reading a MIDI file produces exactly one internal note for each note in the file whose start and end differ by more than rounding error, in the track of its instrument, with the pitch, start, end, velocity, program and drum flag of the file and the time signature in force at its start.',
  ['inputs'], 'all MIDI files', 'Tests read a few files with ordered notes.',
  [R], [('reader', 'MidiReader.read, read_instrument')])
P('R02', 'Reading keeps every pitch bend and control change',
  'Reading a MIDI file produces one internal pitch bend and one internal control change for each of those events in the file, in the track of their instrument, with the same value, number, time, program and drum flag.',
  ['inputs'], 'all MIDI files', 'Stable reader tests look at notes only.',
  [R], [('reader', 'MidiReader.read, read_instrument_pitch_bends, read_instrument_control_changes')])
P('R03', 'Reading keeps every tempo, key and time signature change',
  'Every tempo change, key signature and time signature of the file is added to the result exactly once with its own time and values (key numbers 0 to 23 become key and mode), and the result has the resolution of the file. A time signature that cannot be represented is reported as a reader error.',
  ['inputs'], 'all MIDI files', 'Tests read files with at most one change.',
  [R], [('reader', 'MidiReader.read_tempo_changes / read_key_signature / read_time_signature')])
P('R04', 'Writing never replaces an existing file unless asked to',
  'Writing a sequence raises, leaving the file system untouched, when the target exists and overwriting was not requested, when the sequence or file name is invalid, or when the time bounds are negative, not numbers or reversed.',
  ['inputs', 'configurations'], 'all calls of the writer', 'No stable test writes over an existing file.',
  [R], [('guards', 'MidiReader.write')])
P('R05', 'Writing emits every note, bend and control change of every track',
  'Converting sequences to a MIDI object creates one instrument per track with the program and drum flag of that track, holding one note per internal note (same velocity, pitch, start, end) and one pitch bend and control change per internal event not later than the requested end (same value and time). Every time signature, key signature (minor keys offset by 12) and tempo change after time zero not later than that end is written with its own time and value, tempo changes in order of time.',
  ['inputs'], 'all sequences', 'One stable test converts; it samples a single file and does not compare programs or events.',
  [R, M + 'callbacks.py'], [('writer', 'MidiReader.to_pretty_midi'), ('single track writer', 'midi.callbacks.save_midi_callback')])
# ---------------------------------------------------------------- sequences
P('R06', 'Reading loads the source it was given, or raises',
  'Reading the path of a file, the bytes of a file or a mido file parses exactly that source and records it as the file name of the result; any other kind of source is refused, and an error while parsing is raised and never turned into a result. The total time of the result is not less than the end of any note that was read. The from_file operations of the reader and of the sequences give exactly what the reader read from that path.',
  ['inputs'], 'all sources', 'Tests read a few files by path.',
  [R], [('reader', 'MidiReader.read, _read_pretty_midi, mido_to_pretty_midi')])
P('S01', 'The total time of a sequence covers every note in it',
  'After adding, appending, extending, inserting, merging, assigning, cutting in place or stretching notes, the total time of a sequence is at least the end time of every note that operation put in, and creating a sequence from notes gives the largest end time.',
  ['histories'], 'all histories of operations on a sequence', 'Tests perform one or two operations on small ordered lists.',
  [M + 'midi_sequence.py'], [('total time maintenance', 'MidiNoteSequence mutators')])
P('S02', 'Signature lookups return the signature in force at that time',
  'Tempo, key and time signatures are kept in order of time whatever order they are added in, a signature at the time of the first one replaces it, and no other signature is lost. Looking one up for a time returns the last signature at or before that time.',
  ['histories', 'inputs'], 'all orders of insertion and all times', 'Tests insert a few signatures in order.',
  [M + 'midi_sequences.py', M + 'midi_time_signature.py', M + 'midi_key_signature.py'], [('insertion', 'MidiNoteSequences.add_*_signature(s)'), ('lookup', 'MidiNoteSequences.time_signature / key_signature / tempo_signature')])
P('S03', 'Cached lookups never outlive the data they were computed from',
  'A lookup whose results are cached gives the same answer as an uncached one after every change made through the public operations: whatever operation changes the data a cached lookup reads also discards its cached results.',
  ['histories'], 'all interleavings of lookups and updates', 'Needs a lookup, an update and the same lookup again.',
  [M + 'midi_sequences.py', M + 'midi_sequence.py'], [('cache invalidation', 'functools.cache users')])
P('S04', 'Deriving a sequence leaves the original alone and shares no notes',
  'Slicing, truncating, extracting or cloning a sequence neither changes the original sequence nor any of its notes, and the result holds its own note objects, so later changes to the result cannot reach the original.',
  ['histories', 'inputs'], 'all sequences and bounds, followed by any change to the result', 'Tests compare contents once; sharing shows only after a later mutation.',
  [M + 'midi_sequence.py'], [('copying', 'MidiNoteSequence.slice / truncate / extract / clone')])
P('S05', 'A cloned sequence carries the complete content of the original',
  'Cloning a sequence copies every kind of content: melodic notes, drum notes, control changes, pitch bends, tempo changes, instrument, program, resolution, total time and quantisation state; an empty clone copies everything but the events.',
  ['inputs'], 'all sequences, including drum tracks', 'No stable test clones a drum track or one with bends.',
  [M + 'midi_sequence.py'], [('cloning', 'MidiNoteSequence.clone / clone_empty')])
P('S06', 'Notes only enter a sequence of their own instrument and kind',
  'Adding a note whose instrument differs from that of the sequence raises and changes nothing; otherwise a drum note is stored with the drum events and any other note with the melodic notes, exactly once. Merging requires equal instrument and resolution, refuses notes of another instrument, and the result holds every note of both, in order.',
  ['inputs', 'histories'], 'all notes and sequences', 'Tests add a few matching notes.',
  [M + 'midi_sequence.py'], [('routing', 'MidiNoteSequence.add_note, merge, validate_instrument')])
P('S07', 'Every track is reachable under the index it was stored under',
  'Creating a track that already exists returns the existing one unchanged; a new one gets its own sequence with the given program, name and drum flag; whatever is stored for an index is what reading that index gives back, and no operation on one track replaces another.',
  ['histories'], 'all histories of track creation, access and assignment', 'Tests create a couple of tracks in order.',
  [M + 'midi_sequences.py'], [('track table', 'MidiNoteSequences.create_track / get_track / __getitem__ / __setitem__')])
P('S08', 'Cutting a sequence by time keeps exactly the notes in range',
  'Slicing a sequence keeps exactly the notes that start at or after the start and before the end, cut at the end; truncating keeps exactly the notes that end by the given time; extracting puts each note into the one part its start falls in, with times relative to that part and cut at its end; cutting keeps the first notes.',
  ['inputs'], 'all notes and bounds, including notes exactly on a bound, overlapping or unordered', 'Tests use a few ordered notes and bounds between them.',
  [M + 'midi_sequence.py'], [('cutting', 'MidiNoteSequence.slice / truncate / extract / cut / cut_in_place')])
P('S09', 'A sequence reports, shifts, adds and exports exactly its notes',
  'The length, iteration, indexing and events of a sequence are its notes in stored order; its pitches and file export come in order of start time, and it counts as quantised exactly when each note does. A sequence is created with exactly the notes and drum events it is given; shifting and stretching reach every note once and shifting moves the total time too; control changes and bends are added once, at the end; adding two sequences of one instrument gives a new one with the notes of both. The initial tempo is that of the change at time zero, else of the first change.',
  ['inputs', 'histories'], 'all sequences, melodic and drum, in any order of notes', 'Tests use short, ordered, melodic sequences.',
  [M + 'midi_sequence.py'], [('queries', 'MidiNoteSequence.__len__ / __getitem__ / __iter__ / as_note_seq / to_midi_file / is_quantized / initial_tempo'), ('operations', 'MidiNoteSequence.__init__ / __add__ / shift_times / stretch')])
P('S10', 'A set of tracks reports and cuts exactly the tracks it holds',
  'A set of tracks reports as many tracks, indices, instruments and notes per track as it holds, counts as quantised exactly when each track does, and lists the events of all tracks in order of their start. The bounded signature iterators give, in order of time, exactly the signatures not later than the bound (for tempo also not at time zero); the initial tempo is that at time zero, else the first one. Trimming replaces every track by its cut to the given range; truncating refuses a negative offset and otherwise trims to, and returns, the latest event end within it.',
  ['inputs', 'histories'], 'all sets of tracks, signature lists, bounds and offsets', 'Tests build sets of one or two tracks with few signatures and never truncate.',
  [M + 'midi_sequences.py'], [('queries', 'MidiNoteSequences.__len__ / num_track / num_instruments / instruments / get_all_sequence_events / is_quantized'), ('ranges', 'MidiNoteSequences.slice_* / trim / truncate')])
P('S11', 'Splitting a sequence cuts it at every point asked for',
  'Splitting by a span cuts at every multiple of the span before the total time, splitting by a list cuts at every given time in ascending order; the first part starts at time zero and the last one ends at the total time (when that is later than the last cut). A point is left out only when skipping was asked for and a note of the sequence starts before it and ends after it; then it always is.',
  ['inputs'], 'all sequences, spans, lists of times and settings of skip_boundary', 'Tests split short sequences of ordered, non-overlapping notes by one span.',
  [M + 'midi_sequence.py'], [('splitting', 'MidiNoteSequence.split / compute_intervals')])
# ---------------------------------------------------------------- events
P('N01', 'Event values are always within their MIDI ranges',
  'However it is created, a note has pitch, velocity and instrument in 0..127, program in 0..255, numerator and denominator in 1..255; a pitch bend amount in -8192..8191, program and instrument in 0..127 and a time that is not negative; a control change number, value, program and instrument in 0..255, a time that is not negative and a quantised step in 1..32; an instrument a number in 0..255. A value in range is stored as given, others are clamped or rejected. Assigning a note pitch or program, a bend program, instrument or time, or a control change quantised step keeps it in that range too.',
  ['inputs', 'histories'], 'all constructor arguments and assignments', 'Tests sample a few boundary values.',
  [M + 'midi_note.py', M + 'midi_pitch_bend.py', M + 'midi_control_change.py', M + 'midi_instruments.py'], [('clamps and checks', 'constructors and setters of the event classes')])
P('N02', 'A note always ends after it starts',
  'Creating a note, or assigning its start or end time, never leaves a note whose end is not after its start: such values are rejected and the note keeps its previous times, while every valid value is stored as given.',
  ['inputs', 'histories'], 'all times and assignment orders', 'Tests sample a few values.',
  [M + 'midi_note.py'], [('guards', 'MidiNote.__init__, start_time, end_time')])
P('N03', 'Copies of events carry every field',
  'make_copy of a note or control change gives a new event equal to the original in every field that equality compares, except for the fields explicitly overridden in the call, which hold the given value (also when it is zero); the original is not changed.',
  ['inputs'], 'all events and overrides', 'Tests copy events whose fields have default values.',
  [M + 'midi_note.py', M + 'midi_control_change.py'], [('copying', 'make_copy')])
P('N04', 'Equality, inequality and hashing of value types agree',
  'For every class that defines comparison, inequality is the negation of equality, equality does not depend on the order of its operands and holds for objects with equal fields, objects of another type are unequal, and objects that compare equal hash equal (or cannot be hashed at all).',
  ['inputs'], 'all pairs of values', 'Tests compare a few pairs.',
  [M, IT], [('comparison methods', '__eq__, __ne__, __hash__')])
P('N05', 'The copying quantisation leaves the original untouched',
  'Quantising a note or a control change with quantize returns a copy that carries the fields of the original and is quantised with the given step size and amount, and does not change the original. Quantising a sequence replaces its notes and its control changes with such copies, one for each original, in order, and the number of steps it reports is not below the last step of a copy.',
  ['inputs'], 'all events and step sizes', 'Tests look at the quantised copy only.',
  [M + 'midi_note.py', M + 'midi_control_change.py', M + 'midi_sequence.py'], [('copy, then quantise', 'quantize')])
P('N06', 'Events compare by time, and are equal only when every field agrees',
  'Notes are ordered by start time, then by end time, then by pitch (times within a microsecond are the same time), and a note is less than or equal to another when it starts earlier, or at the same time and ends no later. Control changes and tempo, time and key signatures are ordered by time and, at the same time, by their sequence number; instruments by number. Two notes, control changes, pitch bends or instruments are equal exactly when all their values agree.',
  ['inputs'], 'all pairs of events', 'Tests compare a few pairs that differ in one field.',
  [M + 'midi_note.py', M + 'midi_control_change.py', M + 'midi_pitch_bend.py', M + 'midi_instruments.py', M + 'midi_time_signature.py', M + 'midi_key_signature.py'], [('comparison', '__lt__, __le__, __eq__ of the events')])
P('N07', 'What is derived from a note always belongs to that note',
  'The duration of a note is its end minus its start, its event times are its start and end, shifting adds the offset to both times and stretching multiplies both, and two notes overlap exactly when a stretch of time belongs to both. Its pitch name is that of its pitch, also after a pitch is assigned or when the note is created from a name. Frequencies follow equal temperament with A4 = 440 Hz, and durations in seconds and beats follow from tempo and time signature.',
  ['inputs', 'histories'], 'all notes, offsets, factors, pitches and tempi', 'Tests sample single notes.',
  [M + 'midi_note.py'], [('derived values', 'MidiNote.duration, overlaps, pitch, from_name, shift_time, stretch, note_to_freq, pitch_to_freq, beat_duration')])
P('N08', 'Events survive the trip through dictionaries and JSON',
  'A note read from a dictionary holds every value in it, and a valid default for each optional one that is missing; decoding JSON turns exactly the marked objects into notes holding the stored data. Reading back what an instrument was written to gives an equal instrument.',
  ['inputs'], 'all contents, with any subset of the optional values', 'Tests read complete dictionaries.',
  [M + 'midi_note.py', M + 'midi_instruments.py'], [('dictionaries', 'MidiNote.from_json, MidiNoteJSONDecoder, MidiInstrumentInfo.to_dict / from_dict')])
P('N09', 'Signatures hold what they were given, or refuse it',
  'A tempo, time or key signature holds the time, tempo, resolution, numerator, denominator, key and mode it was created with, and the default (120 quarters per minute, 480 ticks, 4/4, C major, time zero) for what was left out. A tempo, resolution, numerator or denominator that is not positive, a resolution, numerator or denominator that is not an integer, a denominator that is not a power of two and an unknown mode are refused. A tick lasts 60 / (tempo x resolution) seconds and a quarter 60 / tempo.',
  ['inputs'], 'all arguments', 'Tests create a few signatures.',
  [M + 'midi_time_signature.py', M + 'midi_key_signature.py'], [('signatures', 'MidiTempoSignature, MidiTimeSignature, MidiKeySignature')])
P('N10', 'Quantised steps follow from the time, the rate and the amount',
  'Quantising a time gives time x rate + (1 - amount), rounded down for a start and up for an end, never below zero, and refuses a rate or amount that is not positive. A quantised control change covers the one step its time falls in and keeps its time, also when quantised again; a quantised note starts at the step of its start, ends at a later step and still starts before it ends. An event counts as quantised exactly when both its steps are known, and step lengths and seconds follow from steps and rate.',
  ['inputs', 'histories'], 'all times, rates and amounts', 'Tests quantise a few notes at rate 4.',
  [M + 'midi_note.py', M + 'midi_control_change.py'], [('quantisation', 'quantize_to_nearest_step, quantize_in_place, is_quantized, steps_to_seconds, step_duration_in_samples')])
# ---------------------------------------------------------------- containers
P('C01', 'The sorted dictionary is a dictionary with its keys in order',
  'After any history of operations that the dictionary offers, iterating it gives each stored key exactly once in ascending order, with the value last stored under it, and its length is the number of keys.',
  ['histories'], 'all histories of dictionary operations', 'Two stable tests use item assignment and iteration only.',
  [M + 'sorted_dict.py'], [('key list kept beside the mapping', 'SortedDict')])
P('C02', 'The interval dictionary stores, finds, selects and deletes by interval',
  'Storing, reading and deleting under an interval key act on exactly that entry of the interval dictionary. Reading with a slice gives exactly the entries that overlap its bounds (a missing bound is unlimited), and a key that is neither an interval nor a slice raises KeyError and changes nothing.',
  ['histories'], 'all histories of operations', 'One stable test stores and reads two keys.',
  [M + 'sorted_interval_dict.py'], [('operations', 'SortedIntervalDict')])
P('C03', 'The interval tree keeps its interval set, tree and boundaries in step',
  'Every operation that adds an interval to a FloatIntervalTree records it in the interval set, the search tree and the boundary counts together, and every operation that removes one removes it from all three. Adding a present interval and discarding an absent one change nothing, removing an absent one raises ValueError, and empty intervals are turned away; membership, iteration and length are those of the interval set.',
  ['histories'], 'all histories of insertions and removals', 'Seven stable tests cover single insertions.',
  [IT + 'intervaltree.py'], [('paired updates', 'interval tree mutators')])
P('C04', 'Interval ordering and containment follow the bounds',
  'For every two intervals, overlap, intersection, union, containment, distance and length are those of closed intervals (midi Interval) or half-open intervals (FloatInterval) with these bounds, against a point or a range as well as against an interval; ordering is by lower bound, then upper bound, then data, and equal FloatIntervals have equal bounds and data. The strict comparisons lt, gt, le, ge of FloatInterval compare whole spans and reject empty intervals.',
  ['inputs'], 'all intervals', 'Tests sample a few.',
  [M + 'Interval.py', IT + 'interval.py'], [('interval algebra', 'Interval')])
P('C05', 'Interval tree queries return exactly the intervals they define',
  'For every tree and argument, at(p) returns exactly the stored intervals with begin <= p < end, overlap(b, e) those that share a part with the range b..e, envelop(b, e) those that lie within it, overlaps says whether there is one, and tree[p] and tree[b:e] are the point and range query, open ends reaching to the ends of the tree. begin, end, range and span are the least begin and the greatest end of the stored intervals (zero for an empty tree), find_nested lists for each interval those it strictly contains, and items and copies hold the stored intervals, separate from the tree.',
  ['inputs'], 'all stored intervals and all query points and ranges', 'Seven stable tests query a few points.',
  [IT + 'intervaltree.py', IT + 'node.py'], [('queries', 'FloatIntervalTree.at, overlap, envelop')])
P('C06', 'Set operations, cuts and merges of interval trees do what they define',
  'union, difference, intersection and symmetric_difference of interval trees (and their in-place and operator forms) hold exactly the intervals of the set operation, remove_overlap and remove_envelop remove exactly what the queries select, and comparisons of trees are those of their interval sets. chop(b, e) removes the part b..e from every interval and keeps the rest, slice(p) cuts each interval that strictly contains p at p, split_overlaps cuts every interval at every boundary inside it, and merge_overlaps, merge_equals and merge_neighbors replace each run of joining intervals by one interval over their whole span with the reduced data.',
  ['inputs'], 'all stored intervals and all arguments', 'No stable test cuts or merges.',
  [IT + 'intervaltree.py'], [('set operations and cuts', 'FloatIntervalTree.chop, slice, merge_overlaps')])
P('C07', 'The search tree inside the interval tree loses no interval and finds each',
  'Every node of the search tree holds the intervals that contain its center, those wholly left of it are in the left subtree and those wholly right of it in the right one, whatever sequence of insertions and removals came before. A point search visits every node that may hold a match and reports exactly the intervals that contain the point; rotations and the removal of emptied nodes keep every interval and the depths, and removing an absent interval raises ValueError while discarding one changes nothing.',
  ['histories', 'inputs'], 'all histories of insertions and removals and all points', 'Stable tests build trees of a few intervals and never rotate deliberately.',
  [IT + 'node.py'], [('search tree', 'Node.add, rotate, prune, search_point')])
# ---------------------------------------------------------------- transforms
P('T01', 'Dropping nodes keeps every per-node array and edge aligned',
  'After random node dropping, features, labels and all masks are restricted to the same surviving nodes, an edge survives exactly when both its ends do, its attribute survives with it, and edges refer to the new node positions. Graphs without edge attributes, labels or node hashes are handled too.',
  ['inputs'], 'all graphs and random choices', 'Random, and no test covers transforms.',
  [TR], [('node drop', 'RandomNodeDrop')])
P('T02', 'Dropping edges keeps edge attributes aligned and nodes untouched',
  'After random edge dropping, the surviving edges and edge attributes are selected by one and the same choice, and every per-node array is passed on unchanged under its own name. Graphs without edge attributes are handled too.',
  ['inputs'], 'all graphs and random choices', 'Random, and no test covers transforms.',
  [TR], [('edge drop', 'RandomEdgeDrop')])
P('T03', 'Degree and graph id transforms add exactly what they say',
  'Adding the degree turns the features of every node into its old features followed by its out-degree, in the same row, and leaves everything else of the graph as it was. The graph id transform gives a graph, as graph_id, the index under which it was last asked for from the dataset, which the dataset notes before it fetches and transforms the graph.',
  ['inputs', 'histories'], 'all graphs and sequences of accesses', 'No test covers transforms.',
  [TR, D], [('degree', 'AddDegreeTransform'), ('id', 'GraphIDTransform'), ('index', 'MidiDataset.__getitem__')])
P('T04', 'The drop transforms drop the share that was asked for',
  'Random node dropping with probability p drops int(p * number of nodes) of the nodes, taken from a random order of all of them. Random edge dropping keeps an edge exactly when its own uniform random number is not below p.',
  ['inputs'], 'all graphs, probabilities and random choices', 'Random, and no test covers transforms.',
  [TR], [('node drop', 'RandomNodeDrop'), ('edge drop', 'RandomEdgeDrop')])
# ---------------------------------------------------------------- theory
P('M01', 'Music theory tables are consistent with each other',
  'Every table that is the reverse of another is its exact inverse, interval sizes agree between enumeration and table and every interval used in a formula has a size. Both scale tables give the same seven ascending notes within one octave, the triad quality listed for each degree is the one its notes have, and all tables describe the same notes for a chord.',
  ['inputs'], 'all table entries', 'Tests sample some chords.',
  [M + 'midi_scales.py'], [('tables', 'MusicTheory and module level tables')])
P('M02', 'Scales, chords and triads are computed from the tables for every root',
  'For every root, given by number or by name, the notes of a scale and the pitches of a chord are the root raised by each interval modulo one octave, ascending or in the order asked for; an interval name means the interval of exactly that name. The triad on each degree of a scale has that degree, its third and its fifth with the listed quality, and an interval is split into octaves and rest and put together again without change.',
  ['inputs'], 'all roots, scales and interval lists', 'Tests compute major and minor scales from upper case names only.',
  [M + 'midi_scales.py'], [('operations', 'MusicTheory.notes_from_scale, chord_pitch_from_interval, triads_from_scale, triads_from_scale_tuple, compound_interval_to_base, base_to_compound_interval')])
P('M03', 'Music theory lookups answer exactly what was asked',
  'The intervals of a chord name are those listed for it; looking up a list of intervals gives a chord with exactly these intervals, and nothing when there is none. A number of semitones, or the sum of two intervals, gives an interval of exactly that size or an error, a pitch is named by its note and octave, and a scale named in any case gives its intervals.',
  ['inputs'], 'all chord names, interval lists, sizes, pitches and scale names', 'Tests look up a few.',
  [M + 'midi_scales.py'], [('lookups', 'MusicTheory.get_chord_intervals, get_chord_name, get_chord_name_from_intervals, from_semitones, compound_interval_from_bases, pitch_to_note, intervals_from_scale')])
# ---------------------------------------------------------------- experiments
P('E01', 'A checkpoint restores the training state it was saved from',
  'Loading a checkpoint restores model, optimiser and epoch from the entries under which saving stored them, from the same location, and training resumes at the epoch after the saved one.',
  ['crash_points', 'histories'], 'all interruption points between epochs', 'No test covers the experiment driver.',
  [SH], [('save/load', 'Experiments')])
P('E02', 'Metrics are stored and reloaded under their own name',
  'Training, validation and test metrics are recorded and saved under their own names with their own values, and loading restores exactly the sets that were saved.',
  ['histories'], 'all experiments', 'No test covers the experiment driver.',
  [SH], [('metrics', 'Experiments')])
# ---------------------------------------------------------------- MIDI parser
P('P01', 'Every sounding note of a MIDI stream is closed and kept',
  'While parsing a MIDI stream every note that is switched on and later off (or re-struck, or still sounding at the end of the track) becomes a note of the instrument of its own channel, program and track, with the pitch and velocity it was struck with; notes of other pitches are not affected.',
  ['inputs'], 'all MIDI streams', 'Tests parse well formed files only.',
  [CP], [('note bookkeeping', 'CustomPrettyMIDI')])
P('P02', 'Controllers and pitch bends of a MIDI stream reach their instrument',
  'While parsing a MIDI stream every control change and pitch bend becomes a control change or pitch bend, with the number, value and time of its message, of the instrument the messages of its channel, program and track belong to. Those that come before the first note of their channel in a track are kept and handed to the instrument that the first note creates, once, and no other instrument is changed by them.',
  ['inputs'], 'all MIDI streams', 'Tests parse files without controllers before the first note.',
  [CP], [('instrument loading', 'CustomPrettyMIDI')])
P('P03', 'The tempo map gives every tick its time',
  'Parsing builds one tempo segment per tempo change that changes the tempo, scaled by the resolution of the file, and a tick table that gives every tick of the file, up to its last event, the time that tempo map implies. The tempo changes reported, the time of a tick and the nearest tick of a time agree with that map, also beyond the last tick of the file.',
  ['inputs'], 'all tempo maps', 'Tests use files with one tempo.',
  [CP], [('tempo map', 'CustomPrettyMIDI')])
P('P04', 'Serialising to a MIDI file writes everything once, on the right channel and tick',
  'Serialising writes every tempo change, time signature, key signature and lyric to the first track of the file, and every note (its start and its end), pitch bend and control change of every instrument to one track of its own after it, each with its own values and tick; drum instruments are on the drum channel and the others never are, the first fifteen on different ones. The messages of a track are in order of their ticks, at one tick the program comes first and a note ends before the same pitch starts again, the track is ended after its last message, and all times are relative to the previous message.',
  ['inputs'], 'all loaded or built scores', 'Tests serialise files with a few instruments.',
  [CP], [('serialisation', 'CustomPrettyMIDI.serialize')])
P('P05', 'The metadata and track names of a MIDI stream are loaded',
  'Loading a MIDI stream turns every key signature, time signature and lyric of its first track into exactly one entry of the list for its kind, with the values of the event and the time in seconds of its tick. An instrument is named after its track. A file name, an open file and a loaded mido file all load exactly what was given.',
  ['inputs'], 'all MIDI streams', 'Tests read a few files with at most one signature of each kind.',
  [CP], [('loading', 'CustomPrettyMIDI.from_file'), ('metadata', 'CustomPrettyMIDI._load_metadata')])
P('P06', 'Views of a MIDI object combine every one of its instruments',
  'The end time of a MIDI object is the latest end of its instruments, signatures, lyrics and tempo changes (0 without any); its onsets are those of every instrument in ascending order; its piano roll is the sum of every instrument\'s roll taken with the given options and as wide as the widest, and its chroma folds the 128 rows of that roll into 12 pitch classes. Its pitch class histogram and transition matrix are the sums over every instrument taken with the given options, scaled to a total of 1 when asked (all zero when there is nothing to count). Removing invalid notes reaches every instrument.',
  ['inputs'], 'all MIDI objects and options', 'Tests never ask for these views; they hold for any number of instruments.',
  [CP], [('views', 'CustomPrettyMIDI.get_end_time'), ('rolls', 'CustomPrettyMIDI.get_piano_roll')])
P('P07', 'Adjusting times moves every event by one mapping',
  'Adjusting the times of a MIDI object keeps exactly the notes that lie within the original times and moves the start and end of each of them, and the time of every pitch bend, control change, key signature, lyric and time signature, to the interpolation of that very time between the original and the new times; notes that then no longer last are removed. Of the other events those strictly between the new ends stay, and the last one at the new start.',
  ['inputs'], 'all MIDI objects and mappings of times', 'No stable test adjusts times.',
  ['neural_graph_composer/custom_pretty_midi.py'], [('adjusting', 'CustomPrettyMIDI.adjust_times')])
# ---------------------------------------------------------------- cross cutting
P('X01', 'Every name, import and attribute the library uses exists',
  'No path through the library refers to a module, global name, in-library function, method or attribute that does not exist, or calls an in-library function with arguments it does not accept, so no operation can fail for that reason.',
  ['programs', 'inputs'], 'all paths of all public operations', 'Half of the operations are on paths no stable test runs.',
  ['neural_graph_composer/', SH], [('all modules', 'whole program')])
P('X02', 'Objects never share mutable state by accident',
  'No two objects of the library share a mutable default argument or class-level container that some operation changes: what happens to one object never shows in another.',
  ['histories', 'programs'], 'all programs using more than one instance', 'Needs two instances and a mutation.',
  ['neural_graph_composer/', SH], [('all classes', 'whole program')])
P('X03', 'Queries have no side effects',
  'Reading an attribute, comparing, printing, hashing, measuring the length of, iterating or asking a question of a musical object never changes that object or anything reachable from it.',
  ['histories', 'programs'], 'all interleavings of queries with other operations', 'A test that queries once cannot see what the query changed.',
  ['neural_graph_composer/'], [('query operations', 'whole program')])
P('X04', 'Only designated operations write to the file system',
  'Reading, building, transforming, comparing or querying never creates, changes or deletes a file; only writing a MIDI file, dataset processing/downloading, experiment checkpoints and metrics do.',
  ['programs', 'inputs'], 'all operations', 'Tests do not observe the file system.',
  ['neural_graph_composer/', SH], [('file system effects', 'whole program')])
P('X05', 'Reading and graph building are deterministic',
  'Reading the same file and building graphs from the same sequences gives the same result on every run: neither depends on random numbers, the clock, object addresses, environment or string hashing.',
  ['schedules', 'inputs'], 'all runs over the same input', 'One process cannot compare two runs with different hash seeds.',
  ['neural_graph_composer/'], [('reading and building', 'MidiReader.read, MidiGraphBuilder.build')])
P('X06', 'Log and debug messages have no effect on the operation',
  'Writing a log, debug or print message never changes an object, never uses up an iterator and never makes the operation that writes it fail, whatever the data: an operation behaves as if the message were not there.',
  ['programs', 'inputs'], 'all messages of the library and all data', 'A message that fails does so on data the tests do not use.',
  ['neural_graph_composer/'], [('messages', 'whole program')])
P('X07', 'No loop changes the size of the collection it is walking',
  'No loop or comprehension of the library adds to, removes from or reorders the list, set, dictionary or graph it is going through, whether in its own body or in a function it calls, unless it leaves the loop right away. A method that walks another collection while removing from its own object also works when it is given that object itself.',
  ['inputs', 'programs'], 'all contents of the collections', 'Tests use collections in which the change happens at the end, or not at all; the others fail or skip elements.',
  [IT + 'intervaltree.py', 'neural_graph_composer/midi_graph_builder.py'], [('loops', 'every for loop and comprehension')])

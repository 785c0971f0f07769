"""Property texts; tools/gen.py turns them into properties.jsonl and MANIFEST.json."""


def P(id, title, statement, over, text, why, files, mechanism, technique=None, level_note=None, na=None, state=None):
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}}
    if state:
        p["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if na:
        p["na"] = na
    else:
        p["technique"], p["level_note"] = technique, level_note
    PROPERTIES.append(p)


PROPERTIES = []

CODEC_NOTE = ("Decided on the effect trees of the functions (every path, symbolic widths and counts, no bound on list "
              "lengths); field combinations the format excludes are listed in engine/domain.py. Constructs the "
              "interpreter does not model make a class undecided (listed in the evidence) and never an alarm.")

P("C01", "Every box parses back to exactly what was serialised",
  "For every kind of box the library can serialise, parsing the payload bytes it produced yields a box whose every "
  "serialised value equals the original's: same fields, in the same order, with the same bit widths, list lengths (as far as "
  "the count field can express them) and optional parts. The parser consumes the whole payload, leaves nothing unread and does not reject it.",
  ["inputs"], "all values of all fields of every box kind, all list lengths, all versions and flag combinations the "
  "format allows",
  "Tests round-trip one or two hand-picked instances per box kind; a width, order, sign, version or optional-part error "
  "that needs another field value, version or list length is never executed.",
  ["src/box", "include/shiguredo/mp4/box", "src/bitio"],
  [("the serialiser of each box kind", "src/box/*.cpp writeData"), ("the parser of each box kind", "src/box/*.cpp readData"),
   ("element types of lists", "src/box/sgpd.cpp, src/box/esds.cpp, src/box/trun.cpp, src/box/hvcc.cpp")],
  "custom dataflow/effect-tree interpretation of the exported AST; serialiser and parser trees compared field by field",
  CODEC_NOTE)

P("C02", "The declared size of a box equals the bytes it serialises to",
  "For every kind of box, the payload size it declares (and puts in its header and its parents' headers) is exactly the "
  "number of payload bytes its serialiser emits, for all field values, versions, flags and list lengths.",
  ["inputs"], "all values of all fields of every box kind, all list lengths, all versions and flags",
  "The size expressions and the serialisers are separate code; tests compare them for one instance per kind, so an "
  "optional part or element size counted in one and not the other stays unseen.",
  ["src/box", "include/shiguredo/mp4/box"],
  [("declared payload size", "src/box/*.cpp getDataSize"), ("serialiser", "src/box/*.cpp writeData"),
   ("size placed into headers", "src/box_info.cpp, src/box.cpp")],
  "symbolic size terms of getDataSize and of the serialiser's effect tree compared on every path",
  CODEC_NOTE)

P("C03", "Serialisers and parsers return exactly the bits they transfer",
  "The bit count a box serialiser returns is the number of bits it wrote, and the bit count a box parser returns is the "
  "number of bits it consumed (counting a remainder it deliberately skips), on every path and for every payload. The "
  "surrounding reader positions itself on the next box by that count.",
  ["inputs"], "all box kinds, all paths, arbitrary (also foreign) payloads that the parser accepts",
  "A miscounted branch only shows when that branch runs and something follows the box; tests check the count for the "
  "sampled instances only.",
  ["src/box", "src/bitio", "src/reader/reader.cpp"],
  [("bit counts of the helpers", "src/bitio/bitio.cpp, include/shiguredo/mp4/bitio/bitio.hpp"),
   ("counts accumulated by parsers", "src/box/*.cpp readData"), ("use of the count", "src/reader/reader.cpp readBox")],
  "path-wise comparison of the returned count term with the accumulated widths of the effect tree",
  CODEC_NOTE)

P("C04", "Every box payload ends on a byte boundary",
  "On every path of every box serialiser the bits written add up to a whole number of bytes, and byte-wise transfers "
  "(strings, raw data, nested structures) start on a byte boundary, in serialisers and parsers alike. No field is "
  "silently lost in an unflushed partial byte.",
  ["inputs"], "all box kinds, all paths and list lengths",
  "A path whose bit widths do not add up to whole bytes loses its tail only for that combination of versions and flags; "
  "tests execute few combinations.",
  ["src/box", "src/bitio"],
  [("bit writer without flush", "src/bitio/writer.cpp"), ("reserved bits that pad fields", "src/box/*.cpp")],
  "bit-width sums of every serialiser path, reduced modulo eight as symbolic terms",
  CODEC_NOTE)

P("C15", "A box built from given values is written in the documented wire format",
  "A box constructed from its parameters serialises every parameter to the place, width and byte order the MP4 and "
  "QuickTime formats define for its version and flags, with the defined reserved values, constants, counts and the "
  "four-character type. Values that are not given take their defined defaults. A box filled by parsing is written by the same "
  "rules, field by field.",
  ["inputs"], "all parameter values of every constructor of every box and entry type, all versions, flags and list lengths",
  "Serialiser and parser can agree with each other and both be wrong, so a round-trip test cannot notice; byte-exact "
  "expectations exist for one instance per kind only.",
  ["src/box", "include/shiguredo/mp4/box"],
  [("constructors taking parameters", "src/box/*.cpp"), ("parameter defaults", "include/shiguredo/mp4/box/*.hpp"),
   ("serialisers", "src/box/*.cpp writeData")],
  "constructor and serialiser interpreted together; every written field compared with reviewed format tables "
  "(spec/wire.json) on every path",
  "The tables were extracted from the tree and reviewed against ISO/IEC 14496-12/-14/-15, QTFF and go-mp4 (spec/wire.txt "
  "is the readable form). Constructors the tables do not know, or parameters that are gone, are undecided, not alarms.")

MODEL_NOTE = ("Oracle: the reviewed reference model spec/model (a frozen copy of the library with all recorded defects "
              "repaired). Every function on the property's list is interpreted abstractly over all paths with symbolic values "
              "and unbounded lists; loops by one arbitrary iteration from equal loop-carried state. Differences are reported "
              "only on feasible paths with concrete separating values; what cannot be decided is listed in the evidence.")
MODEL_TECH = ("abstract interpretation of the exported AST into path summaries (effects, values, exceptions), compared path "
              "by path with a reviewed reference model")

P("C05", "Every box kind is recognised by its type code and instantiated as that kind",
  "After registration, each four-character code the library supports yields a fresh box of the kind the format assigns to that "
  "code, carrying that code, and exactly the versions defined for it count as supported. Unknown codes yield the "
  "unsupported-box kind that keeps the payload as it is, and codes that share an implementation keep the code they were looked up by.",
  ["inputs"], "all type codes (registered or not) and all versions",
  "Tests construct boxes directly and never go through the registry; a wrong pair, a missing line or a wrong version list "
  "is only met by a file containing that box.",
  ["src/box_types.cpp", "src/box_map.cpp", "src/box_type.cpp", "include/shiguredo/mp4/box_types.hpp"],
  [("registration of every kind", "src/box_types.cpp register_box_map"), ("lookup, versions", "src/box_map.cpp"),
   ("codes of the kinds", "src/box/*.cpp default constructors, box_type_*()")],
  MODEL_TECH, MODEL_NOTE)

P("C06", "A failing stream is never taken for success",
  "Every operation that reads, writes, seeks or copies fails with an error when the stream it uses refused, ended early or "
  "was not open: headers, boxes, media data, temporary and output files, bit-level primitives. No operation returns "
  "normally after data it was asked to transfer was lost, and data that was never read is never used as if it had been.",
  ["fault_sequences", "inputs"], "every stream operation of every function, failing at any point (full disk, truncated file, closed or unopened stream)",
  "Tests use in-memory streams that never fail. A dropped check only shows when exactly that operation fails.",
  ["src/writer", "src/reader", "src/box_header.cpp", "src/box_info.cpp", "src/box.cpp", "src/bitio", "src/stream"],
  [("writers, copying of media data", "src/writer/*.cpp"), ("header and payload reading", "src/box_header.cpp, src/reader/reader.cpp"),
   ("bit-level primitives", "src/bitio/reader.cpp, src/bitio/writer.cpp"), ("whole boxes", "src/box.cpp, src/box_info.cpp")],
  MODEL_TECH + "; the state of each stream after each operation is a condition of its own", MODEL_NOTE)

P("C07", "Files are walked box by box with every declared size checked before use",
  "Reading a box header takes the type, the 32-bit, 64-bit or to-end-of-file size and the payload position from the stream as "
  "the format defines, and rejects sizes smaller than the header or larger than what remains of the stream. Reading a file visits every "
  "box once, in order and nested as stored, continues exactly at the end of each box, and treats boxes that overrun their "
  "parent, unknown boxes and unsupported versions as defined, without reading outside the parent.",
  ["inputs"], "all byte streams, all sizes and nestings",
  "No test drives the reader at all; header tests use three well-formed headers. Malformed sizes are an unbounded input space.",
  ["src/box_header.cpp", "src/reader/reader.cpp", "src/stream/stream.cpp", "src/box.cpp", "src/box_map.cpp"],
  [("header parsing and size checks", "src/box_header.cpp read_box_header"), ("tree walk", "src/reader/reader.cpp readBox"),
   ("remaining length of a stream", "src/stream/stream.cpp")],
  MODEL_TECH, MODEL_NOTE)

P("C09", "Every heap object has one owner, is freed exactly once and not used after",
  "Boxes, headers, tree nodes, descriptors and file handles are owned by exactly one object at a time: a tree node frees its "
  "box and its children, a box its header, reader and writers their trees and files. On every path, including those left by an "
  "exception, an object that was made is handed to an owner or freed exactly once; nothing is freed while it is still referenced, and no "
  "member keeps pointing to a freed object.",
  ["programs", "inputs", "fault_sequences"], "all paths of all library functions, including every exception the library can throw",
  "A leak or a double free does not change any tested output; the failing paths (exceptions while reading or writing a damaged or "
  "full file) are not executed by the tests.",
  ["src/box_info.cpp", "src/box.cpp", "src/box_map.cpp", "src/reader/reader.cpp", "src/writer", "src/track"],
  [("tree nodes and boxes", "src/box_info.cpp, src/box.cpp"), ("reader and writers", "src/reader/reader.cpp, src/writer/*.cpp"),
   ("trees built by tracks", "src/track/*.cpp")],
  "ownership typestate (made, managed, given, deleted) on every path and exception edge of the interpreted functions; "
  "destructors, factories and handovers compared with the reviewed reference model",
  MODEL_NOTE + " Allocation failure (bad_alloc) is not considered an exception edge; calls that may keep a pointer count as handing it over.")

P("C10", "The sample tables describe exactly the samples that were added",
  "For every history of added samples and chunk ends, the tables written for a track list each sample once with its size, the "
  "duration up to the next sample (the last one up to the end of the track), its key-frame mark and its chunk; every chunk has the offset of its first byte; runs "
  "are merged without loss; durations, media times and time scales of track, media and edit list agree with what was given.",
  ["histories", "inputs"], "all sequences of samples and chunk ends, all sizes, timestamps and configurations",
  "Tests call the run-merging helpers on a few hand-made lists; whole tracks with chunk ends, last samples, 64-bit offsets "
  "and key frames in arbitrary sequences are never built.",
  ["src/track/track.cpp", "include/shiguredo/mp4/track/track.hpp", "src/track/soun.cpp", "src/track/vide.cpp"],
  [("accumulation per sample", "src/track/track.cpp addMdatData, terminateCurrentChunk, finalize"),
   ("run merging", "src/track/track.cpp make_stts_entries, make_stsc_entries, make_offset_box"),
   ("tables built from the samples", "src/track/track.cpp make*BoxInfo"), ("samples per codec", "src/track/*.cpp addData")],
  MODEL_TECH, MODEL_NOTE)

P("C11", "Every track is written as the complete box hierarchy its codec requires",
  "The movie entry of each kind of track consists of exactly the boxes the format requires for its media type and codec, "
  "nested and ordered as defined, each built from the track's own configuration, codec parameters and sample tables.",
  ["configurations", "inputs"], "all track kinds, all configurations and codec parameters",
  "No test builds the hierarchy of any track; players reject files in which a single mandatory box or codec field is missing or misplaced.",
  ["src/track", "include/shiguredo/mp4/track"],
  [("hierarchy per codec", "src/track/*.cpp appendTrakBoxInfo, makeStsdBoxInfo"),
   ("common parts", "src/track/track.cpp, src/track/soun.cpp, src/track/vide.cpp make*BoxInfo")],
  MODEL_TECH + " (the box tree that is built, independent of construction order)", MODEL_NOTE)

P("C12", "Offsets, sizes and layout of a written file match its bytes",
  "In every file the writers produce, each box header states the size its box really has, parents' sizes cover their "
  "children, media data lies in one data box whose size is what was added, the chunk offsets point at the data in the final file "
  "(also after moving the index to the front), and boxes appear once, in the order of the chosen layout.",
  ["histories", "inputs"], "all sequences of writer calls, all data sizes including those that need 64-bit sizes, both layouts",
  "Neither writer is executed by any test. Sizes and offsets depend on each other (the index moves the data it points to), so "
  "errors appear for particular sizes only.",
  ["src/writer", "src/box_info.cpp", "src/box_header.cpp", "src/box.cpp"],
  [("writer sequences", "src/writer/simple_writer.cpp, src/writer/faststart_writer.cpp, src/writer/writer.cpp"),
   ("size and offset propagation", "src/box_info.cpp adjustOffsetAndSize, addLeaf"), ("header form", "src/box_header.cpp write")],
  MODEL_TECH, MODEL_NOTE)

P("C13", "Counts and lengths that do not fit their field are rejected, not truncated",
  "Where a serialiser writes the length of a list or string into a count field of fewer than 32 bits (parameter sets and NAL units of "
  "avcC, references of sidx, codec data of vpcC, Pascal strings, URL strings of esds), a length the field cannot hold is rejected with an "
  "exception, every length it can hold is accepted and written in full, and no other value the format can hold is refused.",
  ["inputs"], "all boxes with lists and strings of any length",
  "Tests serialise lists of a few elements; a list of 32, 256 or 65536 elements never occurs in them.",
  ["src/box", "src/bitio/bitio.cpp"],
  [("list counts", "src/box/avc.cpp, src/box/sidx.cpp, src/box/vpc.cpp, src/box/esds.cpp writeData"),
   ("strings", "src/bitio/bitio.cpp write_pascal_string")],
  "effect analysis: feasibility of an over-long length on every path that writes it; comparison with the reference", MODEL_NOTE)

P("C14", "Parsers take every field from its documented place",
  "Each box, entry and descriptor parser reads every field with the documented width, order, sign, version and flag "
  "conditions and list count, stores it in the field of that meaning, and rejects payloads that are too short or inconsistent "
  "instead of returning invented values.",
  ["inputs"], "all payloads, all versions, flags and list lengths, of all box kinds",
  "Tests parse the bytes of one well-formed instance per kind. A parser error for another version, flag, length or a damaged "
  "payload is outside that sample, and a matching error in the serialiser hides it from round trips.",
  ["src/box", "include/shiguredo/mp4/box"],
  [("parsers", "src/box/*.cpp readData"), ("version and flags", "src/box.cpp readVersionAndFlag"),
   ("layout choices", "src/box/sample_entry.cpp, src/box/sgpd.cpp, src/box/meta.cpp, src/box/avc.cpp")],
  MODEL_TECH, MODEL_NOTE)

P("C16", "Version, flag and type-code operations obey their algebra",
  "On boxes with version and flags, setting, adding, removing and testing flags act on exactly the named bits of the 24-bit field "
  "and leave the others and the version alone; what is set is what is returned and what is read and written as 8 + 24 bits. Boxes without them report an error "
  "or the defined neutral answer, and type codes compare equal exactly when all four characters (or the wildcard) match.",
  ["inputs", "histories"], "all flag values, versions and codes, all sequences of operations",
  "Tests cover a few flag values. (removeFlag was wrong for every flag that was not set.)",
  ["src/box.cpp", "include/shiguredo/mp4/box.hpp", "src/box_type.cpp"],
  [("flag operations", "src/box.cpp"), ("type comparison", "src/box_type.cpp")],
  MODEL_TECH, MODEL_NOTE)

P("C17", "Byte-order conversions are exact inverses at every width",
  "Every conversion between integers and byte sequences keeps all bits, uses the stated byte order at every width it "
  "supports, and reading back what was written yields the same value.",
  ["inputs"], "all values of all supported widths",
  "Tests check single constants per width; a swapped or dropped byte can cancel out for those.",
  ["src/endian", "include/shiguredo/mp4/endian"],
  [("conversions", "src/endian/endian.cpp, include/shiguredo/mp4/endian/endian.hpp")],
  MODEL_TECH + " (bit-vector terms)", MODEL_NOTE)

P("C18", "Bit-level reading and writing primitives transfer exactly the bits asked for",
  "Writing n bits appends exactly the n low bits given, most significant first, at any bit position, and reading n bits "
  "returns exactly the next n bits; integers, strings, vectors, variable-length integers and aligned bytes keep their value, "
  "their length limits and their terminators, report the number of bits moved, and fail when the stream ends or refuses.",
  ["inputs"], "all values, widths, bit positions and lengths",
  "Tests cover some widths at few bit positions; all boxes depend on every combination.",
  ["src/bitio", "include/shiguredo/mp4/bitio"],
  [("writer and reader", "src/bitio/writer.cpp, src/bitio/reader.cpp"), ("typed helpers", "src/bitio/bitio.cpp, include/shiguredo/mp4/bitio/bitio.hpp")],
  MODEL_TECH + " (bit-vector terms)", MODEL_NOTE)

P("C22", "Times are converted to the MP4 epoch without loss",
  "A point in time is stored as the whole number of seconds since 1904-01-01 00:00 UTC, and a stored number up to 2^32-1 seconds after "
  "1970 is shown as that point in UTC again, later ones as the all-zero placeholder.",
  ["inputs"], "all representable times",
  "Tests convert a handful of dates.",
  ["src/time", "include/shiguredo/mp4/time"],
  [("conversions", "src/time/time.cpp")], MODEL_TECH, MODEL_NOTE)

P("C23", "Fixed-point values and language codes keep their meaning",
  "Accessors of fixed-point fields return the stored number divided by the scale of its format, signed where the format is signed, "
  "and the packed language code keeps its three letters both ways, for all field values.",
  ["inputs"], "all field values",
  "Tests use one value per accessor, negative and fractional values are mostly absent.",
  ["src/box", "include/shiguredo/mp4/box"],
  [("fixed-point accessors", "src/box/mvhd.cpp, src/box/tkhd.cpp, src/box/elst.cpp, src/box/smhd.cpp"),
   ("language code", "src/box/mdhd.cpp")], MODEL_TECH, MODEL_NOTE)

P("C25", "No access outside an object, an array or through a null pointer",
  "No parameter, file content or order of calls makes the library read or write outside a container, an array or a caller's buffer, "
  "or use a null pointer it accepts: indexes, pointer ranges and lengths are checked, or clamped, before every such access, and "
  "buffers have the size the following access needs.",
  ["inputs", "configurations"], "all lengths, indexes, counts and contents; loops by an arbitrary iteration",
  "Tests index containers of fitting size; an access past the end only shows for unusual lengths, and even then not reliably.",
  ["src", "include/shiguredo/mp4"],
  [("every function that indexes, advances or copies", "src/bitio/reader.cpp, src/track/h264.cpp, src/writer/faststart_writer.cpp, src/box/*.cpp"),
   ("null arguments", "src/box.cpp, src/box_info.cpp, src/writer/*.cpp")],
  "static analysis: abstract interpretation of every function with an in-bounds obligation at each access, discharged under the path "
  "conditions; functions that index are also compared with a reviewed reference", MODEL_NOTE)

P("C26", "A new track starts exactly in the state its parameters define",
  "Constructing a track of any kind stores every given parameter, takes the movie time scale and creation time from its writer, starts "
  "with empty sample and chunk tables and derives codec fields as defined; configurations the library defines as invalid (such as track number 0) are rejected.",
  ["configurations"], "all parameter combinations of all track kinds",
  "Track constructors are not executed by the tests; defaults and derived fields depend on parameters that no test varies.",
  ["src/track", "include/shiguredo/mp4/track"],
  [("constructors", "src/track/*.cpp")], MODEL_TECH, MODEL_NOTE)

P("C28", "Coded frames become samples unchanged and once each",
  "Every frame given to a track is stored as the bytes its codec's storage format demands: for H.264 each NAL unit of the "
  "access unit once with its length in front, start codes and parameter sets taken out, one sample per access unit, parameter sets "
  "remembered once; for the other codecs the frame's bytes, timestamp and key mark exactly as given.",
  ["inputs", "histories"], "all frame contents (any arrangement of NAL units and start codes), all sequences of frames",
  "Only the start-code search is tested, on a few buffers.",
  ["src/track"],
  [("H.264 access units", "src/track/h264.cpp addData, find_next_nal_unit"), ("other codecs", "src/track/{aac,av1,mp3,opus,vpx}.cpp addData")],
  MODEL_TECH, MODEL_NOTE)

P("C08", "Every call of the library ends",
  "Reading, writing and adding samples end after finitely many steps for every input, however corrupt: every turn of a loop "
  "either consumes bytes of a stream whose end is an error, moves past a NAL unit, a box or a chunk of a file that is not "
  "empty, or advances a counter that can represent its bound towards that bound; box walking always moves forward because a "
  "box counts for at least its header; and no function calls itself without having made its problem smaller. An endless "
  "repetition of the same state is impossible.",
  ["inputs"], "all streams, coded frames, parameter and sample lists, file errors while copying",
  "A test can only show that its own inputs end; the inputs that make a parser spin are corrupt ones nobody wrote down.",
  ["src", "include/shiguredo/mp4"],
  [("box walk", "src/reader/reader.cpp SimpleReader::read, SimpleReader::readBox"),
   ("descriptor and varint loops", "src/box/esds.cpp Esds::readData; include/shiguredo/mp4/bitio/bitio.hpp read_uvarint"),
   ("NAL unit search", "src/track/h264.cpp find_next_nal_unit, H264Track::addData"),
   ("layout fixpoint and file copy", "src/writer/faststart_writer.cpp appendTrakAndUdtaBoxInfo, copyMdatData")],
  "static analysis: every loop of every library function followed through all paths of its body (abstract interpretation): a "
  "path back to the loop head that changes nothing the path depends on, a condition nothing can change, a counter too narrow "
  "for its bound, unconditional recursion in the call graph; the loops that consume input and what they rely on are compared "
  "with a reviewed reference",
  "Counted loops are recognised from the code; for the eight other loops the measure (bytes consumed, position, size) was "
  "argued by hand on the reference and the code is compared with it path by path. Counters of 32 or more bits are taken not to "
  "wrap. Loops inside the standard library are trusted, and a stream is taken to have an end.")
P("C20", "Independent objects share no hidden state",
  "Readers, writers, tracks and boxes that are given no common argument never influence each other: no library call leaves "
  "anything behind in static, thread-local or process-wide state (globals, function-local statics, buffers of the C library, "
  "locale and logger settings, files of a fixed name) that a later or concurrent call on other objects can observe, and nothing "
  "computed from one call's arguments is kept for the next call. Different objects may be used by different threads at once.",
  ["schedules", "histories"], "all sequences and interleavings of calls on different objects",
  "Tests use one object at a time in one thread; a static buffer or cache gives the right answer for the first object and for "
  "every single-threaded use.",
  ["src", "include/shiguredo/mp4"],
  [("the only static variable", "src/box_type.cpp box_type_any"), ("time conversion", "src/time/time.cpp format_epoch_19040101"),
   ("intermediate files", "src/writer/faststart_writer.cpp FaststartWriter::FaststartWriter (mkstemp)")],
  "static analysis: effect analysis on the resolved syntax tree of every library function: changes, escapes and "
  "call-dependent initialisation of variables of static storage, calls of non-reentrant or process-wide functions, files opened "
  "under constant names",
  "Decided syntactically on the resolved program for every function; callees in the standard library, fmt and spdlog are "
  "taken to keep no state except those listed in engine/rules/shared.py.")

P("C31", "Durations are converted between time scales without rounding error",
  "Track and media durations given in one time scale are expressed in another with an error below one unit, for all durations and scales.",
  ["inputs"], "all durations and time scales",
  "Tests convert no duration; errors appear only for large values.",
  ["src/track/track.cpp"], [("conversion", "src/track/track.cpp Track::getDurationInTimescale, getDurationInMvhdTimescale")],
  na="the result depends on IEEE rounding of run-time values in double arithmetic; the analysis treats such arithmetic as exact, and "
  "no static error bound in reach covers all 64-bit durations (values above 2^53 do lose precision)")

P("C32", "Memory and stack stay in proportion to the input",
  "Reading a file uses memory and stack bounded by a constant multiple of its size, whatever counts, lengths and nesting it declares.",
  ["inputs"], "all byte streams",
  "No test measures memory or uses hostile counts.",
  ["src/reader/reader.cpp", "src/box"], [("recursive walk", "src/reader/reader.cpp readBox"), ("declared counts", "src/box/*.cpp readData")],
  na="quantifies over a run-time ratio: how much is allocated for a declared count before the stream is found to end, and how "
  "deep containers nest; no sound static bound in reach relates either to the length of the file")

P("C33", "Written files are accepted by other implementations",
  "Files the writers produce are played correctly by common players and accepted by other parsers.",
  ["inputs"], "all written files, all players",
  "Needs other software.",
  ["src/writer", "src/track"], [("writers", "src/writer/*.cpp")],
  na="the oracle is the behaviour of other software; the part the format defines is decided as C10, C11, C12 and C15")

"""Source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os

B = "src/eventio/base.py"; H = "src/eventio/header.pyx"; V = "src/eventio/var_int.pyx"
P = "src/eventio/simtel/parsing.pyx"; T = "src/eventio/tools.py"; FT = "src/eventio/file_types.py"
SU = "src/eventio/search_utils.py"; EX = "src/eventio/exceptions.py"; VH = "src/eventio/version_handling.py"
HI = "src/eventio/histograms.py"; II = "src/eventio/iact/__init__.py"; IO = "src/eventio/iact/objects.py"
SO = "src/eventio/simtel/objects.py"; SF = "src/eventio/simtel/simtelfile.py"; PS = "src/eventio/simtel/pixelset.py"
RD = "src/eventio/simtel/runheader_dtypes.py"; SI = "src/eventio/simtel/__init__.py"
SC = "src/eventio/scripts/"

props = []
def p(id, title, statement, over, text, why, files, mech, observe):
    props.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Object headers are decoded bit-exactly",
  "For every possible header (type/flags word, signed 32-bit id, length word, optional 32-bit extension word), the reported type (16 bit), version (12 bit), user flag, extended flag, only-sub-objects flag, id and payload length equal the fields the eventio format defines, the length being the 30-bit length plus extension times 2^30. The reported header size is 12 bytes, plus 4 for a top-level sync marker, plus 4 for an extension; a header of any other number of bytes is rejected with EOFError.",
  ["inputs"], "All 2^96 header words (and 2^32 extension words), both nesting levels.",
  "Tests decode a handful of hand-written or recorded headers; no recorded file has the extension with non-zero bits, the user flag or a negative id in combination.",
  [H, B], [("parse_header_bytes / get_bits_from_word", H), ("read_header / parse_extension_field", B)],
  ["ObjectHeader attributes", "EventIOObject.header"])
p("C02", "Iterating a file yields exactly its top-level objects",
  "For every well-formed file, iterating yields exactly the stored top-level objects, once each and in file order, each as the class registered for its type (a generic object otherwise), with the stored header fields, a payload address and size that delimit exactly the stored payload bytes, and then ends. What the caller reads, seeks or parses on the file or on objects between two steps never changes the sequence (as far as the transport can seek to where it goes on).",
  ["inputs", "histories"], "All files of up to the stated number of objects with arbitrary header fields and payload bytes, with and without extension, and arbitrary interleavings of step, read, seek, tell and peek calls.",
  "Tests iterate a few recorded files front to back and spot-check lengths; arbitrary interleavings, extended headers, unknown types and zero-length payloads are not sampled.",
  [B, SI, II], [("EventIOFile._read_next_object keeps the next header position", B), ("KNOWN_OBJECTS registry", SI)],
  ["EventIOFile.__next__", "EventIOFile.peek"])
p("C03", "Iterating a container yields exactly its sub-objects",
  "For every object that contains only sub-objects, at any nesting depth, iterating yields exactly the stored sub-objects, once each and in order, with correct type, version, id, payload address (absolute in the file) and size, and stops at the end of the parent; iterating an object that holds data raises ValueError. Iterating or reading a child, a sibling or the file in between does not change what the parent yields.",
  ["inputs", "histories"], "All container payloads up to the stated size and depth with arbitrary child headers, and arbitrary interleavings of stepping parent, children and file.",
  "Tests walk recorded files with one fixed nesting order; interleaved iteration of parent and child and zero-size children are not sampled.",
  [B, H], [("EventIOObject.__next__ / _next_header_pos", B), ("read_header(offset)", B)],
  ["EventIOObject.__next__", "header.content_address", "header.content_size"])
p("C04", "A truncated file is reported, never mistaken for data",
  "For every well-formed file cut after any number of bytes, iteration first yields all objects whose header is complete, unchanged; a cut inside a sync marker, header or extension then raises EOFError (peek warns and returns None). Iteration ends normally exactly if nothing at all is left where the next object would start: the file was cut exactly between two top-level objects, or inside the payload of the last object, whose payload then reads as only the bytes that are present. An object or sub-object whose payload was cut never yields a sub-object that is not completely headed.",
  ["inputs", "crash_points"], "All cut positions of all files within the stated bounds, for direct and pipe-like transports.",
  "Tests cut two recorded files at two or three positions.",
  [B], [("check_size_or_raise", B), ("parse_header_bytes length check", H)], ["EventIOFile.__next__", "EventIOFile.peek", "EventIOObject.__next__"])
p("C05", "Reading an object never leaves its payload",
  "Any sequence of read, seek (all whence modes) and tell calls on an object returns exactly the bytes of its own payload at its current position and position values relative to its payload start, never a byte outside the payload; read(-1) and over-long reads return what remains, and reading at or past the end returns nothing. Positions are kept per object and relative to that object's payload.",
  ["inputs", "histories"], "All call sequences up to the stated length with arbitrary offsets and sizes, on payloads of arbitrary content.",
  "Tests call seek and read on one object with a few fixed arguments.",
  [B], [("EventIOObject.read / seek / tell", B)], ["EventIOObject.read", "EventIOObject.seek", "EventIOObject.tell"])
p("C06", "Parsing an object is repeatable and position independent",
  "For every object type that can be parsed, parsing gives the same result no matter how often it is called and no matter what was read, sought or parsed before on that object, on other objects or on the file, as long as the transport can seek. Parsing leaves the sequence of objects still to be iterated unchanged.",
  ["inputs", "histories"], "All parseable object types with arbitrary payloads within the bounds, and arbitrary earlier positions of the object.",
  "Tests parse each object once, straight after it is found.",
  [SO, IO, HI], [("self.seek(0) at the start of parse", SO)], ["parse()"])
p("C07", "Plain, gzip and zstd files read identically",
  "Reading a file gives the same objects, bytes and end-of-file or truncation behaviour whether it is stored uncompressed, gzip compressed (external gzip through a pipe, or the gzip module) or zstd compressed, for any split of the compressed data into frames or members and any block sizes in which the transport delivers data. On a forward-only pipe, seeking forward skips exactly the requested number of bytes, tell reports the position, and seeking backward raises IOError instead of returning wrong data.",
  ["inputs", "configurations", "histories"], "All forward access sequences within the bounds over pipe, gzip-module and zstd transports delivering arbitrary data.",
  "Tests read one gzip and a few zstd files completely; multi-frame zstd files and arbitrary seek sequences on the pipe are not sampled.",
  [B], [("PipeWrapper.read/seek/tell", B), ("EventIOFile.__init__ transport selection", B)], ["EventIOFile.read/seek/tell", "PipeWrapper"])
p("C08", "Files are recognised by their leading bytes only",
  "A file is accepted as eventio exactly if its first four bytes, after gzip or zstd decompression where the magic bytes 1f8b or 28b52ffd say so, are the eventio sync marker in either byte order; every other or shorter file is rejected with ValueError on opening and False from the check. A sync marker in big-endian order is refused with NotImplementedError and any other marker at an object boundary with ValueError, never decoded as data.",
  ["inputs"], "All leading bytes and all file lengths within the bounds; all four-byte markers at every object boundary.",
  "Tests check a few fixed files.",
  [FT, B], [("is_eventio / _check_marker", FT), ("check_sync_bytes", B)], ["is_eventio", "is_gzip", "is_zstd", "EventIOFile()", "EventIOFile.__next__"])
p("C09", "Variable-length integers decode exactly",
  "For every byte sequence that starts with a variable-length integer, unsigned decoding returns the value defined by the eventio encoding (lengths 1 to 9, big-endian after the length prefix), and signed decoding maps it by zig-zag (0,-1,1,-2,...), over the whole 64-bit range, consuming exactly the encoded length. The buffer-based and stream-based readers agree with each other.",
  ["inputs"], "All first bytes and all continuation bytes for all nine lengths, all offsets within the bounds.",
  "Tests sample about twenty values, mostly short encodings.",
  [V, T], [("parse_varint / get_length_of_varint / varint", V), ("read_varint / read_unsigned_varint", T)], ["varint", "unsigned_varint", "read_varint", "read_unsigned_varint"])
p("C10", "Packed integer arrays decode exactly",
  "For every buffer, start offset and element count, the array decoders (unsigned, signed, and differential 32-bit over several rows) return element by element what decoding the integers one after another gives (for the differential form the running sum, restarting per row, modulo 2^32), and report exactly the number of bytes consumed.",
  ["inputs"], "All mixes of encoding lengths per element within the stated element counts, all offsets within the bounds.",
  "Tests decode recorded arrays with mostly one- and two-byte elements; 3 to 9 byte elements, negative differences over several rows and non-zero offsets are not sampled.",
  [V], [("unsigned_varint_array, varint_array, unsigned_varint_arrays_differential", V)], ["unsigned_varint_array", "varint_array", "unsigned_varint_arrays_differential"])
p("C11", "Too-short data raises, never yields made-up values",
  "For every parseable object type, if the payload is shorter than the structure its own contents declare, parsing raises an exception; it never returns values, and never reads memory outside the payload. The same holds for the primitive readers (numbers, strings, variable-length integers, arrays).",
  ["inputs", "crash_points"], "All payloads within the bounds cut at every byte position before the declared end.",
  "Tests cut a few objects at one position each; out-of-bounds reads of compiled code do not show up in value-based tests.",
  [SO, IO, HI, T, V, P], [("struct/frombuffer length checks", T), ("bounds checks in compiled decoders", V)], ["parse()", "eventio.tools readers", "eventio.var_int functions"])
p("C12", "Photon bunches decode to the stored physical values",
  "For every photon-bunch object, parsing returns one record per stored bunch in stored order: long-format fields bit-exact, compact-format fields scaled by their fixed units (positions 0.1 cm, cosines 1/30000 clipped to [-1,1], times 0.1 ns, emission height 10^(0.001 v), photons 0.01, wavelength unscaled). Bunches with wavelength 9999 are returned, in order and reinterpreted, as emitter records and all others as photons; objects with array and telescope id 999 are returned as particle records; header values (array, telescope, number of photons and bunches) are as stored.",
  ["inputs"], "All field values of up to the stated number of bunches in compact and long format, including every mixture of photon and emitter records and all special float values.",
  "Tests look at a few bunches of a few recorded files.",
  [IO], [("Photons.parse / parse_compact / parse_emitter", IO)], ["Photons.parse()", "Photons attributes"])
p("C13", "Chunked photon reading equals reading at once",
  "For every photon-bunch object and every chunk size, the chunks concatenated equal the unchunked result (photons and emitters, in order), every chunk except the last covers exactly the chunk size number of stored bunches and none is larger.",
  ["inputs", "configurations"], "All bunch counts and chunk sizes within the bounds, compact and long format, arbitrary contents.",
  "Tests use one object and two chunk sizes.",
  [IO], [("Photons.parse_chunked", IO)], ["Photons.parse(chunksize)"])
p("C14", "Photo-electron lists decode exactly",
  "For every photo-electron object of each supported version, with or without amplitudes and photon counts, the returned totals, per-pixel photo-electron counts, per-photo-electron pixel ids, times and amplitudes (in stored order) and per-pixel photon counts equal the stored ones, and pixels that are not listed have count zero.",
  ["inputs"], "All pixel ids, counts, times and amplitudes for up to the stated numbers of pixels and photo-electrons, all versions and flag combinations.",
  "Tests check sums on recorded files of one version.",
  [V, IO], [("parse_1208", V), ("PhotoElectrons.parse", IO)], ["PhotoElectrons.parse()"])
p("C15", "CORSIKA/IACT blocks decode exactly",
  "For every run header, telescope definition, event header, array offset, event end, run end, longitudinal, input card and atmospheric profile object, parsing returns exactly the stored values under their documented names and shapes, with the block's own counts; a CORSIKA block with a wrong word count is refused with WrongSize.",
  ["inputs"], "All field values with counts up to the stated bounds, all versions of each block.",
  "Tests compare a few fields of recorded files; several blocks appear there with one fixed size.",
  [IO], [("parse methods", IO)], ["parse()"])
p("C16", "Run, camera and history blocks decode exactly",
  "For every history, metadata, run header, Monte-Carlo run header, camera settings, camera organisation, pixel settings, disabled pixels, camera software settings, pointing correction and drive settings object of every supported version, parsing returns exactly the stored values under their documented names, with defaults only for fields the version does not store.",
  ["inputs", "configurations"], "All field values with counts (telescopes, pixels, gains, drawers, sectors, strings) up to the stated bounds, every supported version.",
  "Recorded files contain one or two versions per type; the rest is never executed by a test.",
  [SO, PS, RD, P, V, T], [("parse methods", SO), ("dtype builders", PS), ("dtype builders", RD)], ["parse()"])
p("C17", "Monte-Carlo shower and event blocks decode exactly",
  "For every shower, event, extra-parameter and photo-electron-sum object of every supported version, parsing returns exactly the stored values under their documented names, including nested extra parameters, profiles of any number and length, and the version defaults.",
  ["inputs", "configurations"], "All field values, up to the stated number of profiles, steps, parameters and telescopes, every supported version.",
  "No recorded file in the test set contains version 2 showers with extra parameters or float parameters whose number differs from the integer parameters.",
  [SO, P], [("MCShower/MCExtraParams/MCPhotoelectronSum.parse", SO), ("parse_mc_event", P)], ["parse()"])
p("C18", "Trigger, telescope header and tracking blocks decode exactly",
  "For every trigger-information, telescope-event-header and tracking-position object of every supported version and flag combination, parsing returns exactly the stored values under their documented names; trigger times per type are returned exactly for telescopes with more than one of the four trigger bits set. For trigger data up to version 3 the mis-shifted mask bits 0x10, 0x20, 0x40 are moved to 0x100, 0x200, 0x400 and no other bit changes.",
  ["inputs", "configurations"], "All field values, up to the stated number of telescopes, sectors and addresses, all versions and flags.",
  "Recorded files contain few versions and flag combinations.",
  [SO], [("TriggerInformation.parse / fix_teltrg_type_mask", SO), ("TelescopeEventHeader.parse", SO), ("TrackingPosition.parse", SO)], ["parse()"])
p("C19", "ADC sums and samples decode exactly",
  "For every ADC-sum and ADC-sample object in a supported storage mode, each gain, pixel (and sample) gets exactly the stored value: full mode, bit-pattern zero suppression, list zero suppression with reduced-width and high-gain-only pixels, and range zero suppression; pixels that are not stored are zero. Unsupported reduction modes raise NotImplementedError.",
  ["inputs", "configurations"], "All mode flags, pixel patterns and lists, gains and values up to the stated numbers of pixels and samples.",
  "Recorded test files contain only the unsuppressed modes.",
  [SO, V], [("ADCSums.parse", SO), ("ADCSamples.parse", SO)], ["ADCSums.parse()", "ADCSamples.parse()"])
p("C20", "Pixel timing, pixel lists and traces decode exactly",
  "For every pixel-timing, pixel-list, pixel-trigger-time and auxiliary-trace object of every supported version, list type and flag combination, parsing returns exactly the stored values at the stored pixel, gain and type, times scaled by the granularity, NaN for pixels without time and zero for pixels without pulse sum.",
  ["inputs", "configurations"], "All field values for up to the stated numbers of pixels, gains, list entries and types, both list types, both versions.",
  "Recorded files contain few combinations of list type, sums and global selection.",
  [SO, V], [("simtel_pixel_timing_parse_list_type_1/2", V), ("PixelTiming.parse, PixelList.parse, PixelTriggerTimes.parse, Auxiliary*Traces.parse", SO)], ["parse()"])
p("C21", "Image and shower reconstruction blocks decode exactly",
  "For every image-parameter and stereo-reconstruction object of every supported version and every combination of result flags in its id, parsing returns exactly the stored values under their documented names, with exactly the optional groups the flags announce, and the telescope and cut id encoded in the object id.",
  ["inputs", "configurations"], "All ids (flag combinations) and field values, hot-pixel counts up to the stated bound.",
  "Recorded files contain one or two flag combinations.",
  [SO], [("ImageParameters.parse", SO), ("StereoReconstruction.parse", SO)], ["parse()"])
p("C22", "Monitoring and calibration blocks decode exactly",
  "For every camera-monitoring, laser-calibration and pixel-monitoring object of every supported version and every combination of content flags, parsing returns exactly the stored values under their documented names and shapes, with exactly the parts the flags announce.",
  ["inputs", "configurations"], "All flag combinations and field values, up to the stated numbers of pixels, gains, sectors and drawers.",
  "Recorded files contain one or two flag combinations and versions.",
  [SO], [("CameraMonitoring.parse part parsers", SO), ("LaserCalibration.parse", SO), ("PixelMonitoring.parse", SO)], ["parse()"])
p("C23", "Telescope ids are decoded from types and ids without collision",
  "For every telescope id from 0 to 999 the object types encoding a telescope event and a tracking position map back to that telescope id, are pairwise distinct and are opened as the right class; a tracking position whose type and id disagree is refused. For every object id, the telescope id, array id, code and flags reported by telescope-related objects equal the bit or digit fields the format defines.",
  ["inputs"], "All 1000 telescope ids, all 2^16 types, all 2^32 ids, all versions.",
  "Tests check a few ids and a round trip on small ranges.",
  [SO, SI, IO], [("type_to_telid / telid_to_type / id_to_telid", SO), ("registration loops", SI)], ["telescope_id attributes", "KNOWN_OBJECTS"])
p("C24", "Unsupported versions are refused",
  "For every parseable object type and every version number, parsing either decodes according to that version or raises NotImplementedError; the set of accepted versions per type is exactly the documented supported set, and no data is returned for any other version.",
  ["configurations"], "All 4096 version numbers of every versioned object type.",
  "Tests only see versions present in recorded files.",
  [VH, SO, IO, HI, P], [("assert_exact_version / assert_max_version / assert_version_in", VH)], ["parse()"])
p("C25", "Simulated events are assembled from the right objects",
  "For every well-formed sim_telarray object sequence, iterating yields one event per Monte-Carlo event and per calibration event, in order, each combining the latest shower, its own Monte-Carlo event, array event, photo-electrons, photon data, observation-level particles and the monitoring and calibration data most recently read for its telescopes, and nothing from any other event; a later object never alters an already returned event. Header, metadata and telescope-description objects end up in the corresponding file attributes under the right telescope.",
  ["histories", "inputs"], "All object sequences up to the stated length over the object kinds a file may contain, with arbitrary ids and values.",
  "Tests iterate a few recorded files, each with one order of objects and no missing optional objects.",
  [SF], [("SimTelFile._parse_next_object", SF), ("parse_array_event / parse_telescope_event / parse_telescope_data", SF)], ["SimTelFile iteration", "SimTelFile attributes"])
p("C26", "Event selection drops exactly the unwanted events",
  "Skipping non-triggered events removes exactly the air-shower events without telescope events, skipping calibration removes exactly the calibration events, and restricting telescopes keeps exactly the allowed telescopes' data in every event; remaining events are otherwise unchanged and in the same order as without selection. Missing tracking positions for a kept telescope are reported as an error.",
  ["configurations", "histories"], "All settings of the three options over all object sequences and telescope sets within the bounds.",
  "Tests use each option once on one file.",
  [SF], [("SimTelFile._check_skip", SF), ("parse_array_event(allowed_telescopes)", SF)], ["SimTelFile iteration"])
p("C27", "A truncated simulation file loses at most its last event",
  "For every sim_telarray file cut at any byte after its header part, iteration never raises for the truncation but warns where an object was cut, yields every event that was completely stored before the cut unchanged and in order, yields at most one further, partial event made only of completely stored objects, and then ends, also when iterated again.",
  ["crash_points", "histories"], "All cut positions of all object sequences within the bounds.",
  "Tests cut one file at one position.",
  [SF, B], [("SimTelFile._read_next_event", SF)], ["SimTelFile iteration"])
p("C28", "IACT events are assembled per shower and reuse",
  "For every IACT file in normal or split mode, iterating yields one event per shower and reuse, in order, carrying that shower's header, end block, longitudinal data and particles, and that reuse's photon bunches, emitters, photon and bunch numbers by telescope, weight, time offset and (sign-flipped) array offset; run header, input card, atmospheric profile, telescope positions and run end are reported as stored, and iterating again yields the same events. A file whose objects are out of the required order is refused with WrongType.",
  ["histories", "inputs"], "All sequences of showers, reuses, telescopes and optional objects within the bounds, with arbitrary values, both modes.",
  "Tests use three recorded files with fixed numbers of showers, reuses and telescopes.",
  [II], [("IACTFile.__init__ / __iter__", II)], ["IACTFile iteration", "IACTFile attributes"])
p("C29", "Histogram blocks decode exactly",
  "For every histogram object, parsing returns all histograms in order with exactly the stored type, title, id, bin numbers, entries, ranges, under- and overflows, sums and bin contents (shape ny by nx for two-dimensional ones, zeros when empty), for integer and floating-point histograms, 1d and 2d, and titles of any length and any UTF-8 content.",
  ["inputs"], "All field values, types, titles up to the stated length and bin numbers up to the stated bound, several histograms in a row.",
  "No recorded file with histograms is available to the test suite here.",
  [HI], [("Histograms.parse", HI)], ["Histograms.parse()", "SimTelFile.histograms"])
p("C30", "Search helpers find exactly the matching objects",
  "For every file, the search helpers return exactly the objects a complete depth-first walk in file order would select (by type, by structure, the first n, or all with their depth), stop with a warning where they promise to tolerate truncation, and never return an object twice.",
  ["inputs", "histories"], "All object trees within the bounds with arbitrary types, all target types and n.",
  "Tests use one helper on one or two recorded files.",
  [SU], [("find_type, find_all_subobjects, yield_* functions", SU)], ["eventio.search_utils"])
p("C31", "Peeking does not consume and matches the next object",
  "For every file and every mix of peek and next calls, peek returns the object the following next returns (the same object, however often it is called) and None at the end of the file, and the sequence of objects obtained from next is the same as without peeking; an object of an unexpected type where a specific one is required is reported as WrongType naming both.",
  ["inputs", "histories"], "All interleavings of peek and next up to the stated length on all files within the bounds, including truncated ones.",
  "Tests call peek a few times on one file.",
  [B, EX], [("EventIOFile.peek / __next__", B), ("WrongType / check_type", EX)], ["EventIOFile.peek", "EventIOFile.__next__", "check_type"])
p("C32", "Cutting a file keeps whole objects within the limit",
  "For every input file and size limit, the cut tool writes exactly the longest prefix of complete top-level objects whose uncompressed size does not exceed the limit, byte for byte, gzip compressed exactly if the output name ends in .gz. A size is understood as a number with optional k, M or G (factors of 1024); any other size text is refused.",
  ["inputs", "configurations"], "All size limits and size texts within the bounds and all files within the bounds.",
  "There is no test for the tool's cut position.",
  [SC + "cut_eventio_file.py"], [("main / parse_size", SC + "cut_eventio_file.py")], ["output file"])
p("C33", "Summary tools report exactly what the file contains",
  "The object-count tool counts every object at every level under its type, version and class; the structure tool prints every object once in file order, or the first few of a run followed by the exact number left out; the history and metadata tools print every entry once, decoded, under the right telescope.",
  ["inputs"], "All object trees within the bounds with arbitrary types, versions and entries.",
  "Tests only check that the tools run.",
  [SC + "print_object_information.py", SC + "print_structure.py", SC + "print_simtel_history.py", SC + "print_simtel_metaparams.py"],
  [("count_versions", SC + "print_object_information.py"), ("print_structure", SC + "print_structure.py"), ("print_history", SC + "print_simtel_history.py"), ("read_meta", SC + "print_simtel_metaparams.py")], ["standard output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in props:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(props))

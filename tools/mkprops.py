"""Regenerates /verif/properties.jsonl from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["pyembroidery/" + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})

W = "pyembroidery/"
prop("C01", "A saved machine file loads back with the same needle path",
 "Whenever a save to DST, EXP, JEF, PEC, PES (any version), VP3, U01, XXX, TBF or G-code returns normally, loading that file yields every needle penetration of the design in order and at the same place (whole 0.1 mm units; fractional coordinates within rounding), and the thread changes and stops fall between the same penetrations. "
 "This holds for any design within the format's capacity and whatever the disk did meanwhile short of reporting an error: partial or interrupted writes and reads, an earlier failed save, a longer older file at the same path, or other saves in progress. "
 "The formats' own conventions are allowed: jumps, trims and lead-in moves may be added, PEC/PES may add or drop a zero-length penetration where a jump lands or the machine starts, and VP3 does not store stops.",
 ["inputs", "histories", "fault_sequences"],
 "all designs (stitch/jump/trim/colour/stop sequences, delta sizes, block layouts, options) x all histories of saves, failed saves, retries and overwrites x all short/interrupted I/O sequences",
 "Unit tests save a dozen fixed designs through a healthy disk and look mostly at counts and colours; they never vary deltas over the encodable range, never interrupt I/O and never overwrite or retry.",
 ["EmbPattern.py", "EmbEncoder.py", "DstWriter.py", "DstReader.py", "ExpWriter.py", "ExpReader.py", "JefWriter.py", "JefReader.py", "PecWriter.py", "PecReader.py", "PesWriter.py", "PesReader.py", "Vp3Writer.py", "Vp3Reader.py", "U01Writer.py", "U01Reader.py", "XxxWriter.py", "XxxReader.py", "TbfWriter.py", "TbfReader.py", "GcodeWriter.py", "GcodeReader.py", "ReadHelper.py", "WriteHelper.py"],
 [("encode before write, per-format limits", W+"EmbPattern.py write_embroidery"), ("long-stitch splitting", W+"EmbEncoder.py"), ("per-format delta codecs and back-patched headers", W+"*Writer.py/*Reader.py")],
 ["pyembroidery.write / read", "bytes of the saved file"])

prop("C02", "A saved file loads back with the design's thread colours",
 "After a save returns normally, loading the file gives each colour block its thread: the exact RGB value in PES v6 (both variants), VP3, TBF, INF, COL, EDR and, for designs without stops, XXX, G-code and extended-header DST (as many threads as its header holds), together with the thread text fields the format has room for (in the DST header, text without its comma delimiter). "
 "In the fixed-palette formats (PEC, PES v1, JEF) each block gets a thread of that palette and neighbouring blocks with different threads stay distinguishable; in JEF a thread of a palette colour keeps it unless the block before it already shows that colour; in PEC and PES v1 equal threads get equal entries and different ones different entries (up to the size of the palette), and a design that uses only palette colours keeps them exactly. "
 "The number and order of threads match the design's colour blocks.",
 ["inputs", "histories", "fault_sequences"],
 "all thread lists (repeats, near-identical colours, non-ASCII text, more threads than palette neighbours) x save histories x short/interrupted I/O",
 "The colour tests use a handful of named threads; palette collisions, repeated threads, stops mixed with colour changes and non-ASCII text are not reached.",
 ["EmbThread.py", "EmbThreadPec.py", "EmbThreadJef.py", "PecWriter.py", "PecReader.py", "PesWriter.py", "PesReader.py", "JefWriter.py", "JefReader.py", "Vp3Writer.py", "Vp3Reader.py", "XxxWriter.py", "XxxReader.py", "TbfWriter.py", "TbfReader.py", "InfWriter.py", "InfReader.py", "ColWriter.py", "ColReader.py", "EdrWriter.py", "EdrReader.py", "GcodeWriter.py", "GcodeReader.py", "DstWriter.py", "DstReader.py", "EmbEncoder.py"],
 [("palette assignment", W+"EmbThread.py build_unique_palette/build_palette"), ("JEF stop/colour table", W+"JefWriter.py write"), ("thread order by change sequence", W+"EmbEncoder.py")],
 ["pyembroidery.write / read", "threadlist of the loaded design"])

prop("C03", "A saved file loads back with the design's descriptive metadata",
 "After a save returns normally, loading the file returns the descriptive fields that format stores: PES v6 name, category, author, keywords and comments (up to 255 bytes each); DST name (up to 128 bytes), and with the extended header author and copyright as far as the header has room (control characters become spaces); TBF name (up to 16 bytes); PEC and PES v1 name (up to 8 bytes). "
 "Text outside ASCII survives or is shortened at a character boundary, and no value of these fields can damage the stitches or threads stored in the same file.",
 ["inputs", "fault_sequences"],
 "all field values (lengths around every limit, non-ASCII text, absent fields) x designs x short/interrupted I/O",
 "Tests store one short ASCII name; the length and encoding boundaries, where a header field displaces the rest of the file, are not reached.",
 ["PesWriter.py", "PesReader.py", "DstWriter.py", "DstReader.py", "TbfWriter.py", "TbfReader.py", "PecWriter.py", "PecReader.py", "WriteHelper.py", "ReadHelper.py"],
 [("length-prefixed strings", W+"PesWriter.py write_pes_string_8"), ("fixed-size headers padded by position", W+"DstWriter.py, TbfWriter.py, PecWriter.py")],
 ["extras of the loaded design"])

prop("C04", "CSV and JSON saves are lossless",
 "A design saved as CSV (any version) or JSON and loaded back is the same design: every command with its coordinates and its thread, needle and order parameters, every thread with all its stored fields, and every text metadata item. "
 "This holds for every command the library defines and any text, and independently of the platform's default text encoding and of partial or interrupted I/O.",
 ["inputs", "configurations", "fault_sequences"],
 "all command sequences including middle-level and option commands with encoded parameters, all thread/metadata text, default encodings x short/interrupted I/O",
 "Tests round-trip a few commands with ASCII text on one locale.",
 ["CsvWriter.py", "CsvReader.py", "JsonWriter.py", "JsonReader.py", "EmbFunctions.py", "EmbThread.py", "EmbPattern.py"],
 [("command name dictionaries", W+"EmbFunctions.py"), ("field quoting", W+"CsvWriter.py csv"), ("text mode and encoding of opened files", W+"EmbPattern.py read_embroidery/write_embroidery")],
 ["stitches, threadlist, extras of the loaded design"])

prop("C05", "SVG, TXT and PNG exports are complete and well formed",
 "When an SVG, TXT or PNG export returns normally the file is complete and well formed for its type and shows the design: the SVG holds one path per run of stitches with exactly its points and its thread colour, the TXT holds one line per command with position, kind and block colour, and the PNG has the design's dimensions, valid checksums and the thread's colour at the needle points. "
 "This holds for any design and for partial or interrupted writes.",
 ["inputs", "fault_sequences"],
 "all encodable designs and export options x short/interrupted writes x overwrites",
 "Tests only check that exporting does not raise.",
 ["SvgWriter.py", "TxtWriter.py", "PngWriter.py", "EmbPattern.py"],
 [("stitch blocks with threads", W+"EmbPattern.py get_as_stitchblock"), ("PNG chunk writer and rasteriser", W+"PngWriter.py")],
 ["bytes of the exported file"])

prop("C06", "Files of read-only formats decode to the stitches they encode",
 "A well-formed file in a format the library only reads (A10O, 100, BRO, DAT, DSB, DSZ, EMD, EXY, FXY, GT, HUS, INB, JPX, KSM, MAX, MIT, NEW, PCD, PCM, PCQ, PCS, SEW, SHV, STC, STX, TAP, ZHS, ZXY, PHB, PHC and older PES versions) loads as the stitches, jumps, trims, stops and colour changes its records encode, in order and at the encoded positions, as many threads as its table lists with the colours and texts it gives them, its metadata, and the pictures of PEC and PES files byte for byte. "
 "This holds for every record value the format can express, however the disk splits or interrupts the reads.",
 ["inputs", "fault_sequences"],
 "all record sequences and header variants each decoder accepts x short/interrupted reads",
 "Most of these readers have no test at all; the rest read one sample.",
 ["A10oReader.py", "A100Reader.py", "BroReader.py", "DatReader.py", "DsbReader.py", "DszReader.py", "EmdReader.py", "ExyReader.py", "FxyReader.py", "GtReader.py", "HusReader.py", "EmbCompress.py", "InbReader.py", "JpxReader.py", "KsmReader.py", "MaxReader.py", "MitReader.py", "NewReader.py", "PcdReader.py", "PcmReader.py", "PcqReader.py", "PcsReader.py", "SewReader.py", "ShvReader.py", "StcReader.py", "StxReader.py", "TapReader.py", "ZhsReader.py", "ZxyReader.py", "PhbReader.py", "PhcReader.py", "PesReader.py", "ReadHelper.py"],
 [("record decoders", W+"*Reader.py"), ("Huffman decompression", W+"EmbCompress.py")],
 ["stitches and threadlist of the loaded design"])

prop("C07", "Saving never modifies the design being saved",
 "Saving, exporting or converting a design, in any format and with any options (encoding switched off included), leaves that design's commands, threads and metadata and the caller's options exactly as they were. "
 "This holds when the save succeeds, when it fails at any point because of an I/O error or lack of memory, when it is cancelled at any point, and while other saves of the same design run concurrently.",
 ["inputs", "schedules", "fault_sequences"],
 "all designs x formats x options x failure and cancellation points x interleavings of concurrent saves of one design",
 "No test compares a design before and after a failing, cancelled or concurrent save.",
 ["EmbPattern.py", "EmbEncoder.py", "PecWriter.py", "PesWriter.py", "JefWriter.py", "Vp3Writer.py", "PngWriter.py", "TbfWriter.py", "CsvWriter.py", "SvgWriter.py"],
 [("normalised copy handed to writers", W+"EmbPattern.py write_embroidery/get_normalized_pattern"), ("settings copied", W+"EmbPattern.py write_embroidery")],
 ["source pattern and settings after the call"])

prop("C08", "An I/O error during a load or save is always reported",
 "If opening, reading, writing, seeking or closing a file reports an error (I/O error, no space, permission) during a load, save or conversion, the call raises; it never returns as if it had succeeded. "
 "Conversely, after a normal return every byte the format requires is in the file on disk, for the main file and for the TBF side file alike.",
 ["fault_sequences", "inputs"],
 "every I/O call of every reader and writer as the failing one, every error kind, for files opened by the library and for caller-supplied streams",
 "Tests never make I/O fail.",
 ["EmbPattern.py", "WriteHelper.py", "ReadHelper.py", "TbfWriter.py", "PesWriter.py", "Vp3Writer.py", "SvgWriter.py", "JsonWriter.py"],
 [("exceptions propagate through with-blocks", W+"EmbPattern.py read_embroidery/write_embroidery"), ("side file", W+"TbfWriter.py write_ct0")],
 ["exception or return of read/write/convert", "file content on disk"])

prop("C09", "Files the library opens are closed; caller streams stay open",
 "Every file the library opens for a load, save or conversion is closed, explicitly and not by the garbage collector, by the time the call ends, whether it returns or raises because of damaged input, an unsaveable design or an I/O error at any point. "
 "A stream supplied by the caller is never closed by the library.",
 ["fault_sequences", "inputs"],
 "all formats x success, damaged content, unsaveable designs and an error at any I/O call, path and stream arguments",
 "Tests never inspect handles and never fail mid-operation.",
 ["EmbPattern.py", "TbfWriter.py", "SvgWriter.py", "CsvReader.py", "JsonReader.py", "DszReader.py", "GtReader.py"],
 [("with-blocks around opened files", W+"EmbPattern.py read_embroidery/write_embroidery")],
 ["simulated file table at return or raise"])

prop("C10", "Loading any bytes ends in bounded time and memory",
 "For any content of the file, including truncated, bit-flipped, spliced or random data, every load either returns or raises within a number of steps and an amount of memory proportional to the file's size plus a fixed allowance.",
 ["inputs", "crash_points", "fault_sequences"],
 "all byte strings for every reader, sampled as corruptions of valid files",
 "Tests load only well-formed files.",
 ["ReadHelper.py", "EmbCompress.py", "HusReader.py", "PecReader.py", "PesReader.py", "Vp3Reader.py", "XxxReader.py", "U01Reader.py", "GcodeReader.py", "JpxReader.py", "ZhsReader.py", "ShvReader.py", "InfReader.py", "PmvReader.py", "TbfReader.py", "DatReader.py"],
 [("end-of-file tests in decoding loops", W+"*Reader.py"), ("table sizes", W+"EmbCompress.py")],
 ["executed steps", "address-space limit"])

prop("C11", "Loading damaged files raises or yields a well-formed design",
 "For any content of the file, a load that returns normally yields a usable design: numeric coordinates, integer commands, and threads that are thread objects with integer colours, so that inspecting it and saving it again as a machine file cannot fail because of missing values. Otherwise the load raises an ordinary error.",
 ["inputs", "crash_points", "fault_sequences"],
 "all byte strings for every reader, sampled as torn and corrupted versions of valid files",
 "Tests load only well-formed files.",
 ["JefReader.py", "PcdReader.py", "PcqReader.py", "PcsReader.py", "TbfReader.py", "Vp3Reader.py", "ShvReader.py", "HusReader.py", "DatReader.py", "PesReader.py", "PecReader.py", "ReadHelper.py"],
 [("None checks on short reads", W+"ReadHelper.py and *Reader.py")],
 ["structure of the loaded design"])

prop("C12", "A torn machine file never yields stitches the design does not have",
 "If a save of DST, EXP, JEF, U01 or TBF is cut off at any byte (crash, full disk, lost tail), or a file of any sequentially coded machine format is truncated at any byte, loading what is left either raises or yields needle penetrations that are a prefix of those of the complete file, with the same thread changes and stops between them, and never more or different ones.",
 ["crash_points", "inputs"],
 "all crash points of a save and all truncation points of a saved file x designs",
 "Tests never interrupt a save and never load a truncated file.",
 ["DstReader.py", "ExpReader.py", "JefReader.py", "U01Reader.py", "TbfReader.py", "PecReader.py", "PesReader.py", "Vp3Reader.py", "XxxReader.py", "DsbReader.py", "EmdReader.py"],
 [("short-read handling in record loops", W+"*Reader.py")],
 ["stitches of the loaded design"])

prop("C13", "Loading into an existing design only appends",
 "Loading a file into a design that already has content keeps the existing commands, threads and metadata values as they were and in place (metadata keys the file itself sets may be replaced) and adds the file's commands and threads after them. "
 "When the load fails part way because of damage or an I/O error, the existing commands and threads are still intact and in front.",
 ["histories", "inputs", "fault_sequences"],
 "all readers x existing designs x file contents x failure points",
 "Tests always load into an empty design.",
 ["EmbPattern.py", "DstReader.py", "JefReader.py", "PecReader.py", "PesReader.py", "PhbReader.py", "PhcReader.py", "ZhsReader.py", "ExyReader.py", "TapReader.py", "Vp3Reader.py", "CsvReader.py", "JsonReader.py"],
 [("readers append through the pattern's add methods", W+"*Reader.py"), ("post-processing passes", W+"EmbPattern.py interpolate_trims, interpolate_duplicate_color_as_stop")],
 ["pattern passed as the load target"])

prop("C14", "A save rejected before output leaves the old file untouched",
 "A save or conversion that cannot proceed - unsupported target type, a source that is unreadable, damaged or of unknown type, or a design whose normalisation for the format fails - raises and neither creates, truncates nor alters the destination. "
 "A conversion whose source fails part way through reading likewise leaves the destination as it was.",
 ["inputs", "fault_sequences", "histories"],
 "all rejected operations x pre-existing destination contents x read faults at any point of the source",
 "Tests check one unsupported extension and never look at the destination.",
 ["EmbPattern.py", "PyEmbroidery.py"],
 [("extension checked and pattern encoded before the file is opened", W+"EmbPattern.py static_write/write_embroidery/convert")],
 ["destination file", "exception"])

prop("C15", "Concurrent operations on different designs do not affect each other",
 "When several threads of a program load, save, convert or build different designs at the same time, or save one shared design that none of them changes, each operation gives exactly the result it gives when run alone, under every interleaving.",
 ["schedules", "inputs"],
 "all interleavings (at source-line granularity) of operations on up to 4 threads x formats x designs",
 "Tests are single-threaded.",
 ["EmbPattern.py", "EmbEncoder.py", "EmbThread.py", "EmbThreadPec.py", "EmbThreadJef.py", "PecWriter.py", "PecGraphics.py", "PesWriter.py", "Vp3Writer.py", "EmbCompress.py", "PngWriter.py", "JefWriter.py", "DatReader.py"],
 [("no shared mutable module state", W+"*.py")],
 ["bytes written and designs loaded by each task"])

prop("C16", "Copies and combined designs are independent of their sources",
 "A copy of a design, and a design made by combining others, is independent of them: any later change to either through the library's own operations, made by anyone in any order, leaves the other exactly as it was. Combining designs changes only the design being extended.",
 ["histories", "schedules", "inputs"],
 "all sequences of copy, combine and edit operations by up to 3 concurrent workers sharing a template design",
 "Tests make one copy and compare it once, without editing afterwards.",
 ["EmbPattern.py", "EmbMatrix.py"],
 [("copying of command lists and threads", W+"EmbPattern.py copy/__init__/add_pattern")],
 ["all designs after the run"])

prop("C17", "The same save always produces the same bytes",
 "Saving a design with given options produces the same bytes every time: whatever loads, saves, failures or cancellations happened before it in the process, in whatever process it runs, and whatever the hash seed. "
 "Loading a given file likewise always gives the same design. (JEF's date field and random filler colours are covered separately.)",
 ["histories", "configurations", "fault_sequences"],
 "all histories of prior operations, failures and cancellations x processes with different hash seeds x formats x designs",
 "Tests save each design once, in one process.",
 ["EmbPattern.py", "EmbEncoder.py", "EmbThread.py", "PecWriter.py", "PecGraphics.py", "PesWriter.py", "JefWriter.py", "Vp3Writer.py", "EmbThreadPec.py", "EmbThreadJef.py", "CsvWriter.py"],
 [("fresh palettes and encoder per call", W+"EmbThreadPec.py get_thread_set, EmbEncoder.py Transcoder")],
 ["bytes written", "design loaded"])

prop("C18", "Only JEF's date field depends on the clock",
 "A JEF save carries the current local date and time as 14 digits, one single moment of the save, unless the date option gives the 14 digits to use; nothing else the library writes or loads depends on the clock, however it jumps or is skewed, and the stitches of a JEF file never depend on it.",
 ["configurations", "inputs", "histories"],
 "all clock values, jumps during an operation and time zones x formats x designs",
 "Tests run at one moment and ignore the field.",
 ["JefWriter.py"],
 [("date string", W+"JefWriter.py write")],
 ["bytes written under a simulated clock"])

prop("C19", "Random filler colours never disturb a design",
 "When a design has fewer threads than colour blocks, the library may invent colours for the missing ones, but whatever the random source returns, needle penetrations, block structure, the colours of the given threads and the source design are unaffected; with all threads given nothing depends on the random source.",
 ["inputs", "configurations"],
 "all random outcomes (including colours equal to a neighbour's) x designs with missing threads x formats",
 "Tests cannot choose the random outcome; an unlucky draw that equals a neighbouring thread is never reached.",
 ["EmbPattern.py", "EmbThread.py", "EmbEncoder.py", "PecWriter.py", "PesWriter.py", "JefWriter.py", "Vp3Writer.py"],
 [("filler threads", W+"EmbPattern.py get_thread_or_filler/fix_color_count")],
 ["bytes written and designs loaded under a simulated random source"])

prop("C20", "Path, stream and block size make no difference",
 "Saving to a path, to an in-memory stream, or to any seekable stream opened by the caller produces the same bytes, and loading from any of them gives the same design, whatever buffer or block sizes the I/O layer uses, whichever of the library's functions and methods for the format does it, and whatever name precedes the extension (upper or lower case).",
 ["inputs", "configurations", "fault_sequences"],
 "all formats x designs x stream kinds (path, BytesIO, unbuffered-backed, spooled, minimal) x block sizes",
 "Tests use paths, and in-memory streams for one or two formats.",
 ["EmbPattern.py", "WriteHelper.py", "ReadHelper.py", "PesWriter.py", "Vp3Writer.py", "XxxWriter.py", "PecWriter.py", "DstWriter.py", "TbfWriter.py", "U01Writer.py", "InfWriter.py"],
 [("all output through write/seek/tell", W+"WriteHelper.py")],
 ["bytes written", "design loaded"])

prop("C21", "Chains of conversions keep the design",
 "Converting a file through any sequence of machine and lossless formats, with process restarts between steps and with failed conversions retried, keeps the needle penetrations and block boundaries at every step, within what each format in the chain stores; repeating a conversion of an already converted file reaches a stable result.",
 ["histories", "inputs", "fault_sequences"],
 "all conversion sequences up to length 6 x designs x failing and retried steps",
 "Tests convert a few pairs once and check counts.",
 ["EmbPattern.py", "EmbEncoder.py", "PyEmbroidery.py"],
 [("convert = load then save", W+"EmbPattern.py convert")],
 ["file after each step"])

prop("C24", "Saving honours encoder commands and save options",
 "Normalising a design, and saving it to a machine format, does what its inline encoder commands and the caller's options ask for: every needle point lies where the transformation in force at its command puts it (translate, scale and rotate options; MATRIX_TRANSLATE, SCALE, ROTATE, their ORIGIN forms and RESET, in their order), "
 "points are added only where a stitch longer than the limit is to be sewn or a tie-on or tie-off is asked for, and are added there; sequins are ejected, jumped to, stitched or removed as told; speed commands come through unless switched off; trims stand where the design trims and, when explicit trims are asked for, at each thread change, also in the saved file where its format stores them; "
 "no stitch or jump of the normalised design exceeds the maximum in force; the normalised design holds only low-level commands and one final END, with sequin mode on exactly around sequins, thread changes of the kind asked for, and each block's thread and needle as the design or its change sequence (SET_CHANGE_SEQUENCE) says. "
 "A command applies from where it stands, an option to the whole save, an option or command of one save never to another save, and the caller's options and design are left as they were. Formats that store whole units may be off by the rounding of each step (about one unit).",
 ["inputs", "histories", "fault_sequences"],
 "all command programs x option sets x target formats x earlier saves with other options x short and interrupted I/O",
 "Tests try single options on a handful of designs and mostly count commands; order, interplay and state left by an earlier save are unbounded.",
 ["EmbEncoder.py", "EmbPattern.py", "EmbMatrix.py", "EmbFunctions.py", "DstWriter.py", "ExpWriter.py", "JefWriter.py", "PecWriter.py", "PesWriter.py", "Vp3Writer.py", "U01Writer.py", "XxxWriter.py", "TbfWriter.py", "GcodeWriter.py"],
 [("command interpreter", W+"EmbEncoder.py transcode_main"), ("options", W+"EmbEncoder.py Transcoder.__init__"), ("thread changes", W+"EmbEncoder.py get_as_thread_change_sequence_events"), ("writer defaults", W+"EmbPattern.py write, *Writer.py constants")],
 ["commands and threads of the normalised design", "bytes of the saved file, loaded back"])

prop("C27", "Saved machine files are valid for other programs",
 "Whenever a save to DST, EXP, JEF, PEC, PES (v1, v6 and truncated), VP3, U01, XXX, TBF or G-code returns normally, the bytes on disk follow the format's published layout and mean the design to any other program: "
 "decoded without this library they give every needle penetration in order and place with the thread changes and stops between the same penetrations, and the file's parts agree with each other: header sizes, block lengths and pointers match the bytes, the stitch section ends in its end record, "
 "colour tables and colour counts match the changes in the stitches and hold the threads' colours where the format stores them (INF, COL and EDR colour lists too), point counts, design sizes, extents and end positions in the header match the stitches, PES segments repeat the PEC stitches with the right colours, and the PEC icons show the needle points of the design and of each colour block; a PMV pattern holds the design's points in its own grid, and a TBF settings file lists the needles of the stitches. "
 "This holds for any design within the format's capacity and whatever the disk did meanwhile short of reporting an error.",
 ["inputs", "histories", "fault_sequences"],
 "all designs x options x formats x save histories (earlier failed save, older file at the path) x short and interrupted I/O",
 "Tests read files back with the library's own readers, which ignore most header fields and would follow a writer that made the same mistake.",
 ["DstWriter.py", "ExpWriter.py", "JefWriter.py", "PecWriter.py", "PecGraphics.py", "PesWriter.py", "Vp3Writer.py", "U01Writer.py", "XxxWriter.py", "TbfWriter.py", "GcodeWriter.py", "PmvWriter.py", "InfWriter.py", "ColWriter.py", "EdrWriter.py", "WriteHelper.py", "EmbPattern.py", "EmbEncoder.py"],
 [("back-patched lengths and pointers", W+"PecWriter.py, PesWriter.py, Vp3Writer.py, XxxWriter.py"), ("headers from bounds and counts", W+"DstWriter.py, JefWriter.py, U01Writer.py, TbfWriter.py"), ("PEC icons", W+"PecGraphics.py")],
 ["bytes of the saved file"])

prop("C28", "Machine files made by other programs load as what they encode",
 "A well-formed DST, EXP, JEF, VP3, U01, XXX, TBF, G-code, CSV, COL, EDR or INF file loads as the stitches, jumps, trims, stops, colour and needle changes and speed commands its records encode, in order and at the encoded positions, with the threads, thread texts and metadata it lists, whichever program made it: "
 "with records and control codes this library's own writers never produce, any legal header length, table length, pointer, block position, text, line end or missing end record, and for G-code absolute and relative moves, inches and millimetres, upper and lower case, axes left out, comments and unrelated words; where the format has no trim record, runs of jumps become trims exactly as the caller's read options (trim_at, trim_distance, clipping, trims) or the format's defaults ask. "
 "This holds for every value the format can express, however the disk splits or interrupts the reads.",
 ["inputs", "fault_sequences"],
 "all record sequences and header variants each decoder accepts x short/interrupted reads",
 "Tests read files written by this library, which use a fraction of each format.",
 ["DstReader.py", "ExpReader.py", "JefReader.py", "EmbThreadJef.py", "Vp3Reader.py", "U01Reader.py", "XxxReader.py", "TbfReader.py", "GcodeReader.py", "CsvReader.py", "ColReader.py", "EdrReader.py", "InfReader.py", "ReadHelper.py", "EmbPattern.py", "EmbFunctions.py"],
 [("record decoders", W+"*Reader.py"), ("number decoding", W+"ReadHelper.py")],
 ["stitches, threadlist and metadata of the loaded design"])

prop("C26", "A design is exactly what its editing calls built",
 "After any history of calls on a design - stitches, moves, trims, stops, needle and colour changes given as relative, absolute or inserted commands at any position, blocks of points with and without a thread, threads and metadata in every accepted form, combining with another design (shifted, scaled or rotated), translating, transforming, centring, clearing, copying - it holds exactly the commands, threads and metadata those calls say, in that order and at those places. "
 "The rewriting passes (trims from jumps, stops as duplicate colours and back, frame eject, merged jumps, stable pattern) keep every needle point with its place, thread and halts and add, remove or replace only what they document; inspecting calls (counts, bounds, commands, blocks, matches, events) report exactly the design and change nothing. "
 "A call that fails or is interrupted part way leaves everything that was there before in front, unchanged; a design saved as JSON and loaded again, whatever the disk did meanwhile short of an error, continues as if it had never left memory.",
 ["inputs", "histories", "fault_sequences", "crash_points"],
 "all call sequences x argument forms x failing calls x interruption points x saves and reloads in between x disk faults",
 "Tests build a few designs with a handful of calls each; what a call does depends on the calls before it, on where an earlier one stopped, and on what was reloaded.",
 ["EmbPattern.py", "EmbThread.py", "EmbMatrix.py", "EmbFunctions.py", "JsonReader.py", "JsonWriter.py"],
 [("editing calls", W+"EmbPattern.py stitch, move, insert, add_block, add_stitch_*, __iadd__, add_pattern, append_translation"), ("passes", W+"EmbPattern.py interpolate_*, get_pattern_*, get_stable_pattern"), ("inspection", W+"EmbPattern.py get_*, count_*, bounds, extents, __eq__, __len__")],
 ["stitches, threadlist and extras after each call", "results of the inspecting calls"])

prop("C29", "Templated exports hold every command once, in balanced sections",
 "An export through GenericWriter with any set of templates holds, in this order: the pattern start, one entry per metadata item and per thread, then exactly one segment for each command of the (normalised) design that has a template - its own or the general one - in order, and the pattern end. "
 "Documents, colours and blocks begin at the first segment that belongs to them and end after a trim (block), colour change (block and colour) or end command (all), and every one that was begun is ended by the end of the export; commands without a template are as if absent. "
 "Every value shown - positions, differences from the segment before, whole-number positions and differences that add up, totals, bounds, counts, thread and metadata values - is the design's. The export changes neither the design nor the templates, does not depend on earlier exports, and holds for partial or interrupted writes. "
 "Joins, section numbers and the first and last stitch templates are not part of this.",
 ["inputs", "histories", "fault_sequences"],
 "all designs x template sets x options x earlier exports x short/interrupted writes",
 "Tests export one design through two fixed template sets and compare one of them with the G-code writer.",
 ["GenericWriter.py", "WriteHelper.py", "EmbPattern.py", "EmbFunctions.py"],
 [("template interpreter", W+"GenericWriter.py GenericWriter"), ("statistics", W+"GenericWriter.py set_document_statistics, update_positions")],
 ["text of the exported file"])

NA = [
 ("C22", "Matrix operations satisfy the algebra of affine maps", "Composing, inverting and applying the library's transformation matrices follows the algebra of affine maps for all finite values.", ["EmbMatrix.py"], "EmbMatrix"),
 ("C23", "Colour text parses to the right RGB value", "Every CSS colour name and every #RGB, #RRGGBB and #RRGGBBAA string parses to the colour it names.", ["EmbThread.py"], "parse_string_color, color_hex"),
 ("C25", "Nearest-colour search returns a closest palette entry", "The nearest-colour search returns an entry whose distance is minimal in the palette given to it.", ["EmbThread.py"], "find_nearest_color_index"),
]
for id, t, s, f, m in NA:
    prop(id, t, s, ["inputs"], "all argument values", "Tests sample a few values.", f, [(m, W + f[0])], ["return value"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as fo:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fo.write(json.dumps(p) + "\n")
print(len(P))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that long JSON lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech, **kw)))

p("P01", "Intel-HEX bytes land at their exact addresses",
  "For every Intel-HEX file (data, extended-linear-address, start and end records) that is accepted, the returned memory image contains, for each byte of each data record, exactly that byte at the address whose upper 16 bits come from the most recent preceding extended-linear-address record (0 if there is none) and whose lower 16 bits are the record address plus the byte's position in the record, modulo 65536. No other address is present in the image.",
  ["inputs"], "all Intel-HEX texts, any number and order of records, any record length, any address",
  "A test compares a handful of files; an off-by-one in a chunk boundary, a digit table entry, or a wrap-around only shows for particular lengths, digits or addresses.",
  ["ihex32/hex.go", "ihex32/record.go"],
  "line splitting, record slicing, hex digit table, per-record address arithmetic, chunked fan-out and in-order collection")
p("P02", "Damaged Intel-HEX files are rejected, never partly loaded",
  "An Intel-HEX file is accepted only if every non-blank line (a line of spaces, tabs or a DOS end-of-file mark counts as blank) is a complete record: it starts with ':', holds as many data bytes as its count field declares, consists of hexadecimal digits and its bytes including the checksum sum to 0 modulo 256. If any line fails this, an error is returned instead of an image with some of the data missing or altered.",
  ["inputs"], "all texts, the defect in any line, at any position of any chunk",
  "Whether a bad line is noticed depends on where it lies relative to the chunk boundaries and on what follows it; tests plant at most one bad checksum at one place.",
  ["ihex32/hex.go", "ihex32/record.go"],
  "record parsing errors are forwarded over an error channel; checksum workers report over a channel that is drained before the image is built")
p("P03", "Intel-HEX result does not depend on worker count or scheduling",
  "For every file the returned image and whether an error is reported are the same for any number of workers and any interleaving of the workers, including the workers that concurrently propagate the extended-linear-address offsets to the data records. Every data record ends up with the upper address of its nearest preceding extended-linear-address record on every schedule.",
  ["schedules", "configurations", "inputs"], "all interleavings of the per-record critical sections, all worker counts >= 1, all record sequences including repeated and zero upper addresses",
  "A unit test observes one schedule of one worker count; an early stop of one offset worker is only harmful when another one has not been there yet.",
  ["ihex32/hex.go", "ihex32/record.go"],
  "per-record mutex, workers that walk to the end unless the zone is already handled, wait groups before the image is built")
p("P04", "S-record bytes land at their exact 32-bit addresses",
  "For every Motorola S-record file of S3 data records that is accepted, the returned memory image contains, for each byte of each data record, exactly that byte at the record's 32-bit address plus the byte's position in the record, modulo 2^32, and no other address, whatever the number of workers. Header, count and termination records contribute no data and do not disturb the data of other lines.",
  ["inputs", "configurations"], "all S-record texts of S0/S3/S5/S6/S7 lines, any record length and address, any worker count >= 1",
  "Tests load one demo file; chunk boundaries, rare digits and address wrap-around need particular inputs.",
  ["srec19/hex.go", "srec19/record.go"],
  "line splitting, record slicing, hex digit table, address arithmetic, chunked fan-out and in-order collection")
p("P05", "Damaged S-record files are rejected, never partly loaded",
  "An S-record file is accepted only if every non-blank line (a line of spaces, tabs or a DOS end-of-file mark counts as blank) is an S-record of a known type and every S3 line is complete: as many bytes as its count field declares, hexadecimal digits only, and a byte sum including the checksum of 255 modulo 256. If any line fails this, an error is returned instead of an image with some of the data missing or altered.",
  ["inputs"], "all texts, the defect in any line, at any position of any chunk",
  "Whether a bad line is noticed depends on its position relative to chunk boundaries; tests plant at most one bad checksum.",
  ["srec19/hex.go", "srec19/record.go"],
  "record parsing errors are forwarded; checksum workers report over a channel that is drained before the image is built")
p("P06", "Two values for one flash address are always reported",
  "In both hex formats, if two data bytes of the file are assigned to the same address, reading the file returns an error; if no two are, the address check raises no error.",
  ["inputs", "configurations"], "all record sequences, collisions within one record, between records and across worker chunks",
  "Tests contain no collision across chunk borders, wrap-around or within one record.",
  ["ihex32/hex.go", "srec19/hex.go"], "membership test before every insertion into the image")
p("P07", "Fixed-parameter A2L keywords are read verbatim and in order",
  "For every token stream, reading an A2L keyword with a fixed number of parameters either returns an error or fills each of its parameters, in the order of the ASAP2 grammar, with exactly the value of the corresponding token (text verbatim, numbers as parsed, enumerations as named), marks each as set, and consumes exactly those tokens. It succeeds whenever the tokens are convertible.",
  ["inputs"], "all token streams, every fixed-parameter keyword of the grammar",
  "Only about thirty of some 130 keywords have a test, each with one sample value; swapped or skipped parameters in the rest are invisible.",
  ["a2l"], "one parser per keyword working on a shared token cursor")
p("P08", "A2L blocks store every parameter and sub-keyword in its own field",
  "For every token stream, parsing a /begin ... /end block stores mandatory parameters in grammar order and every optional or nested keyword in the field that belongs to this keyword, appending repeated blocks in order (a keyword that has a single field, such as RESERVED, keeps its last occurrence), and changes no other field. Nothing else that belongs to the block is dropped, duplicated or attributed to another keyword.",
  ["inputs"], "all token streams: any number and order of optional keywords, any nesting, any repetition",
  "The orders and combinations of some 50 optional keywords are unbounded; tests check that a demo file parses without an error, hardly any stored value.",
  ["a2l"], "per-block loop with a switch over keywords and set-flags for the positional parameters")
p("P09", "A2L blocks end only at their own end marker, errors propagate",
  "Parsing a block, project or file returns without error only if it stopped at the matching end marker (for the file: at the end of input); an end of input inside a block, a keyword not allowed in the block, an unconvertible parameter, or an error in any nested element makes the whole parse return an error.",
  ["inputs"], "all token streams, an error at any nesting depth",
  "Tests feed well-formed input; a swallowed nested error is only visible with a fault in precisely that element.",
  ["a2l"], "every parser returns (value, error); each caller stops at the first error")
p("P10", "No A2L token stream makes a parser crash or run forever",
  "For every token sequence, however malformed or truncated, every A2L element parser terminates and does not crash: no index out of range, no nil map write, no endless loop at the end of input.",
  ["inputs"], "all token streams of any length",
  "Termination and absence of crashes over all malformed inputs cannot be sampled.",
  ["a2l"], "cursor that sticks at a final empty token; every loop checks for the empty token")
p("P11", "A2L enumeration words map one-to-one to their constants",
  "Every enumeration word of the ASAP2 grammar (data types, sizes, byte orders, address types, axis attributes, index modes, ...) is parsed to its own constant and every other word yields an error; data type constants report the type and bit width the standard assigns (8, 16, 32 or 64).",
  ["inputs"], "all strings",
  "Tests name a few of about 90 words and no wrong ones.",
  ["a2l/enums.go", "a2l/tokens.go"], "switch per enumeration over named token constants")
p("P12", "Each module object is filed under its own kind and name",
  "When a module is parsed on one thread, each characteristic, measurement, axis, conversion method, table, record layout, group, function, unit and every other keyed object is stored in the collection of its kind under its own name with its parsed content (a later object of the same kind and name replaces an earlier one), unkeyed objects fill their fields, and no other entry is created.",
  ["inputs"], "all module token streams: any mixture and number of objects, any names",
  "Tests check a handful of names in one demo file.",
  ["a2l/module.go", "a2l/mod_par.go"], "main dispatch loop and map insertion per kind")
p("P13", "Parallel module parsing gives what the single-threaded parse gives",
  "For any number of workers and any schedule, parsing a module in parallel returns exactly the content its blocks define: every block of the module, wherever it lies, is parsed once and filed in the collection of its kind under its own name, unkeyed blocks fill their fields, nothing else appears, and the cursor ends at the end of the module; a block that cannot be parsed, or a module without an end, makes the parse fail. The call returns on every schedule. (For a properly nested module: name and long identifier first, then blocks with distinct names per kind, one end.)",
  ["schedules", "inputs", "configurations"], "all worker interleavings, all numbers of workers >= 1, all block mixtures, sizes and names, hence all places of the borders between workers",
  "A block on the border of two workers, a race or a mis-routed channel only shows for particular sizes, worker counts and schedules.",
  ["a2l/module.go"], "module cut at block borders, one channel and one collector per kind, wait groups, closing of channels after all workers ended")
p("P14", "Lookup by identifier finds every object of that name",
  "Looking up an identifier returns exactly the objects with that name among axes, characteristics, conversion methods and tables, functions, groups, measurements, record layouts, system constants and units of the selected module, each once and unchanged.",
  ["inputs", "configurations"], "all identifiers, all module contents, all subsets of kinds that contain the name",
  "4096 combinations of kinds, unbounded contents; one test looks up one name.",
  ["record_manager.go"], "sequence of map lookups")
p("P15", "Reading a calibration is all-or-nothing",
  "Reading an A2L/hex pair returns both parsed parts and no error if both readers succeed (and the log file can be created); if either reader fails, or the hex file type is neither .hex nor .s19, it returns an error and no partial content. The reader used is the one for the file's type, given by the extension of its name in upper or lower case, and the call returns on every schedule of the two concurrent readers.",
  ["inputs", "schedules"], "all outcomes of the two readers, all file names, both completion orders",
  "A test has one outcome and one order.",
  ["calib_data.go"], "two goroutines, result channels, error channel, wait group")
p("P16", "Alignment yields the next multiple of the proper border",
  "For every address and data type the alignment step yields the smallest address not below it that is a multiple of the alignment border, where the border is the one of the record layout for that type class, else the module-wide one, else the ASAP2 default (byte 1, word 2, long 4, 64-bit 8, float16 2, float32 4, float64 8); the result is taken modulo 2^32.",
  ["inputs", "configurations"], "all addresses, data types and alignment settings",
  "No test exercises it; 2^32 addresses times settings.",
  ["calib_data.go"], "modulo arithmetic per data type class")
p("P17", "Raw value bytes are exactly the image bytes at the address",
  "Fetching n bits at an address returns exactly the n/8 consecutive bytes of the image starting there, in order; if any of them is missing from the image, or n is not a multiple of 8, an error is returned and never a shortened or padded value.",
  ["inputs"], "all images, addresses and lengths",
  "No test exercises it; gaps in the image can be anywhere.",
  ["calib_data.go"], "loop of map lookups")
p("P18", "Raw bytes become the number their data type and byte order mean",
  "Converting raw bytes yields the integer or IEEE value these bytes denote in the given data type (unsigned or two's complement, width of the type) under the module's byte order; too few bytes, an unknown type or a mixed byte order yield an error, and no input crashes.",
  ["inputs", "configurations"], "all byte slices of any length, all data types, all byte orders",
  "No test exercises it; sign, width and order errors need particular bytes.",
  ["record_manager.go"], "switch over byte order and data type")
p("P19", "Record-layout components are found at their declared position",
  "The position map of a record layout names, for each position, exactly the component declared there, contains every component that has a position and nothing else, and reports two components on the same position as an error; the data type lookup returns the declared type of precisely the named component.",
  ["inputs", "configurations"], "all record layouts: any subset of components with any positions",
  "Dozens of components with arbitrary positions; no test exercises it.",
  ["a2l/record_layout.go"], "one block per component testing its set-flag and the position map")
p("P20", "Each record-layout component is read in place and stepped over",
  "Reading a scalar record-layout component (axis point counts, distances, offsets, shifts, identification) takes its data type and value from precisely that component at the aligned read position and moves the position to the first byte behind the value; on any error the position is unchanged. A single function value is read in the same way, with its raw bytes. The points of an axis are read likewise one behind the other, as many as declared, or an error is returned; reserved bytes are stepped over by their size; the start address is the hexadecimal value of the address text.",
  ["inputs", "configurations"], "all images, record layouts, positions and byte orders",
  "No test exercises it; about 25 near-identical functions in which one wrong letter changes the component.",
  ["distOp.go", "offsetOp.go", "shiftOp.go", "no_axis_pts.go", "no_rescale_x.go", "identification.go", "axis_pts.go", "fnc_values.go", "reserved.go"],
  "get value, convert, advance cursor")
p("P21", "Table and linear conversions give the value the method defines",
  "Converting an internal value by an identical, linear or table conversion returns the value the A2L conversion defines: the value itself, a*x+b, the output of the first table row whose input equals the value (or whose range, both limits included, contains it), else the default value; a missing table, missing coefficients or a missing default yields an error, as do the conversion types this library does not implement.",
  ["inputs", "configurations"], "all values, all conversion methods and tables of any size",
  "No test exercises it; tables are unbounded.",
  ["compu_methods.go"], "lookup loops over conversion tables")
p("P22", "System constants are returned with their defined value",
  "Asking for a system constant of the selected module returns exactly the text defined for that name, and an error if the name is undefined or has no value.",
  ["inputs"], "all names and module contents",
  "No test exercises it.",
  ["record_manager.go"], "map lookup")
p("P23", "The tokens of an A2L text do not depend on how many workers read it",
  "For every number of workers and every schedule the tokenizer delivers the tokens of the text as a whole (by the lexical rules, P24), in the order of the text and followed by one end marker: a quoted text, a comment or a /begin that reaches across the border of two workers' parts is read as if there were no border, no line is dropped or read twice, and whether the file is parsed in parallel is decided by the number of modules in the whole text. No worker blocks, and no two share memory.",
  ["schedules", "configurations", "inputs"], "all texts, all worker counts >= 1, all schedules",
  "One worker count and schedule per test run; where the borders fall depends on the machine.",
  ["a2l/token_generator.go"], "chunked fan-out, one channel per worker, collection in worker order, a second pass over the whole text if a part ends within a token")
p("P24", "The A2L text becomes exactly the tokens the lexical rules define",
  "For every text the tokenizer ends without a crash and delivers, in order: a quoted text (from a word whose first mark is a quotation mark to the first word at which the number of quotation marks is even, words joined by one blank), /begin or /end joined with the following word, and every other word between white space as it stands; a line comment takes away the word it starts in and the rest of the line, a block comment everything up to the word with the first end mark behind its begin, whichever of quotation mark, // and /* stands first in a word decides. An escaped quotation mark is an apostrophe. Where a quoted text, comment, /begin or /end has no end, or a word has a stray slash, the tokens end in front of it.",
  ["inputs"], "all texts of any length",
  "Texts are unbounded; combinations of quotes, comments, line ends and borders are not enumerable.",
  ["a2l/token_generator.go"], "cursor functions over lines and words")
p("P25", "An A2L file is read as a whole or an error is returned",
  "Parsing an A2L file returns an error if the file cannot be read, its text cannot be divided into tokens or the tokens do not parse; otherwise it returns exactly what the parser makes of the tokens of the file's whole text. The text is the content of the file without escapes (a backslash and the character behind it) and without unprintable characters at its two ends; nothing else is dropped, added or changed.",
  ["inputs", "fault_sequences"], "all paths and file contents",
  "Files are unbounded; unreadable files and malformed contents are not enumerable.",
  ["a2l/a2l.go"], "read, clean, tokenise, parse in sequence with error returns")
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")

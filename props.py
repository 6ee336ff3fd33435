"""The properties: what gen.py turns into properties.jsonl and MANIFEST.json."""

PROPS = []
A = "api/include/cmp/"
S = "api/src/cmp/"


def P(pid, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    PROPS.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": observe,
            "hook_needed": None,
        },
        "technique": technique, "note": note,
    })


LOCK = "Exhaustive within the stated bounds, on the real code next to an independent reference model; "

P("U01", "Every code point is stored exactly, and anything else is refused",
  "Appending, prepending or inserting any Unicode scalar value puts exactly its standard encoding at the requested place "
  "of a UTF-8, UTF-16, UTF-32 or wide string, and reading that string by code point gives the value back from either direction. "
  "A surrogate or a value above U+10FFFF is refused with an invalid-code-point error and leaves the string as it was.",
  ["inputs"], "every 21-bit value and values beyond, every string form, every insertion point, strings of every length around a power of two up to 2^16",
  "Tests encode a handful of code points; the bit arithmetic has a boundary at every encoded length, at the surrogate gap and at U+10FFFF, in each form.",
  [S + "unicode/algorithms.ipp", S + "unicode/by_code_point.cpp", S + "unicode/examiners.ipp", S + "unicode/impl/impl.cpp"],
  [("insert_code_point, append_code_point, prepend_code_point", S + "unicode/algorithms.ipp"),
   ("decoding of a sequence", S + "unicode/by_code_point.cpp")],
  ["the target string after the call", "the value read back", "the exception type"],
  "exhaustive enumeration of all code points x forms x operations against a reference codec",
  LOCK + "all 1,114,112 values are covered, so only the base strings are a sample.")

P("U02", "Walking a string by code point agrees in every direction and stride",
  "Over any well-formed string, incrementing, decrementing, moving by any in-range count, post-increment and reverse iteration "
  "all visit the same sequence of code points at the same positions, and every iterator they yield keeps working in both directions. "
  "Iterators are equal exactly when they are at the same position.",
  ["inputs", "histories"], "every well-formed string up to a length, every position, every iterator operation and stride, followed by walks to both ends, strings of every length around a power of two up to 2^16",
  "Tests walk one or two strings forward; the forward and backward steps, the strided moves and the four encodings are separate code whose agreement depends on the mix of sequence lengths.",
  [A + "unicode/by_code_point.hpp", S + "unicode/by_code_point.cpp"],
  [("iterator arithmetic", S + "unicode/by_code_point.cpp")],
  ["dereferenced values", "iterator equality", "range size"],
  "explicit-state exploration: every (string, position) state and every iterator operation from it",
  LOCK + "strings are bounded in length; the alphabet has every encoded length and every boundary.",
  [("position", "current place between begin and end", A + "unicode/by_code_point.hpp")])

P("U03", "Malformed text is detected where it starts and never read past",
  "Reading, stepping over or converting a malformed UTF-8 or UTF-16 sequence (truncated, overlong, stray, surrogate or out-of-range) raises an error "
  "instead of yielding a code point: iterated-past-end when the text ends inside an otherwise good sequence, invalid-encoding otherwise. "
  "Validation returns the position just past the last valid code point (UTF-32 and wide included), the end exactly when all of it is valid, "
  "and no memory outside the text is read in either direction.",
  ["inputs"], "every sequence of boundary code units up to a length, every 2-byte and (thorough) 3-byte sequence, every 16-bit unit next to every boundary unit, errors at every place around a power of two up to 2^16",
  "Tests hold one malformed string; there are dozens of malformed shapes per encoded length, each of which may be cut at the end of the text.",
  [S + "unicode/by_code_point.cpp", S + "unicode/impl/impl.cpp", S + "unicode/algorithms.ipp"],
  [("sequence decoding and checks", S + "unicode/impl/impl.cpp"), ("validate_string", S + "unicode/algorithms.ipp"),
   ("advance and retreat", S + "unicode/by_code_point.cpp")],
  ["exception type", "position returned by validation", "address sanitizer on an exactly sized block"],
  "exhaustive enumeration of unit sequences against a table-driven reference decoder, in exactly sized heap blocks",
  LOCK + "AddressSanitizer is the oracle for reads outside the text.")

P("U04", "Conversion between encodings preserves the text exactly",
  "Converting valid text between any two of narrow (ASCII), UTF-8, UTF-16, UTF-32 and wide strings gives the standard encoding of the same code points, "
  "whether the source is a string, a view, an array or a terminated pointer. "
  "The reported size of a string is its number of code units.",
  ["inputs"], "all code point sequences up to a length over every encoded-length boundary, all 25 pairs of forms, five kinds of source, lengths around every power of two up to 2^16",
  "Tests convert a few fixed strings between some pairs; the 25 pairs times the boundary code points and embedded or leading zeros are not reached.",
  [S + "unicode/algorithms.ipp", S + "unicode/algorithms.cpp", S + "unicode/by_code_point.cpp"],
  [("convert_string, to_*string", S + "unicode/algorithms.ipp"), ("string_size", S + "unicode/algorithms.cpp")],
  ["the converted string"],
  "exhaustive enumeration of code point sequences x form pairs against a reference codec",
  LOCK + "narrow strings are claimed for ASCII only, as documented.")

P("U05", "Prefix and suffix tests compare code points, whatever the encodings",
  "A string is reported to start (end) with another exactly when the other's code points are a prefix (suffix) of its own, "
  "for every combination of string forms, including empty, equal and longer operands. "
  "The comparison neither accepts a partial code point nor reads outside either string.",
  ["inputs"], "all pairs of strings up to a length over code points that share code units, all 25 form pairs, and every code point against its neighbours, lengths around every power of two up to 2^16",
  "Tests use a few ASCII strings; the failures are at code points sharing leading or trailing units and at operands of different lengths.",
  [S + "unicode/algorithms.ipp", S + "unicode/by_code_point.cpp"],
  [("starts_with, ends_with", S + "unicode/algorithms.ipp")],
  ["the boolean result"],
  "exhaustive enumeration of string pairs x form pairs against prefix/suffix of code point lists",
  LOCK + "operands are bounded in length.")

P("U06", "Character classification matches the Unicode definitions",
  "For every value, the tests for a valid code point, white space, a 7-bit value, a digit of a radix from 2 to 36, "
  "and for the role of a UTF-8 byte or a UTF-16 unit (standalone, leading, trailing, surrogate) answer as the Unicode standard defines them.",
  ["inputs"], "every value up to 1FFFFF and around every higher power of two, every byte, every 16-bit unit, every radix",
  "Tests try single members of each class; a wrong boundary or a missing member changes how text is split, validated and parsed elsewhere.",
  [S + "unicode/examiners.ipp", A + "unicode/constants.hpp"],
  [("is_* examiners", S + "unicode/examiners.ipp")],
  ["the boolean result"],
  "exhaustive enumeration of all values against tables written from the standard",
  LOCK + "complete over the code space.")

P("N01", "Integers are formatted as their exact positional numeral",
  "For every integer of every width, formatting gives the sign the format asks for, then the digits of its magnitude in the chosen radix "
  "without leading zeros, with a separator before every third digit from the right when one is chosen. "
  "Zero is a lone 0 without a sign, and all string forms agree.",
  ["inputs"], "every 8- and 16-bit integer and the neighbourhood of every power of two and of the radix up to 64 bits, every radix, sign and separator setting",
  "Tests format a few small numbers; minimum values, digit-count and group boundaries differ per radix and type.",
  [S + "unicode/formatters.ipp"],
  [("format_integer", S + "unicode/formatters.ipp")],
  ["the formatted string"],
  "exhaustive enumeration of values x radices x settings against a reference numeral generator",
  LOCK + "wider types are covered at their edges.")

P("N02", "Integer texts are accepted exactly when well-formed and in range",
  "Parsing an integer text yields the value it denotes when it is an optional sign allowed by the format followed by digits of the radix (either case), "
  "correctly grouped in threes when a separator is chosen, and the value fits the requested type. "
  "Any other text raises an error (out-of-range when only the size is wrong, a parsing error otherwise) and never a wrong value; "
  "every formatted integer parses back to itself.",
  ["inputs"], "every text up to a length over digits, letters, signs, separators and a space, every code point in a digit's place, values in and out of range around every power of two and of the radix, all ten integer types and all string forms",
  "Tests parse a handful of good texts; wrong acceptance, wrong grouping and overflow need specific texts in a specific radix and type.",
  [S + "unicode/parsers.ipp", S + "unicode/parsers.cpp"],
  [("parse_integer", S + "unicode/parsers.ipp")],
  ["the parsed value", "the exception type"],
  "exhaustive enumeration of texts up to a length against a reference grammar with 127-bit arithmetic",
  LOCK + "texts are bounded in length apart from dedicated long and edge families.")

P("N03", "Floating-point values are formatted digit by digit exactly",
  "Formatting a finite value gives its sign as the format asks, the exact digits of its whole part in the radix with the chosen grouping, and its fraction's digits after the chosen "
  "radix character, truncated or zero-padded as the place limit says; with no limit every digit of a fraction that ends is given. "
  "The fraction's digits are exact where the type has room for them beside the whole part, and otherwise to within its rounding. "
  "All values, however large, and all string forms are formatted this way; zero has no sign.",
  ["inputs"], "multiples of 1/256, 19 mantissas at every binary exponent of a wide range, mantissas of 64 bits with whole parts up to 2^16320, three types, radices, every sign, separator and radix character, place limits up to 1,000",
  "Tests format a few decimal values; large magnitudes, negative fractions, exact multiples and non-decimal radices are separate paths.",
  [S + "unicode/formatters.ipp"],
  [("format_floating_point", S + "unicode/formatters.ipp")],
  ["the formatted string"],
  "exhaustive enumeration of dyadic values x formats against exact big-number conversion",
  LOCK + "the reference computes digits exactly from the binary value.")

P("N04", "Floating-point texts are accepted exactly when well-formed, with their value",
  "Parsing a floating-point text yields the value it denotes, to within rounding, exactly when the text is an optional allowed sign, a correctly grouped whole part and, "
  "if present, the chosen radix character with a fraction that obeys the place limit. "
  "Any other text raises a parsing error, as does one whose value lies beyond the type's largest; a formatted value that ends within the limit parses back to itself, to within rounding.",
  ["inputs"], "every text up to a length over digits, signs, point and separator under a family of formats, decimal values of up to 15 whole digits and 4 places, whole parts of up to 401 digits in five radices, fractions of many digits, every code point in a digit's place, place limits up to 352, multiples of 1/1024 in every radix and values up to 2^1023",
  "Tests parse a few good texts; signs on fractions, place limits, and point/separator confusion are only met by particular texts.",
  [S + "unicode/parsers.ipp", S + "unicode/parsers.cpp"],
  [("parse_floating_point", S + "unicode/parsers.ipp")],
  ["the parsed value", "the exception type"],
  "exhaustive enumeration of texts up to a length against a reference grammar and value",
  LOCK + "values are compared with a rounding tolerance of a few units in the last place.")

P("N05", "Formats hold what was set, and booleans round-trip through any texts",
  "A number format reports exactly the settings it was given, in any order of setting and copying, and a radix outside 2 to 36 is refused leaving it unchanged. "
  "Booleans are formatted as the format's true and false texts, and parsing accepts exactly those texts: any other raises an error.",
  ["inputs", "histories"], "all setter sequences up to a length, all radices up to 70 and around powers of two, all short true/false text pairs and inputs in every string form, near misses of longer texts",
  "Tests read back one setting each; interference between setters and equal, empty or prefix-sharing boolean texts need specific combinations.",
  [S + "unicode/formats.cpp", S + "unicode/parsers.ipp", S + "unicode/formatters.ipp"],
  [("setters", S + "unicode/formats.cpp"), ("parse_bool, format_bool", S + "unicode/parsers.ipp")],
  ["getter results", "the parsed value", "the exception type"],
  "exhaustive enumeration of setter histories and of boolean texts against a record model",
  LOCK + "histories and texts are bounded in length.",
  [("format settings", "radix, sign, separator, radix character, place limit", A + "unicode/formats.hpp")])

P("R01", "Container resources behave as an array of bytes with one cursor",
  "Whatever the sequence of reads, writes, seeks, relative moves and flushes, and whatever the buffer capacity, a container resource behaves as an array of bytes with a cursor: "
  "reads return the bytes there and how many, writes replace or extend them at the cursor, gaps are zero, the position and the end test agree with the cursor. "
  "A container is never grown beyond the element holding the last byte written.",
  ["histories", "inputs"], "all operation histories up to a length over reads, writes, seeks (before, inside and beyond the data), moves and flushes, 7 buffer capacities, 3 initial contents, 6 element types, owned and referenced containers, idle operations (of zero bytes or to the same place) among them, transfers and contents around powers of two up to 2^16, positions around powers of two up to 2^60",
  "Tests write then read once with the default capacity; the buffer's interplay with the cursor only shows for certain histories and capacities.",
  [A + "io/impl/ctr_essence.hpp", S + "io/impl/ctr_essence.ipp", S + "io/io_buffer.cpp", S + "io/seekable_transfer_resource.ipp",
   S + "io/seekable_io_resource.ipp", S + "io/opaque_container_io_resource.ipp", S + "io/transparent_container_io_resource.ipp"],
  [("buffering", S + "io/io_buffer.cpp"), ("container access", S + "io/impl/ctr_essence.ipp")],
  ["bytes read", "position and end test after every step", "container content"],
  "explicit enumeration of all operation histories on the real classes in lock step with a byte-array model",
  LOCK + "histories have 3 or 4 operations in the quick tier and up to 5 in the thorough one.",
  [("buffer", "bytes read ahead or waiting to be written", A + "io/io_buffer.hpp"), ("cursor", "the position", A + "io/impl/ctr_essence.hpp")])

P("R06", "Copies and moves of owning container resources are independent",
  "Copying a resource that owns its container gives one that continues from the same content, position and pending data, and from then on neither affects the other. "
  "A moved-to resource carries on exactly where its source was.",
  ["histories"], "all 4-operation histories of two objects with reads, writes, seeks, flushes, copy/move construction and assignment, 5 buffer capacities",
  "Tests copy a freshly made resource; sharing shows only when both continue with buffered data in a certain state.",
  [S + "io/opaque_container_io_resource.ipp", S + "io/opaque_container_input_resource.ipp", S + "io/opaque_container_output_resource.ipp", S + "io/io_buffer.cpp"],
  [("copy and move operations", S + "io/opaque_container_io_resource.ipp")],
  ["bytes read, position and content of both objects"],
  "explicit enumeration of all histories of two objects in lock step with two byte-array models",
  LOCK + "histories have 4 operations in the quick tier.",
  [("buffer", "bytes read ahead or waiting to be written", A + "io/io_buffer.hpp")])

P("R02", "Files behave as an array of bytes with one cursor",
  "Whatever the sequence of reads, writes, seeks, relative moves and flushes on an open file, and whatever the buffer capacity, the file behaves as an array of bytes with a cursor: "
  "reads return the bytes there and how many, writes replace or extend them at the cursor, gaps are zero, and the position and the end test agree with the cursor. "
  "After it is closed the file on disk holds exactly that array.",
  ["histories", "inputs"], "all operation histories up to a length over reads, writes, seeks (before, inside and beyond the data), moves and flushes, input, output and combined access, buffer capacities from 0 to 1024, several initial contents, idle operations (of zero bytes or to the same place) among them, transfers and contents around powers of two up to 2^16, positions around powers of two up to 2^42",
  "Tests write then read once with the default capacity; the interplay of the buffer, the kernel's file offset and the cursor only shows for certain histories and capacities.",
  [S + "io/file.cpp", S + "io/impl/unix_like/unix_like_file.cpp", S + "io/io_buffer.cpp", S + "io/seekable_transfer_resource.ipp",
   S + "io/seekable_io_resource.ipp", S + "io/input_resource.cpp", S + "io/output_resource.cpp"],
  [("buffering", S + "io/io_buffer.cpp"), ("native transfers and seeks", S + "io/impl/unix_like/unix_like_file.cpp")],
  ["bytes read", "position and end test after every step", "the file's content after closing"],
  "explicit enumeration of all operation histories on real files in lock step with a byte-array model",
  LOCK + "histories have 3 or 4 operations in the quick tier and up to 5 in the thorough one.",
  [("buffer", "bytes read ahead or waiting to be written", A + "io/io_buffer.hpp"), ("file offset", "where the kernel reads or writes next", A + "io/impl/unix_like/unix_like_file.hpp")])

P("R03", "Interrupted and partial system transfers lose and repeat nothing",
  "When the operating system interrupts a file transfer or completes only part of it, the operation still has exactly the effect it would have had in one piece: no byte is lost, repeated or reordered. "
  "When reading, or writing without a buffer, fails outright the operation returns just the number of bytes it did transfer, and later operations still see the file's true content.",
  ["fault_sequences", "histories"], "every placement of up to two interruptions or partial transfers, or read and write errors, at every system call of all operation histories up to a length, and every transfer interrupted up to a hundred times or cut short, with transfers of up to 65539 bytes",
  "Tests never see a short or interrupted transfer; each system call of a history is a separate place for one.",
  [S + "io/impl/unix_like/unix_like_file.cpp", S + "io/io_buffer.cpp"],
  [("transfer loops", S + "io/impl/unix_like/unix_like_file.cpp")],
  ["bytes read", "the file's content", "the exception type"],
  "stateless search over every fault placement at the wrapped read and write calls, in lock step with a byte-array model",
  LOCK + "up to two faults per history of four operations (five in the thorough tier); what becomes of buffered data that cannot be written is not claimed.",
  [("buffer", "bytes read ahead or waiting to be written", A + "io/io_buffer.hpp")])

P("R04", "What was flushed or closed survives the loss of the process",
  "If the process is lost at any point, the file holds every byte that was written before the last completed flush or close, unchanged, and beyond that only bytes of later writes at the places they were written to. "
  "With a zero-capacity buffer every completed write counts as flushed, and asking for input from a resource tied to an output delivers that output first.",
  ["crash_points", "histories"], "the process lost after every operation and at every system call of all write, seek, flush and read histories up to a length, at every buffer capacity, also when all transfers are interrupted or cut short, with writes of up to 65538 bytes",
  "Tests look at the file only after an orderly close.",
  [S + "io/io_buffer.cpp", S + "io/output_resource.cpp", S + "io/io_resource.cpp", S + "io/impl/unix_like/unix_like_file.cpp"],
  [("flush", S + "io/output_resource.cpp"), ("tied output", S + "io/input_resource.cpp")],
  ["the file's content as another reader sees it at each crash point"],
  "enumeration of all histories and all crash points between and inside operations, against the set of contents the model allows",
  LOCK + "loss of the machine's own memory is out of scope: what the kernel holds counts as durable.",
  [("buffer", "bytes waiting to be written", A + "io/io_buffer.hpp")])

P("R05", "File objects own their file: open, close, move and access mode",
  "Opening, closing, reopening, moving and destroying file objects in any order never leaks or doubly closes a descriptor, never loses written data, and never lets one file's data reach another. "
  "A moved-to file carries on exactly where its source was and the source is closed; the open test, the access mode and failure to open a missing file are reported as they are, opening needs the permissions of its mode and no others, and transfers that the mode does not allow are refused.",
  ["histories"], "all operation histories up to a length of two file objects and two paths over opening in each mode, closing, writing, reading, moving and destroying, also when the lowest descriptors are free; every kind of path in every mode; every combination of permissions; six files closed in every order",
  "Tests open one file once; stale buffers, leaked descriptors and data following the wrong object need a history of two objects.",
  [S + "io/file.cpp", S + "io/impl/unix_like/unix_like_file.cpp", A + "io/file.hpp"],
  [("open, close, move", S + "io/file.cpp"), ("native handle", S + "io/impl/unix_like/unix_like_file.cpp")],
  ["open descriptors of the process", "content of both files", "open test and access mode", "the exception type"],
  "explicit enumeration of all histories of two file objects in lock step with a model of objects, paths and descriptors",
  LOCK + "histories are of two objects and two paths; opening a directory for reading is not claimed.",
  [("native handle", "the descriptor, or none", A + "io/impl/unix_like/unix_like_file.hpp")])

P("R07", "A resource of one's own is buffered without loss or needless waiting",
  "A program that defines an input or output resource by its own raw transfers gets exactly the source's bytes in order, whatever pieces the raw reads come in, with fewer than asked for only when the source had nothing; what was read ahead is kept for later. "
  "The source is never asked for anything once the request can be met, never for more at once than the request or the buffer's capacity, and never before tied output is out. "
  "The sink gets exactly what is written, once and in order, at the latest when flushed, with at most the buffer's capacity held back. Both ways through one resource that cannot seek do not mix.",
  ["histories", "fault_sequences"], "all histories of requests and writes up to a length over several sizes and buffer capacities, every placement of up to two raw reads that hand over nothing, one byte, half or all but one byte, all raw reads cut alike, ties, data and text streams on top, sizes to 65537",
  "Tests use containers and files, whose raw transfers are always complete.",
  [S + "io/input_resource.cpp", S + "io/output_resource.cpp", S + "io/io_buffer.cpp", S + "io/io_resource.cpp"],
  [("read_buffered", S + "io/input_resource.cpp"), ("write_buffered", S + "io/output_resource.cpp"), ("turns of reading and writing", S + "io/io_resource.cpp")],
  ["raw transfers and their order", "bytes and counts of read and write"],
  "explicit enumeration of all request histories x raw transfer behaviours on user-defined resources over the real base classes",
  LOCK + "raw writes are complete; raw transfers don't throw; whether a request for zero bytes fills the buffer is left open.",
  [("m_buffer", "read-ahead input or pending output", A + "io/transfer_resource.hpp")])

P("S01", "Binary streams write and read every value in the chosen byte order",
  "A data stream writes each fundamental value as its bytes in the stream's byte order, in order, with nothing between them, and reading with the same byte order gives the same values back, whatever the buffer capacity and however often the byte order is changed. "
  "Reading a value of which not all bytes are there is reported as an end-of-input error.",
  ["inputs", "histories"], "all 8- and 16-bit values, every value of every byte of the wider types, both byte orders, all sequences of values and byte-order changes up to a length, cut short at several places, arrays of lengths around every power of two up to 2^16",
  "Tests write a few values in one order; each width has its own reversal and alignment with the buffer.",
  [S + "io/data_input_stream.ipp", S + "io/data_output_stream.ipp", S + "io/data_io_stream.ipp", S + "io/general.cpp"],
  [("insertion and extraction", S + "io/data_output_stream.ipp"), ("byte reversal", S + "io/general.cpp")],
  ["the bytes written", "the values read", "the exception type"],
  "exhaustive enumeration of values and of operation sequences against a byte-level reference",
  LOCK + "wide values vary one byte at a time over two backgrounds.",
  [("byte order", "the stream's endianness", A + "io/data_input_stream.hpp")])

P("S02", "Text output is the exact encoding of what was written",
  "Writing text of any form to a text stream produces exactly the same code points, in order, in the stream's encoding and byte order; a byte order mark is written when asked for and only then. "
  "Malformed UTF-8 or UTF-16 text being converted raises an error, after at most its well-formed beginning was written.",
  ["inputs", "histories"], "every scalar value, all strings of boundary code points up to a length, all kinds of source, all encodings and byte orders, all sequences of stream operations up to a length, texts of lengths around every power of two up to 2^16",
  "Tests write one string per encoding; every pair of source and target form and byte order is a separate conversion.",
  [S + "io/text_output_stream.ipp", S + "io/text_io_stream.ipp", S + "unicode/algorithms.ipp"],
  [("insertion operators", S + "io/text_output_stream.ipp")],
  ["the bytes written", "the exception type"],
  "exhaustive enumeration of code points, strings and operation sequences against a reference codec",
  LOCK + "text already in the stream's own form is passed on as it is and is not claimed to be validated.",
  [("encoding, byte order", "the stream's settings", A + "io/text_output_stream.hpp")])

P("S03", "Text input yields exactly the code points, words and lines that are there",
  "Reading a text stream by code point, word, line or whole yields exactly the code points of the source, in order, split where white space or line ends are, in any target form and from any encoding and byte order; successive reads continue where the last stopped. "
  "A byte order mark is consumed when asked for and sets the byte order, and text without one loses nothing. "
  "Malformed or truncated text raises an error rather than yielding wrong code points.",
  ["inputs", "histories"], "all texts up to a length over line ends, white space and every encoded length, all sequences of read operations, every scalar value, all sequences of boundary bytes and units up to a length, all encodings and changes between them, byte orders, marks whole and cut short, targets and several buffer capacities, words and lines of lengths around every power of two up to 2^16",
  "Tests read one short text per encoding; boundaries of words, lines, the text and the buffer meet differently in each history.",
  [S + "io/text_input_stream.ipp", S + "io/text_io_stream.ipp"],
  [("extraction, read_line, read_all, byte order mark", S + "io/text_input_stream.ipp")],
  ["the strings and code points read", "the exception type", "the byte order after a mark"],
  "exhaustive enumeration of texts and read histories against a reference reader",
  LOCK + "a lone carriage return being dropped is a known finding.",
  [("encoding, byte order", "the stream's settings", A + "io/text_input_stream.hpp")])

P("S04", "Standard streams deliver everything, in order, and before asking for input",
  "Everything written to the standard output and error streams reaches the process's output exactly once and in order, at the latest when flushed or when the program ends, even when transfers are interrupted or partial. "
  "Standard input yields exactly what arrives, however it is cut up, and asking for it delivers pending output first and never waits for more than the request needs. "
  "A transfer that fails outright repeats and invents nothing, does not affect the other streams, and what is written or asked for afterwards still gets through.",
  ["histories", "fault_sequences"], "all operation histories up to a length over the three streams, several inputs and buffer capacities, every placement of up to two interrupted, partial or failed transfers, every transfer interrupted up to a hundred times or cut short, output, lines and words of lengths around every power of two up to 2^16",
  "Tests cannot drive the terminal, and see neither the order of system calls nor short transfers.",
  [S + "io/uio.cpp", S + "io/impl/common/common_uio.cpp", S + "io/impl/unix_like/unix_like_uin.cpp", S + "io/impl/unix_like/unix_like_uout.cpp"],
  [("standard stream resources", S + "io/impl/unix_like/unix_like_uout.cpp"), ("tie of input to output", S + "io/impl/common/common_uio.cpp")],
  ["the sequence of read and write calls with their bytes"],
  "enumeration of all histories and fault placements over wrapped read and write calls that act as the terminal",
  LOCK + "the terminal is a stand-in that records the order of transfers.",
  [("buffers", "pending output and read-ahead input", A + "io/impl/common/common_uio.hpp")])

P("S05", "Numbers and words written as text read back as themselves",
  "Integers, fractions that end, booleans and words written to a text stream with white space between them read back as the same values in the same order, in every encoding, byte order and buffer capacity. "
  "Extracting a number from a word that is not one raises an error instead of giving a value.",
  ["inputs", "histories"], "all 8- and 16-bit integers, edges of eight integer types, multiples of 1/64, sequences of mixed values, all words up to a length over nine characters, large floating-point values, long sequences",
  "Tests read back a few decimals in the default encoding.",
  [S + "io/text_input_stream.ipp", S + "io/text_output_stream.ipp", S + "unicode/parsers.ipp", S + "unicode/formatters.ipp"],
  [("numeric insertion and extraction", S + "io/text_input_stream.ipp")],
  ["the text written", "the values read", "the exception type"],
  "exhaustive enumeration of values and value sequences through a write-then-read round trip",
  LOCK + "floating-point values are dyadic with few digits, so their round trip is exact.")

P("T01", "The test runner reports every outcome, and messages keep their order",
  "For every module, running its tests returns the number of tests that failed and reports each test once with its padded index, name, outcome and completed stages, then the totals and every failure with the stage it failed on. "
  "Messages come out in the order they went in, one per construction, copy, move and destruction of a dummy, and none is left from one test to the next.",
  ["programs", "histories"], "all modules of up to six tests over outcome, stages and messages left, modules of up to 1001 tests with failures in one place, functions announcing several tests, repeated runs, all sequences of six message operations",
  "The repository's own tests run on this runner: a runner that miscounts hides their failures.",
  [A + "core/test_module.hpp", S + "core/test_module.ipp"],
  [("run_tests, end_test, zero padding", S + "core/test_module.ipp"), ("message queue and dummies", S + "core/test_module.ipp")],
  ["the returned count", "the report on standard output", "messages popped"],
  "exhaustive enumeration of scripted modules and of message histories against a reference report and queue",
  LOCK + "the report is compared by its indexes, names, outcomes and counts, not by its wording.",
  [("message queue", "messages not yet popped", A + "core/test_module.hpp")])

P("T02", "Digit counts, decimal comparison and application data are exact",
  "The digit count of an integer is the number of digits of its numeral in any radix from 2 to 36, whatever its type and sign. "
  "Two floating-point values of the same sign are equal to n decimal places exactly when their numerals agree up to the nth decimal, and the negated comparison always says the opposite. "
  "The application object is the one made last, and reports the arguments it was given and the copyright notice set last.",
  ["inputs", "histories"], "all 8- and 16-bit integers and the edges of the wider types in every radix, all pairs of multiples of 1/64 up to 3 with 0 to 6 places and neighbours up to 65536 with 0 to 9, long doubles around the powers of two up to 2^53 with 0 to 2, all histories of six application operations",
  "Tests compare a few positive values; signs, limits of the types and ties of digits are specific values.",
  [S + "core/general.ipp", S + "core/application.cpp", A + "core/type_traits.hpp"],
  [("count_digits, cmp_equal, cmp_not_equal", S + "core/general.ipp"), ("application", S + "core/application.cpp")],
  ["returned values"],
  "exhaustive enumeration of values and histories against integer arithmetic",
  LOCK + "compared values are dyadic, so that their decimal digits are exact; values of opposite sign are not claimed.",
  [("instance pointer", "the application made last", A + "core/application.hpp")])

P("T03", "Every part of a program shares one application, set of streams and set of errors",
  "However many separately compiled parts a program has, and whether it uses the library header-only or compiled, they link into one program in which all parts see the same application object and the same standard streams. "
  "What either part writes comes out in order, input continues where the other part stopped reading, and an error raised in one part is recognised by its type in another.",
  ["programs", "histories"], "all histories up to a length of ten kinds of operation by either of two parts that each include every header, in a header-only and a compiled build",
  "Tests are single programs linked one way; a definition that is private to each part or defined twice shows only with several parts.",
  [A + "core/application.hpp", S + "core/application.cpp", A + "io/impl/unix_like/unix_like_uout.hpp", A + "io/impl/unix_like/unix_like_uin.hpp", A + "io/uio.hpp", A + "core/config.hpp"],
  [("application instance", S + "core/application.cpp"), ("standard stream objects", A + "io/impl/unix_like/unix_like_uout.hpp")],
  ["addresses of the shared objects in each part", "the sequence of read and write calls with their bytes", "the link step"],
  "explicit enumeration of all histories of two parts in two builds in lock step with a model of the shared state",
  LOCK + "two parts; the read and write calls are stand-ins that record.",
  [("instance pointer", "the application made last", A + "core/application.hpp")])

P("G01", "Every key is reported as itself, and has its own name",
  "Pressing or releasing a key in a window is reported to it once, as a press or a release, with the key that was used: letters in either case, digits, numeric keypad digits, F1 to F24 and the space bar are told apart and every other key is unknown. "
  "Each key has the name printed on it, different from all other keys' names, and events keep their data when copied.",
  ["inputs"], "every GDK key symbol up to 1FFFF and blocks around every power of two beyond, pressed and released; every key's name",
  "The GUI package has no tests; its translation and naming are two tables of 70 entries in which any pair may be swapped.",
  [S + "desktop_gui/impl/gtk/gtk_window.cpp", S + "desktop_gui/general.cpp", S + "desktop_gui/key_event.cpp", S + "desktop_gui/close_event.cpp", S + "desktop_gui/event.cpp"],
  [("translate_key_code", S + "desktop_gui/impl/gtk/gtk_window.cpp"), ("to_u8string of a key", S + "desktop_gui/general.cpp")],
  ["the events a window hears", "key names"],
  "exhaustive enumeration of key symbols through a stand-in for GTK",
  LOCK + "the GTK back end over a stand-in for GTK, which isn't installed here.")

P("G02", "Each window hears its own events, through opening, moving and closing",
  "In any history of opening, showing, hiding, closing, refusing to close, moving and destroying windows, every event in a native window is heard exactly once by the window object that owns it then and by no other, and title and visibility are those set last. "
  "A shown window that is closed (by the program or the user) hears it first and stays open if it refuses; otherwise its native window goes away and it can be opened again. "
  "Opening an open window is refused, closing one that isn't open does nothing, and destroying or assigning over a window ends its native window.",
  ["histories"], "all histories up to a length over 20 operations on two window objects (six of them done while an event is being heard), from one open window and from two shown ones, events sent to every native window after every step",
  "The GUI package has no tests; the association of native windows with objects is rewritten by every open, move and close.",
  [S + "desktop_gui/impl/gtk/gtk_window.cpp", A + "desktop_gui/impl/gtk/gtk_window.hpp"],
  [("window associations", S + "desktop_gui/impl/gtk/gtk_window.cpp"), ("forward_*_event_to_window", S + "desktop_gui/impl/gtk/gtk_window.cpp")],
  ["events heard by each object", "existing native windows and their title, size and visibility", "the result of opening"],
  "explicit enumeration of all histories over a stand-in for GTK in lock step with an ownership model",
  LOCK + "GTK itself ignores closing a window that was never shown; that case is not claimed.",
  [("window associations", "which object owns which native window", A + "desktop_gui/impl/gtk/gtk_desktop_gui_application.hpp")])

P("G03", "The main loop updates every open window and ends with the last one",
  "While windows exist, the main loop delivers every waiting event, and whenever none is waiting updates each open window exactly once with the seconds since its last update and since it was opened, even if updates open, move or close windows. "
  "No closed or destroyed window is updated, and the loop returns 0 once no window is left, and only then.",
  ["histories", "schedules"], "three windows whose first updates do any of seven things, all scripts up to a length of idle moments, key presses, accepted and refused closes, moves and hiding, on a controlled clock",
  "The GUI package has no tests; the loop walks the list of windows while updates change it.",
  [S + "desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp", S + "desktop_gui/impl/common/common_window.cpp"],
  [("run", S + "desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp"), ("update_window", S + "desktop_gui/impl/common/common_window.cpp")],
  ["updates and their times", "events heard", "the return of the loop"],
  "explicit enumeration of all event and idle scripts x update behaviours over a stand-in for GTK with a controlled clock",
  LOCK + "a window opened, or closed by another, during a round may be updated or not in that round.",
  [("window associations", "which object owns which native window", A + "desktop_gui/impl/gtk/gtk_desktop_gui_application.hpp"),
   ("start and last time", "when a window was opened and last updated", A + "desktop_gui/impl/gtk/gtk_window.hpp")])

P("W01", "On Windows, files keep what they are given like everywhere else",
  "Over the Windows file interface, every history of opening, reading, writing, seeking, flushing, moving and closing files has the effects that R02, R03, R04 and R05 state: the same bytes, positions, counts, durability and lifecycle as a plain array of bytes. "
  "A file uses only handles it owns, closes each exactly once, and transfers of any size, beyond 4 GiB too, ask the system for every byte exactly once and in order.",
  ["histories", "crash_points", "fault_sequences"], "all operation histories up to a length over files on a stand-in for Windows, several buffer capacities and sizes, every placement of short and failed transfers, every crash point around a write, all histories of two file objects and two paths, kinds of paths, transfers around multiples of 4 GiB",
  "The tests never build the Windows back end here, and sample a few transfers where they do.",
  [S + "io/impl/windows/windows_file.cpp", A + "io/impl/windows/windows_file.hpp"],
  [("read_raw and write_raw", S + "io/impl/windows/windows_file.cpp"), ("set_position_raw", S + "io/impl/windows/windows_file.cpp"), ("moves", S + "io/impl/windows/windows_file.cpp")],
  ["content of the file", "positions and counts", "calls of the Windows file functions"],
  "explicit enumeration of all operation histories, fault placements and crash points on the real back end compiled over a stand-in for the Windows file functions",
  LOCK + "Windows behaves as harness/fakewin does.",
  [("m_handle", "the open file", A + "io/impl/windows/windows_file.hpp")])

P("W02", "On Windows, console streams deliver everything in order and before input",
  "Over the Windows console, everything written to the standard output and error streams arrives as UTF-8 exactly once and in order, at the latest when flushed or when the program ends. "
  "Standard input yields exactly the code points typed, surrogate pairs included, however lines are cut up; asking for it delivers pending output first and never waits for more than the request needs. "
  "Input that cannot be read from the console gives the end of input and invents nothing. The input's buffer has no capacity or room for a code unit.",
  ["histories"], "all operation histories up to a length over the three streams, eight inputs and six buffer capacities, output, lines and words of lengths around every power of two up to 2^16, input that isn't a console",
  "Tests cannot drive a console, and do not build this back end here.",
  [S + "io/impl/windows/windows_uin.cpp", S + "io/impl/windows/windows_uout.cpp"],
  [("read_raw", S + "io/impl/windows/windows_uin.cpp"), ("write_raw", S + "io/impl/windows/windows_uout.cpp")],
  ["the sequence of console reads and writes with their content"],
  "explicit enumeration of all operation histories on the real back end compiled over a stand-in for the Windows console",
  LOCK + "Windows behaves as harness/fakewin does.",
  [("m_handle", "the console", A + "io/impl/windows/windows_uout.hpp")])

P("W03", "On Windows, windows, their events and the main loop behave like everywhere else",
  "Over the Windows window interface, keys, window objects, their moves and closing, and the main loop do what G01, G02 and G03 state: every known key is reported as itself, events reach the object that owns the window, getters agree with the native window, and the loop updates every open window once per idle moment and ends with the last one. "
  "A native window is destroyed exactly once and never used afterwards.",
  ["histories", "schedules", "inputs"], "every virtual key code, all operation histories up to a length on two windows, all scripts of idle moments and events for one and three windows whose updates open, close and move windows, on a controlled clock",
  "The GUI package has no tests, and this back end is not built here.",
  [S + "desktop_gui/impl/windows/windows_window.cpp", S + "desktop_gui/impl/windows/windows_desktop_gui_application.cpp"],
  [("window procedure", S + "desktop_gui/impl/windows/windows_window.cpp"), ("run", S + "desktop_gui/impl/windows/windows_desktop_gui_application.cpp")],
  ["events heard", "state of the native windows", "updates and their times", "the return of the loop"],
  "explicit enumeration of all key codes, window histories and event scripts on the real back end compiled over a stand-in for the Windows window functions with a controlled clock",
  LOCK + "Windows behaves as harness/fakewin does.",
  [("window associations", "which object owns which native window", A + "desktop_gui/impl/windows/windows_desktop_gui_application.hpp")])

P("M01", "On macOS, windows, their events and the main loop behave like everywhere else",
  "Over AppKit, keys, window objects, their moves and closing, and the main loop do what G01, G02 and G03 state: every known key (F1 to F20, there are no more) is reported as itself, events reach the object that owns the window, title and visibility agree with the native window, and the loop updates every open window once per idle moment and ends with the last one. "
  "A native window is closed exactly once and no object is used after its last release.",
  ["histories", "schedules", "inputs"], "every key code, all operation histories up to a length on two windows, all scripts of idle moments and events for one and three windows whose updates open, close and move windows, on a controlled clock",
  "The GUI package has no tests, and this back end is not built here.",
  [S + "desktop_gui/impl/macos/macos_window.mm", S + "desktop_gui/impl/macos/macos_desktop_gui_application.mm"],
  [("window and its delegate", S + "desktop_gui/impl/macos/macos_window.mm"), ("run", S + "desktop_gui/impl/macos/macos_desktop_gui_application.mm")],
  ["events heard", "state of the native windows", "updates and their times", "the return of the loop"],
  "explicit enumeration of all key codes, window histories and event scripts on the real back end compiled over a stand-in for AppKit with a controlled clock",
  LOCK + "AppKit behaves as harness/fakemac does.",
  [("window associations", "which object owns which native window", A + "desktop_gui/impl/macos/macos_desktop_gui_application.hpp")])

P("W04", "Wide strings with two-byte characters hold and convert any text",
  "Where wide characters have two bytes, as on Windows, wide strings, encoded iterators over them, their conversions and wide text in streams do what U01 to U05, S02 and S03 state: a code point beyond FFFF takes a surrogate pair that is never split, traversal in both directions yields every code point once, conversions to and from UTF-8, UTF-16 and UTF-32 keep every code point, and malformed text is refused or reported, never passed on as something else.",
  ["inputs", "histories"], "the input and history spaces of U01 to U05, S02 and S03 with wide characters of two bytes",
  "The tests are built where wide characters have four bytes.",
  [S + "unicode", S + "io/text_output_stream.ipp"],
  [("by_code_point", S + "unicode/by_code_point.cpp"), ("conversions", S + "unicode/algorithms.ipp"), ("text streams", S + "io/text_output_stream.ipp")],
  ["values, exceptions and bytes"],
  "explicit enumeration of all texts, iterator walks and stream histories within the bounds on the real code compiled with two-byte wide characters",
  LOCK + "Two-byte wide characters are those of -fshort-wchar.",
  [("m_code_points", "wide text", A + "unicode/by_code_point.hpp")])

P("C01", "Buffer capacities chosen when building are in effect and lose nothing",
  "A program built with CMP_CONFIG_DEFAULT_BUFFER_CAPACITY, or with a capacity of its own for the standard output, error or input, gets exactly these capacities, header-only and from the compiled library; a capacity that is not chosen for a standard stream is the default one, which is 1024 bytes where nothing is chosen. "
  "Output holds back at most its capacity and passes nothing on while there is room; input reads ahead a capacity's worth; a capacity of zero buffers nothing. An I/O buffer hands out what was put into it, never beyond its size, also when copied or moved.",
  ["inputs", "histories"], "every choice of the four capacities set or not, and extreme ones, times all operation histories up to a length over the global streams, files and a program's own resources, and of an I/O buffer",
  "Tests are built once, with the default capacities.",
  [A + "core/config.hpp", A + "io/io_buffer.hpp", S + "io/io_buffer.cpp", S + "io/impl/unix_like/unix_like_uin.cpp", S + "io/impl/unix_like/unix_like_uout.cpp"],
  [("defaults", A + "core/config.hpp"), ("default capacity of a buffer", A + "io/io_buffer.hpp"), ("standard streams of the compiled library", S + "io/impl/unix_like/unix_like_uout.cpp")],
  ["sizes and content of raw transfers after every operation"],
  "explicit enumeration of build configurations and of all operation histories within the bounds on the real code",
  LOCK + "a capacity is what the raw transfers show of it.",
  [("m_data", "the buffer", A + "io/io_buffer.hpp")])

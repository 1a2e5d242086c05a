#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

SER, DE = "dlhn/src/ser.rs", "dlhn/src/de.rs"
VAR, ZZ = "dlhn/src/prefix_varint.rs", "dlhn/src/zigzag.rs"
BODY = "dlhn/src/body/mod.rs"
HS, HD, HM = "dlhn/src/header/ser.rs", "dlhn/src/header/de.rs", "dlhn/src/header/mod.rs"

p("C01", "Typed values survive an encode/decode round trip",
  "For every value of a Rust type that can be both serialized and deserialized (non-recursive, not relying on self-description), serializing it and deserializing the bytes as the same type gives back an equal value, with floats equal bit for bit, or the serialization reports an error. The decoder consumes exactly the bytes the encoder produced, neither fewer nor more, so whatever follows in the input stays readable.",
  ["inputs", "programs"], "all serde type shapes (primitives, char, string, bytes, option, unit, newtype, sequences, tuples, maps with string keys, structs, all enum variant kinds with any variant index, std collections and std library types, big numbers and dates through both their wrapper types and the field adapters) and all their values, including lengths around every internal buffer or length-prefix boundary",
  "Unit tests round-trip a few dozen hand-picked values of a few shapes; no test reaches e.g. enum variant indices above 2, strings at multi-byte chunk boundaries, nested combinations or most lengths.",
  [SER, DE, VAR, ZZ, "dlhn/src/format/"],
  [("serializer and deserializer mirror each other case by case", SER), ("length-prefixed strings/bytes/sequences/maps", DE), ("variant index written as u32 and read as an identifier", DE)],
  ["T::serialize(&mut Serializer)", "T::deserialize(&mut Deserializer)", "reader position after decoding"])

p("C02", "Every value encodes to exactly the bytes the DLHN format prescribes",
  "The bytes produced for a value are exactly those of the DLHN wire format, and nothing else: fixed little-endian for 8-bit integers and floats, prefix-varint (after zigzag for signed) for the other integers, a length or element count before strings, byte strings, sequences and maps, a presence byte for options, a variant index for enums, and no framing for units, tuples and structs. The output depends only on the value: the kind of compound (struct, tuple struct, tuple), field names, and the place where the value is embedded make no difference.",
  ["inputs", "programs"], "all serde type shapes and all their values, alone and nested at any position",
  "Existing tests compare a handful of byte strings, mostly against the very helper functions under test, so a consistent change of both sides of the codec (a wire-format break) would go unseen.",
  [SER, VAR, ZZ, "dlhn/src/big_uint.rs", "dlhn/src/date.rs"],
  [("per-type serialize methods", SER), ("prefix varint", VAR), ("zigzag", ZZ)],
  ["bytes handed to the writer by Serializer"])

p("C03", "Integers of every width encode minimally and decode exactly",
  "Every 8-, 16-, 32- and 64-bit signed or unsigned integer decodes back to itself from its encoding, which is the shortest the format has for it: one byte for 8-bit integers, and for wider ones one byte per started group of 7 magnitude bits (after zigzag for signed), up to width/8+1 bytes. No two integers of one type share an encoding and no encoding is a prefix of another.",
  ["inputs"], "all integers: complete enumeration of the 8- and 16-bit types, every length boundary and a dense random sample of the 32- and 64-bit types",
  "Tests try powers of two and extremes; almost all 32/64-bit values, in particular those with arbitrary low bits in the prefix byte or arbitrary middle bytes, are never encoded.",
  [VAR, ZZ, SER, DE],
  [("leading-zero dispatch on encode, leading-one dispatch on decode", VAR), ("zigzag mapping", ZZ)],
  ["Serializer/Deserializer on u8..u64, i8..i64"])

p("C04", "Typed decoding of arbitrary bytes is total and faithful",
  "Deserializing any byte string as any supported non-recursive type returns either a value or an error, and never panics, aborts or hangs. It returns a value only when the bytes begin with an encoding of that value; malformed content (a boolean or option byte other than 0 or 1, text that is not UTF-8, a variant index out of range, a length or count that exceeds the remaining bytes) is always an error.",
  ["inputs"], "all byte strings (random, mutated valid encodings, over-long integers, hostile lengths and counts) against all type shapes",
  "Tests decode only bytes the encoder just produced; malformed input is nearly untested.",
  [DE, VAR, "dlhn/src/date.rs", "dlhn/src/format/"],
  [("explicit checks of bool/option bytes, UTF-8 validation, read_exact", DE)],
  ["result of T::deserialize", "panic/abort of the process"])

p("C05", "Truncated or failing input is reported at every cut point",
  "If the input ends, or the underlying reader fails, at any point before the last byte of an encoded value, header or dynamic body, decoding reports an error and never returns a value: a read error for values and bodies, and the reader's own error kind (unexpected end of file for truncation) for headers. This holds for every position of the cut and for every kind of reader error other than an interruption.",
  ["crash_points", "fault_sequences", "inputs"], "every cut or fault position inside the encoding of every generated value/header/body, every I/O error kind",
  "One README/stream test decodes at a clean end of input; no test cuts an encoding in the middle or injects a reader error.",
  [DE, VAR, HD, BODY],
  [("read_exact / explicit length comparison after read_to_string", DE), ("? propagation", HD)],
  ["Result of decoding under a faulty reader"])

p("C06", "How the transport fragments the data makes no difference",
  "Decoding values, headers and dynamic bodies gives the same results, errors and read positions whether the reader delivers the bytes in one piece, in arbitrary small pieces, or with interruptions in between; encoding delivers the same bytes to a writer that accepts them in arbitrary pieces or with interruptions. All bytes of a value have reached the writer when serialization returns, without any flush or drop, and decoding never reads ahead of the value.",
  ["schedules", "fault_sequences", "inputs"], "all fragmentations (down to one byte) and interruption patterns of the byte stream, for all values, headers and bodies",
  "All tests use in-memory slices and vectors that deliver everything at once.",
  [DE, SER, VAR, HD, HS],
  [("read_exact/write_all/Read::take used for every access", DE)],
  ["instrumented Read/Write implementations"])

p("C07", "Write failures are reported and leave a clean prefix",
  "If the writer fails or stops accepting bytes at any point, serializing a value, dynamic body or header returns an error (a write error for values and bodies, the writer's error kind for headers) and never success. The bytes the writer did accept are a prefix of the full encoding, and a writer that never fails never causes an error for a supported value.",
  ["fault_sequences", "crash_points", "inputs"], "every byte position at which the writer fails and every error kind, for all values, headers and bodies",
  "No test uses a failing or bounded writer.",
  [SER, HS, BODY],
  [("write_all(..).or(Err(Error::Write))", SER), ("? propagation", HS)],
  ["Result of serialize under a faulty writer", "bytes accepted"])

p("C08", "Streams of values decode back in order, whatever their history",
  "A sequence of headers, typed values and dynamic bodies of any kinds written one after another to one stream, by one serializer or several, decodes to the same sequence when read with matching operations in the same order, by one deserializer or several. The stream is exactly the concatenation of the individual encodings, and reading past its end reports a read error every time.",
  ["histories"], "all operation histories mixing types, headers, bodies, serializer/deserializer reuse and re-creation, long streams",
  "tests/stream.rs writes the same struct twice.",
  [SER, DE, HD, HS, BODY, "dlhn/tests/stream.rs"],
  [("serializer and deserializer keep no state besides the stream", SER)],
  ["stream bytes", "decoded sequence", "reader position after every operation"])

p("C09", "Headers survive an encode/decode round trip",
  "Encoding any header, nested up to 128 levels, either fails with an error (only when a tuple or enum lists more than 65535 entries) or produces bytes that decode to an equal header, consuming exactly those bytes. The bytes are exactly those the format prescribes: the type code, then the nested headers in order, with an entry count before the entries of tuples and enums.",
  ["inputs"], "all headers, including empty and very wide tuples/enums and deep nesting",
  "Each header kind is tested once or twice with at most three entries; counts needing a multi-byte or unrepresentable length are not.",
  [HS, HD, HM],
  [("type codes", HM), ("u16 prefix-varint entry count", HS)],
  ["Header::serialize", "deserialize_header"])

p("C10", "Decoding a header from arbitrary bytes is total and faithful",
  "Decoding a header from any byte string returns either a header or an error and never panics, overflows the stack or aborts, however deep the nesting the bytes describe. It returns a header exactly when the bytes start with a well-formed encoding of it nested no deeper than the supported limit of 128; unknown or reserved type codes are rejected as invalid data.",
  ["inputs"], "all byte strings: random, mutated valid headers, unknown codes, hostile counts, unbounded nesting",
  "Tests decode only headers the encoder produced.",
  [HD, HM], [("match on the code byte with an error arm", HD)],
  ["Result of deserialize_header", "process survival"])

p("C11", "Dynamic bodies survive a round trip under their header",
  "For every header and every dynamic body conforming to it, encoding the body and decoding the bytes under that header gives back an equal body (floats bit for bit), consuming exactly the encoded bytes. The encoding is exactly the one the wire format prescribes for that header, with map entries in key order.",
  ["inputs"], "all headers and all bodies conforming to them, any nesting",
  "Each body kind is tested alone with one or two values, nested bodies only one level deep.",
  [BODY, SER, DE], [("Serialize for Body", BODY), ("Body::deserialize", BODY)],
  ["Body::serialize", "Body::deserialize"])

p("C12", "Static types and dynamic bodies are interchangeable on the wire",
  "For every value of a header-describable type, the typed encoding and the encoding of the corresponding dynamic body are the same bytes; bytes written from either side decode on the other side to the corresponding value. This holds for every nesting of options, arrays, tuples or structs, string-keyed maps, enums, big numbers, dates and date-times.",
  ["inputs", "programs"], "all header-describable type shapes and values",
  "Tests compare single-level bodies with one or two values per kind, and only on the encoding side.",
  [BODY, SER, DE], [("Body serializes through the same serializer as typed values", BODY)],
  ["bytes", "decoded values on both sides"])

p("C13", "Dynamic decoding of arbitrary bytes is total and faithful",
  "Decoding any byte string under any header returns either a body or an error, and never panics, aborts or hangs. A returned body conforms to the header, equals what the bytes encode, and re-encodes to bytes that decode to the same body; malformed content is always an error.",
  ["inputs"], "all headers (whose array elements occupy at least one byte) against all byte strings",
  "Tests decode only well-formed bodies.",
  [BODY, DE], [("Body::deserialize dispatch on the header", BODY)],
  ["Body::deserialize result", "process survival"])

p("C14", "Conformance checking is exact",
  "Checking a dynamic body against a header answers yes exactly when the body has the structure the header describes: same kind at every node, every array element and map value conforming, equal tuple length with pairwise conforming entries, an enum index within range whose payload conforms, an absent option always conforming. A body that conforms can be encoded and decoded under that header, and one deviation anywhere in an otherwise conforming body is detected.",
  ["inputs"], "all (header, body) pairs: conforming, one-point deviations, and unrelated pairs",
  "Each kind is tested alone against one or two others; deviations deep inside or late in a collection are not tried.",
  [BODY], [("recursive match in validate", BODY)], ["Body::validate"])

p("C15", "Memory used while decoding is bounded by the input, not by its claims",
  "Decoding a header, a dynamic body or a typed value from any byte string allocates memory proportional to the bytes actually present (times the size of the header or type), whatever lengths, counts or nesting those bytes claim. A few hostile bytes never cause an allocation failure, a capacity panic or a process abort.",
  ["inputs"], "all byte strings with hostile lengths and counts, against all headers and type shapes",
  "No test measures allocation or decodes a claimed length larger than the data.",
  [BODY, HD, DE], [("chunked reads of byte strings", DE), ("bounded preallocation", BODY), ("bounded preallocation", HD)],
  ["peak allocation during a decode", "process survival"])

p("C16", "Big numbers convert and encode without loss and canonically",
  "Converting any arbitrary-precision unsigned, signed or decimal number to its wire wrapper and back, or encoding and decoding it through the wrapper or the field adapter, gives a numerically equal number, and both routes produce and accept the same bytes, decoding them to the same number and consuming the same bytes. Numerically equal numbers give equal wrappers and identical shortest encodings, zero being a single zero byte, and different numbers give different ones.",
  ["inputs"], "all big unsigned/signed integers of any length and all decimals with any digits and scale (trailing zeros, negative scales, zero with any scale), plus arbitrary wire bytes",
  "Tests use powers of two up to 128 bits and ten decimals with one or two digits.",
  ["dlhn/src/big_uint.rs", "dlhn/src/big_int.rs", "dlhn/src/big_decimal.rs", "dlhn/src/format/big_uint.rs", "dlhn/src/format/big_int.rs", "dlhn/src/format/big_decimal.rs"],
  [("normalisation before encoding", "dlhn/src/big_decimal.rs"), ("two's-complement little-endian bytes", "dlhn/src/big_int.rs")],
  ["From/Into conversions", "encoded bytes of wrapper and adapter"])

p("C17", "Dates convert and encode without loss; bad dates are rejected",
  "Every calendar date the date library supports round-trips through the wire wrapper, through the field adapter and through conversions, all three agreeing on bytes, equality and order, and the year is stored relative to 2000 and the day-of-year relative to the first day. Wire bytes that describe no valid date are an error in the adapter and in the conversion to a calendar date, and never a panic or a different date, whatever integers they hold.",
  ["inputs"], "all dates in years -9999..9999 (complete enumeration) and all pairs of wire integers",
  "Tests use about seven dates; out-of-range wire fields are untested.",
  ["dlhn/src/date.rs", "dlhn/src/format/date.rs"],
  [("offset encoding", "dlhn/src/date.rs"), ("from_ordinal_date validation", "dlhn/src/format/date.rs")],
  ["wrapper, adapter and conversion results"])

p("C18", "Date-times keep the instant; bad date-times are rejected",
  "Every date-time whose UTC form is representable round-trips to the same instant with nanosecond precision, whatever its UTC offset and also before 1970, through the wire wrapper, the field adapter and conversions, which agree on bytes; the encoding depends on the instant only. Wire bytes describing an instant out of range are an error in the adapter and in the conversion, and never a panic, whatever integers they hold.",
  ["inputs"], "all instants, offsets and nanoseconds, and all pairs of wire integers",
  "Tests use eight UTC instants; offsets other than UTC and out-of-range wire fields are untested.",
  ["dlhn/src/date_time.rs", "dlhn/src/format/date_time.rs"],
  [("unix timestamp + nanosecond fields", "dlhn/src/date_time.rs")],
  ["wrapper, adapter and conversion results"])

p("C19", "Maps take string keys only",
  "Serializing a map succeeds for any string keys and preserves every entry in iteration order; any other kind of key (boolean, number, char, bytes, option, unit, newtype, enum variant, sequence, tuple, map, struct) is rejected with the unsupported-key error, wherever the map is nested and wherever in the map the key stands. Values are unrestricted and an empty map of any type encodes as a zero count.",
  ["inputs"], "all key shapes and values, all map sizes and nesting positions",
  "Tests check a few key types on one-entry maps.",
  [SER], [("key-only serializer that rejects everything but strings", SER)],
  ["Result of serializing maps"])

p("C20", "Derived headers describe the bodies of their types",
  "For every struct and enum the header derive accepts, with serde's default representation (or the crate's own field adapters), the derived header is the one the format prescribes for the type's serialized fields or variants in order (skipped ones left out), and the serialized bytes of every value decode under that header to the corresponding dynamic body, consuming all bytes. Conditionally skipped members (which no fixed header can describe, in structs as well as inside enum variants) and unions are rejected at compile time.",
  ["programs", "inputs"], "all struct/enum definitions over describable field types: unit/tuple/named shapes, any number of fields and variants, skip attributes in any spelling and position, and all their values",
  "Ten fixed types are derived in tests, none with more than four members, and bodies are never compared with the derived header.",
  ["dlhn_derive/src/lib.rs", "dlhn_derive/src/prefix_varint.rs"],
  [("field and variant walk, skip detection", "dlhn_derive/src/lib.rs"), ("compile-time entry count", "dlhn_derive/src/prefix_varint.rs")],
  ["T::serialize_header bytes", "Body::deserialize under that header"])

p("C21", "Headers of built-in types describe the bodies of their values",
  "For every composition of the supported built-in types (unit, booleans, integers, floats, strings, byte buffers, big numbers, dates, options, vectors, tuples of up to 16 entries, string-keyed maps), the type's header is the structural header of the composition, and the serialized bytes of every value of the type decode under it to the corresponding dynamic body, consuming all bytes.",
  ["programs", "inputs"], "all compositions of built-in types and all their values",
  "Tests check each built-in type once and one three-entry tuple.",
  [HS, HM], [("one header impl per built-in type, tuple macro for arities 1..16", HS)],
  ["T::serialize_header bytes", "Body::deserialize under that header"])

p("C22", "Feature selection does not change the format",
  "Builds with any selection of the optional features (date library, big-number libraries, header derive) produce the same bytes for the same values, headers and bodies, and decode any bytes to the same values or errors, as the full build. Every selection compiles.",
  ["configurations", "inputs"], "feature selections (none, each library alone, combinations, all) times generated values and byte strings",
  "Only the default feature set is ever built and tested.",
  ["dlhn/Cargo.toml", "dlhn/src/lib.rs", "dlhn/src/format/mod.rs", "dlhn/src/date.rs", "dlhn/src/big_decimal.rs"],
  [("cfg(feature) gates only conversions", "dlhn/src/lib.rs")],
  ["encode/decode transcripts of separately built binaries"])

p("C23", "Unsupported requests fail with an error, not a panic",
  "Asking for something the format cannot express (128-bit integers, values borrowed from the input, decoding without knowing the type, skipping content of unknown type, untagged or flattened types) is answered with an error or a correct value, and never panics, whatever the bytes. Types needing such a request anywhere inside behave the same.",
  ["inputs", "programs"], "all deserialization requests of the serde data model times all byte strings, and 128-bit values on the encoding side",
  "No test makes such a request.",
  [DE, SER], [("one method per request kind", DE)],
  ["Result of serialize/deserialize", "panic"])

p("C24", "Encoding and decoding are pure and independent",
  "The result of encoding a value or decoding bytes depends only on that value or those bytes (and the type or header): repeating the operation, doing it after other operations that succeeded, failed or were abandoned half way, doing it in the middle of another operation (from a user type's own serialization, deserialization or formatting code, or from a reader or writer), or doing it while other threads encode and decode, gives the same bytes, values and errors. A serializer or deserializer used again after a failure works as a new one. A map's encoding depends only on its entries in key order for ordered maps, not on how the map was built.",
  ["histories", "schedules", "inputs"], "all sequences of successful and failing operations, repeated and concurrent, over all values and byte strings",
  "Every test performs one or two operations in isolation on one thread.",
  [SER, DE, HS, HD, BODY], [("no global or thread-local state", "dlhn/src/lib.rs")],
  ["results of repeated, reordered and concurrent operations"])

p("C25", "Errors raised by the user's own types come through unchanged",
  "When a Serialize or Deserialize implementation of a user's type (or of serde or the standard library) reports an error, at whatever depth and place of a value (map keys and values, options, sequence and tuple elements, struct fields, enum payloads and variant indices included), encoding or decoding fails with exactly that message: never with another error, a panic or a success. What was written by then is a prefix of the value's encoding, no input beyond what comes before the failing place is taken, a failure of the writer or reader that comes first is reported instead, and the same serializer or deserializer keeps working for what follows.",
  ["inputs", "fault_sequences", "programs"], "all serde type shapes and values, all places in them where user code runs, all messages, alone and with failing readers and writers",
  "No test has a type whose own code fails.",
  [SER, DE], [("Error::custom keeps the message", SER), ("errors are returned with ? and never mapped", DE)],
  ["Result of serialize/deserialize", "bytes written", "reader position"])

p("C26", "Time, memory and transport calls grow in proportion to the data",
  "Encoding and decoding a value or a body, checking that a body conforms to a header, and encoding and decoding a header take processor time, memory and calls of the reader or writer in proportion to the size of the data, whatever its type and contents: sixteen times as many elements, map entries (in whatever order), bytes of text, of a byte string or of a number, or tuple or enum entries of a header cost about sixteen times as much, never the square of it, and a deeply nested value costs in proportion to its depth. Coding many values one after another with one serializer or deserializer needs no more memory than coding one of them. (Sequences of elements that take no bytes are not meant.)",
  ["inputs", "histories"], "all types, values and headers, at all sizes",
  "Tests use values of a few bytes and measure nothing.",
  [SER, DE, HS, HD, BODY], [("one pass over the elements", SER), ("elements decoded one at a time", DE)],
  ["processor time of the thread", "peak memory", "number of reads and writes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")

import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
R="src/readable.rs";RI="src/readable_impl.rs";W="src/writable.rs";WI="src/writable_impl.rs";RD="src/reader.rs";WR="src/writer.rs";D="speedy-derive/src/lib.rs";PV="src/private.rs"
p("P01","Built-in types encode to exactly the documented byte format",
"Writing a value of any supported standard-library type produces exactly the bytes the format fixes: scalars at full width in the byte order of the context, lengths as 32-bit counts, one-byte presence and variant flags, then the elements in order with nothing between them. The bytes depend only on the value and the byte order, never on where the value sits inside a larger value. Changing the byte order reverses each multi-byte scalar and changes nothing else.",
["inputs","configurations"],"every value of every composition of supported types, both byte orders",
"The tests compare a few literal byte strings per type, mostly one value each; a wrong byte for other values, nestings or byte orders is not seen.",
[WI,RI,WR,"src/endianness.rs","src/readable_unsized_impl.rs"],[("per-type write_to/read_from","src/writable_impl.rs, src/readable_impl.rs"),("endianness conversion","src/writer.rs write_u16.., src/endianness.rs")])
p("P02","Reading back what was written gives the same value and uses all its bytes",
"For every value that can be written, reading the written bytes with the same context yields an equal value and consumes exactly the bytes that were written. Bytes that follow the value do not influence the result, unless the type is declared to read to the end of its input. This holds for every supported type, derived types included, and through memory, stream and file.",
["inputs","programs","configurations"],"every type, value and context; arbitrary trailing bytes",
"Tests round-trip single hand-picked values per type, rarely with trailing data and not for combinations of types and attributes.",
[RI,WI,D,RD,WR],[("matching write_to / read_from pairs",WI),("derived readers and writers",D)])
p("P03","A derived type encodes as its declared parts in declaration order",
"A derived struct encodes as the concatenation of its fields in declaration order and a derived enum as the tag of the active variant followed by that variant's fields, with no padding, for named, tuple, unit and generic forms, whatever the memory layout attributes. Reading a derived type rebuilds each field from its own bytes. Nesting derived types in containers or in other derived types does not alter their encoding.",
["programs","inputs"],"every derivable type definition, every value of it",
"The macro is a compiler: tests exercise around a hundred fixed definitions, the set of definitions users write is unbounded.",
[D,RD,PV],[("readable_body / writable_body code generation",D),("primitive fast path selection","speedy-derive/src/lib.rs check_is_primitive")])
p("P04","All ways of reading give the same result",
"For the same bytes, type and context, reading from a memory buffer with or without borrowing, from an unbuffered or buffered stream, and from a file either all succeed with equal values or all fail. When they fail because the input ends early, each reports an end-of-input error. Types that can only borrow are the sole exception: copying and stream readers refuse them with a dedicated error.",
["inputs","configurations"],"every byte string (valid or not), every type, every entry point",
"Tests run entry points on valid data of a few types; agreement on malformed and truncated input and on large inputs is not covered.",
[R,RD,"src/circular_buffer.rs"],[("five Reader implementations / entry points",R),("shared Reader default methods",RD)])
p("P05","All ways of writing deliver the same bytes",
"For the same value and context, writing to a vector, to a caller's buffer, to a stream and to a file delivers exactly the same bytes, or all fail with the same kind of error. When writing succeeds nothing is missing and nothing extra is delivered. The written file contains exactly those bytes, also when it existed before with other content.",
["inputs","configurations"],"every writable value, every entry point, streams that accept any part of a write",
"Tests compare entry points for few small values and with streams that accept everything at once.",
[W,WI,WR],[("BufferCollector / WritingCollector",W),("write_to_file",W)])
p("P06","The announced size is exact and output buffers are respected",
"The size a value reports before it is written equals the number of bytes its encoding has. Writing into a buffer of at least that size succeeds and leaves every byte after the encoding untouched; a smaller buffer is refused with an output-buffer-too-small error that states both sizes, leaving the buffer as it was. Writing into a buffer never goes outside it.",
["inputs","configurations"],"every writable value, every buffer length around the exact size",
"Size functions are hand-written or generated per type separately from the writers; tests check them for single values.",
[W,WI,D],[("bytes_needed implementations",WI),("generated bytes_needed",D),("write_to_buffer size check",W)])
p("P07","Stream results do not depend on how the stream delivers its bytes",
"Reading from a stream gives the same values, errors and order of bytes however the stream splits its data: one byte at a time, in arbitrary chunks, with interrupted reads in between, or all at once, with or without internal buffering. No byte is lost, duplicated or reordered, also when values are larger than the internal buffer or straddle its end. An interrupted read is retried and never surfaces as an error.",
["schedules","histories"],"every partition of the input into reads, every placement of interruptions, every sequence of read/peek/skip sizes",
"The schedules are combinatorial and the internal buffer is circular; tests use streams that return everything asked for.",
[R,"src/circular_buffer.rs"],[("refill and drain loop","src/readable.rs StreamReader::read_bytes_slow, peek_bytes"),("circular buffer index arithmetic","src/circular_buffer.rs occupied/empty")],
[("buffer","bytes fetched but not yet consumed","src/readable.rs StreamReader"),("position,length","occupied window of the ring","src/circular_buffer.rs")])
p("P08","Unbuffered reads never over-read and consumed lengths are exact",
"A successful unbuffered stream read takes from the stream exactly the bytes of the value and not one more, so values written back to back to one stream can be read back one after another. Reading from memory with a length report returns exactly the number of bytes the value occupies, so the next value starts there.",
["histories","inputs"],"every sequence of values of any types in one stream or buffer",
"Tests read a single value from a stream; framing of sequences is not exercised.",
[R,RD],[("unbuffered mode (capacity 0)",R),("read_with_length_from_buffer*",R)])
p("P09","Truncated encodings are rejected, minimum sizes never overstate",
"Cutting off any number of bytes from the end of an encoding makes reading it fail, with an error of the end-of-input family, unless the type says that missing trailing data is acceptable. The minimum size a type declares is never larger than the encoding of any of its values, so no complete encoding is ever refused as too small.",
["inputs","programs"],"every value of every type, every proper prefix of its encoding",
"Needs all prefixes of all values; the tests contain a few too-short buffers.",
[R,RI,RD,D],[("minimum_bytes_needed",RI),("generated minimum_bytes_needed","speedy-derive/src/lib.rs get_minimum_bytes"),("can_read_at_least checks",RD)])
p("P10","Malformed input is answered with the fitting error, never a crash",
"Reading arbitrary bytes as any type of bounded nesting from any source terminates with a value or an error and never panics, aborts or reads outside the input. Input that violates the format (invalid text, character, variant tag, zero where non-zero is required, unrepresentable time, wrong constant, out-of-range length) is reported with the error for that fault, and an error that names a field or states sizes names the right field and the true sizes. Whatever is accepted is a valid value of the type.",
["inputs"],"every byte string for every type of bounded nesting whose counted elements take at least one byte, both byte orders, every entry point",
"Tests contain a handful of malformed inputs; the input space is unbounded.",
[RI,RD,PV,"src/error.rs","src/ext_chrono.rs"],[("validation in read_from",RI),("derived tag and constant checks",D)])
p("P11","A length prefix cannot make a reader allocate far beyond its input",
"Reading a collection whose length prefix claims more elements than the input can hold fails with an error without allocating memory in proportion to the claim. The memory allocated while reading stays proportional to the size of the input. This holds for memory, stream and file input and for every length encoding.",
["inputs"],"every claimed length up to 2^64-1, every collection type whose elements occupy at least one byte",
"Allocation is not observed by any test.",
[RD,PV],[("availability check and incremental growth","src/reader.rs read_vec, read_cow, read_collection")])
p("P12","Peeking returns what the next read returns and consumes nothing",
"Peeking at a scalar, a variable-length integer or raw bytes returns exactly what reading it next would return, in every byte order, and leaves the position unchanged, however often it is repeated and whatever is peeked in between. Peeking past the end fails without consuming anything. This holds for memory buffers, buffered and unbuffered streams.",
["histories","schedules"],"every sequence of peeks, reads and skips at every position, every stream schedule",
"The one peek test uses one 16-byte buffer and an in-memory reader.",
[RD,R,"src/varint.rs"],[("peek_* methods",RD),("StreamReader::peek_bytes",R)])
p("P13","Variable-length integers are minimal, complete and byte-order independent",
"Every 64-bit value encodes as a variable-length integer with the smallest possible number of bytes (1 to 9), the same in both byte orders, and decodes to itself. Decoding consumes exactly the number of bytes announced by the first byte. The announced size of such a field equals its encoded size.",
["inputs"],"all 2^64 values (all width boundaries and bit patterns around them), all first bytes",
"2^64 values; the tests check the writer on 18 literals and round trips at powers of two in memory only.",
["src/varint.rs",D,PV],[("VarInt64 read/write","src/varint.rs")])
p("P14","Declared length encodings and external lengths are honoured exactly",
"A field with a declared length type stores its element count in exactly that encoding, and a count that does not fit is refused on writing (and, where the encoding has unused codes, on reading) with an out-of-range-length error. A field whose length is given by an expression over earlier fields stores no count, reads exactly that many elements, and is refused on writing when its actual count differs. A field that extends to the end of input stores no count and reads elements until the input ends.",
["programs","inputs"],"every length attribute, every collection type, every count around each limit",
"Tests cover selected attribute/type pairs at small counts; limits such as 127/128, 255/256, 65535/65536 and mismatches are barely touched.",
[D,PV],[("length_type / length attributes",D),("read_length_* / write_length_*",PV)])
p("P15","Enum tags identify variants exactly",
"A derived enum stores the declared tag (explicit, discriminant-derived or counted on from the previous one) in the declared tag encoding; reading maps each tag to its variant and every undeclared tag is refused with an invalid-variant error. An enum that peeks its tag selects the variant by the value it sees without consuming it, and writes no tag of its own.",
["programs","inputs"],"every enum definition, every tag value",
"Tests cover a dozen enums and one or two invalid tags.",
[D],[("tag assignment and dispatch","speedy-derive/src/lib.rs Enum::new, impl_readable")])
p("P16","Skipped, defaulted and constant-prefixed fields behave as declared",
"A skipped field takes no bytes and reads as its default. A field that tolerates a missing tail reads as its default exactly when the input ends before it is complete, while other errors still surface. A constant prefix is written before the field and reading requires exactly these bytes, otherwise it fails with an expected-constant or end-of-input error.",
["programs","inputs"],"every combination of these attributes on fields, every input including each truncation point",
"Tests cover single-attribute structs with one or two inputs.",
[D,PV],[("default_on_eof / skip / constant_prefix",D),("read_constant",PV)])
p("P17","Elements are neither leaked nor dropped twice when a read fails midway",
"When reading a collection, array, tuple or derived type fails after some parts have been built, every part built so far is dropped exactly once and nothing else is dropped. When reading succeeds nothing is dropped and the value owns all parts. This holds for failures at every position and of every kind, including panics raised by an element's own reading code not causing a double drop.",
["fault_sequences","inputs"],"every container form, every failing position, every failure kind, every reader",
"Uses unsafe partially initialised memory; two tests cover one failing position for a vector and an array.",
[RD,RI,D],[("drop_vec on error","src/reader.rs read_vec"),("State drop guard","src/readable_impl.rs [T; N]")])
p("P18","Borrowed results point into the input; copying readers never borrow",
"Zero-copy reading, at the top level and in fields of derived types, returns references that lie inside the caller's buffer, are correctly aligned, and show exactly the encoded bytes; possibly-borrowed results borrow only if alignment and byte order permit and own a correct copy otherwise. Copying, stream and file readers never return borrowed data. A byte order that would require conversion is refused for multi-byte borrowed slices.",
["inputs","configurations"],"every element type, length, buffer alignment and byte order",
"Tests do not vary buffer alignment and do not inspect where results point.",
["src/readable_unsized_impl.rs",RD,"src/utils.rs",D],[("read_cow / borrowed slices",RD),("alignment check","src/utils.rs cast_bytes")])
p("P19","Bulk handling of plain data equals element-by-element handling",
"Slices, vectors, arrays, sets and maps of plain numeric data or of derived plain structs encode and decode exactly as if each element were handled separately, in both byte orders and in every reader and writer. Memory layout attributes, field order, nesting and element size never change the bytes, and the public byte-order helpers do that same conversion, for single values and for slices of every length.",
["programs","inputs","configurations"],"every primitive-like type (derived with and without layout attributes), every collection, both byte orders",
"The fast path is chosen by layout-dependent conditions; tests check a few types.",
[RD,RI,WI,D],[("speedy_is_primitive, convert_slice_endianness, slice_as_bytes",RI),("generated fast path","speedy-derive/src/lib.rs generate_is_primitive")])
p("P20","Write failures surface and delivered bytes are a prefix of the encoding",
"If the destination of a write fails, at whatever byte, the write returns that error; if it accepts bytes in pieces or is interrupted, the write continues where it stopped. In every case the bytes delivered are a prefix of the value's encoding, and success is reported only if all of it was delivered, for files including the data still buffered.",
["fault_sequences","schedules"],"every failure point, every failure kind, every partition of the accepted bytes",
"Tests write only to destinations that never fail.",
[W],[("WritingCollector over write_all",W),("flush in write_to_file",W)])
p("P21","Source and user errors reach the caller unchanged, contexts are threaded",
"An I/O error of the source (other than an interruption or an end of input) makes the read fail with that same error, converted into the context's own error type, and an error raised by user code inside a nested read or write reaches the caller as it was raised. The context given by the caller is the one every nested read or write sees, and changes made to it are visible to later parts of the same operation. Running out of input while reading a stream is recognisable as an end-of-input error and converts to the standard I/O error of that kind; converting any error keeps its message.",
["fault_sequences","configurations"],"every failure point and error kind, every nesting, every custom context",
"Tests have one custom context and no failing sources.",
["src/error.rs","src/context.rs",R,W],[("Error conversion, IsEof","src/error.rs"),("Context threading","src/context.rs")])
p("P22","Collections keep their contents: order, duplicates and keys",
"Reading a sequence keeps the element order; reading a set or map keeps one entry per distinct key, the last one written winning for maps, whatever the order or repetition of the entries in the input. Sorted collections write in key order, insertion-ordered ones in insertion order. The written count equals the number of entries that follow.",
["inputs"],"every sequence of entries including duplicates and unsorted input, every element type, every reader",
"Tests round-trip small collections only, never unsorted or duplicated input.",
[RD,RI,WI,"src/ext_indexmap.rs"],[("read_collection / read_key_value_collection",RD)])
p("P23","Types of supported external crates follow the same rules",
"Identifiers, timestamps, vectors and matrices, small vectors, index maps and sets, and regular expressions from the supported external crates encode as their documented components, round-trip exactly, announce their exact size, agree across all ways of reading and writing, and reject truncated or invalid input with an error instead of a panic.",
["inputs","configurations"],"every value, every byte string, both byte orders",
"Each external type has one literal round-trip test.",
["src/ext_chrono.rs","src/ext_uuid.rs","src/ext_glam.rs","src/ext_smallvec.rs","src/ext_indexmap.rs","src/ext_regex.rs"],[("ext_* implementations","src/ext_*.rs")])
p("P24","A reader is a cursor over its input for every sequence of operations",
"Whatever sequence of primitive operations custom reading code performs (typed scalar reads, raw reads, skips, borrowing reads, vector, string and nested value reads, availability queries), each returns the value of the next bytes in the context's byte order and advances by exactly their number, and an operation that needs more bytes than remain fails with an end-of-input error. All readers behave alike; an availability query never gives a wrong definite answer.",
["histories","schedules"],"every sequence of operations, every input length, every reader, both byte orders",
"Histories are unbounded; tests call each method at most a few times from offset zero.",
[RD,R],[("Reader trait default methods",RD),("BufferReader / CopyingBufferReader / StreamReader",R)],
[("position","index of the next unread byte","src/readable.rs ptr / buffer+stream")])
p("P25","Low-level write operations append exactly their bytes",
"Whatever sequence of primitive operations custom writing code performs (typed scalars, raw bytes, slices, variable-length integers, collections, nested values), each appends exactly the bytes of its argument in the context's byte order and nothing else, the counted size equals what is written, and the operations read back in the same order give the same arguments. An availability query never gives a wrong definite answer.",
["histories"],"every sequence of operations and arguments, every destination, both byte orders",
"Tests use the low-level writer only through built-in types.",
[WR,W],[("Writer trait default methods",WR),("SizeCalculatorCollector overrides",W)])
p("P26","Declarations that cannot be honoured are refused when compiling",
"A derive whose attributes cannot be honoured does not compile: an attribute unknown, malformed, repeated with an argument, or on a type, field, variant or container it has no meaning for, two that exclude each other, a constant prefix that is not bytes, a variant tag that repeats another or does not fit the declared tag encoding (whether written or counted), a run until the end of input that is not the last field, a borrowed slice of a type for which some byte patterns are not valid. Every declaration that follows the documented rules compiles, in structs, tuple structs and enum variants alike.",
["programs"],"every combination of attributes, field types, shapes and tag values",
"Tests only contain declarations that compile.",
[D],[("attribute parsing and checks","speedy-derive/src/lib.rs get_fields / collect_*_attributes"),("tags","speedy-derive/src/lib.rs Enum::new")])
p("P27","Same behaviour in every build configuration",
"Built without the standard library, without an allocator, with or without the optional external crates, or with optimisation and without overflow checks, the library compiles, derives work, and everything it still offers behaves as in the default build: the same encodings, the same inputs accepted and rejected with the same kinds of errors, the same sizes and lengths, the same data borrowed, no panic. Supported external types that need no standard library work without it.",
["configurations","inputs"],"every supported combination of features and build settings, every type, value and input",
"The tests run in one configuration, with the standard library and every supported crate, not optimised.",
["Cargo.toml","src/lib.rs",RI,"src/error.rs",D],[("cfg(feature = \"std\" / \"alloc\")","src/*.rs"),("generated code names the library, core and alloc only",D)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))

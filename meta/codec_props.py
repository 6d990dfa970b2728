LAY = ["definition/struct.go", "compiler/proto_visitor.go"] + TARGETS
prop("C01", "Every target encodes and decodes the one documented bit layout",
 "For every valid schema and every value in range, the codec generated for any target under any options encodes the value to the same documented frame (fields packed least significant bit first in declaration order, byte order per field as declared, strings NUL-terminated, bytes length-prefixed), and decodes a frame made by any other target back to the same value. Every valid schema, in one file or in many importing one another under any package names and namespace options, can be generated and the result compiles (names are not reserved words of the target; names that generated code uses for its own local variables are allowed).",
 ["inputs", "programs", "configurations"], "for all schemas, options, targets, field values and starting offsets",
 "The end-to-end tests fix about fifty schemas with a few hand-picked values per target and never exchange frames between arbitrary pairs; the layout arithmetic depends on bit position, width, order, sign, element type, unrolling and options jointly.",
 LAY, m(("bit layout computation", "definition/struct.go: ForEachFieldWithPos"), ("field encoders and decoders", "generator/target/*/*: generateEncodeImpl, generateDecodeImpl"), ("array loops", "generator/target/*/*: write/read field bits helpers")),
 observe=("frames returned by the generated encoders", "fields after the generated decoders"),
 tech="heterogeneous generated codecs as nodes exchanging frames over a simulated lossy datagram medium, compared with a reference layout model", note=CODEC_NOTE)
prop("C02", "A byte stream of frames is delivered exactly once, in order, on any target",
 "A receiver that asks only the generated size probe how much of its receive buffer is a frame reassembles every sent frame exactly once, in order and unchanged, for any fragmentation of the stream, any connection reset with retransmission and any receiver restart. Once faults stop and all bytes have arrived, nothing is left undelivered. What a codec says about itself (whether its frames vary in size, and the size of those that do not) is true of every frame.",
 ["schedules", "fault_sequences", "crash_points", "programs"], "for all schemas, sender/receiver target pairs, fragmentations, resets, restarts and relays",
 "Existing tests decode whole frames from whole buffers; none feeds a stream in arbitrary pieces or mixes targets along a relay.",
 LAY, m(("size probe", "generator/target/*/*: decode_size templates"), ("decoder", "generator/target/*/*: decode templates"), ("what a codec says of its frames", "generator/target/*/*: dynamic and size templates")),
 state=(("receive buffer", "bytes received and not yet consumed", "caller of the generated code"),),
 observe=("decode_size", "decode", "fields after decode"),
 tech="seeded schedules of fragmentation, resets, crashes and relays over simulated streams; exactly-once and in-order history check and bounded-step liveness after faults stop", note=CODEC_NOTE)
prop("C03", "The size probe reports completeness exactly and never over-asks",
 "Given any proper prefix of a valid frame the size probe answers with a negative requirement that is larger than what is held and no larger than the frame; given the whole frame, whatever follows it, it answers exactly the frame's size. It reads only the bytes it was given.",
 ["inputs", "schedules", "programs"], "for all schemas, values, truncation points, buffer offsets and trailing bytes",
 "Tests probe a few truncations of fixed schemas; the property must hold for every cut through nested, dynamic and array fields at every offset.",
 LAY, m(("size probe", "generator/target/*/*: decode_size templates"),), observe=("decode_size",),
 tech="truncated and trailing deliveries at every byte position of simulated receive buffers (exact-size allocations under AddressSanitizer for C and C++)", note=CODEC_NOTE)
prop("C04", "Damaged frames are contained",
 "For any damaged frame the size probe answers either that more is needed, that it is unusable, or a size within what is held; decoding what it called complete touches nothing outside it, and either refuses it or consumes exactly the announced size. A frame odd only in enum values the schema does not name keeps all its other fields; targets whose enums are numbers (C, C++, Go, C#) keep the number, Kotlin has null there. Decoders that know how much they hold (all but C and C++ -compat) refuse a cut frame themselves. The receiver then still decodes the next valid frame correctly.",
 ["inputs", "fault_sequences", "programs"], "for all schemas, frames and damage (bit flips, overwrites, cuts, insertions, deletions, inflated length prefixes)",
 "Tests decode frames their own encoder made; almost none is damaged, and no test looks at memory accesses or at consumption after damage.",
 LAY, m(("length checks", "generator/target/*/*: decode_size templates"), ("string and bytes decoding", "generator/target/*/*: decodeNormalFieldString, decodeNormalFieldBytes")), observe=("decode_size", "decode", "AddressSanitizer"),
 tech="seeded corruption of frames in transit, interleaved with valid ones; containment and desynchronisation checks", note=CODEC_NOTE)
prop("C05", "Constants are checked on decode and padding is ignored",
 "Decoding refuses (with the documented -1; Python (False, -1)) a frame whose constant fields do not hold exactly the declared values, at any nesting depth and bit position, and damage confined to padding never changes what is decoded or whether it is accepted. Whatever the object holds, encoding writes the declared constants.",
 ["inputs", "fault_sequences", "programs"], "for all schemas with constants or padding, values and damaged bit positions",
 "Tests check a couple of constants in fixed positions; each constant bit of each type, order, width and nesting has its own generated comparison.",
 LAY, m(("constant comparison", "generator/target/*/*: generateDecodeConstantField, decodeConstantField templates"), ("padding", "generator/target/*/*: generateEncodeVoidField")), observe=("decode",),
 tech="targeted bit-flip faults inside constants, padding and data with the accept/refuse verdict checked against the reference model", note=CODEC_NOTE)
prop("C06", "Encoding fills exactly its window, whatever the memory held before",
 "Encoding into a caller's buffer at an offset writes exactly the frame there, independent of what the buffer held before, and changes no byte outside the window. The size announced beforehand, the size returned and the frame's length agree.",
 ["inputs", "histories", "programs"], "for all schemas, values, offsets and previous buffer contents",
 "Tests encode into fresh zeroed buffers at offset zero, so bits that are OR-ed instead of assigned cannot be seen.",
 LAY, m(("first-touch assignment of each byte", "generator/target/*/*: generateEncodeImpl"), ("array loops", "generator/target/*/*: write field bits helpers")), observe=("encode", "encode_size", "buffer contents"),
 tech="encoding into windows of dirty simulated memory with guard regions", note=CODEC_NOTE)
prop("C07", "Decoding into a used object leaves no trace of its past",
 "After any history of assignments, successful decodes and refused or damaged frames, decoding a valid frame into an object gives exactly that frame's value, and re-encoding it gives the frame back.",
 ["histories", "fault_sequences", "programs"], "for all schemas and sequences of assignments, valid, damaged and constant-violating frames on one object",
 "Tests decode into fresh objects; leftovers in sign bits, partially assigned fields or arrays need a history to show.",
 LAY, m(("decoded fields are assigned afresh", "generator/target/*/*: generateDecodeImpl, decode templates"),), state=(("object fields", "values left by earlier operations", "generated struct/class"),), observe=("fields after decode", "encode"),
 tech="seeded histories of valid and faulty frames on one long-lived object, compared with a reference value", note=CODEC_NOTE)
prop("C08", "With copying enabled decoded values survive their buffer",
 "When decoding is generated to copy (Java, Kotlin, Python and JavaScript always do), every string and byte string of a decoded value stays unchanged after the receive buffer is overwritten, reused for later frames or released.",
 ["schedules", "histories", "programs"], "for all schemas, values and later uses of the receive buffer, for every target and option set that promises copying",
 "Tests never touch the buffer after decoding, so an alias is invisible.",
 TARGETS, m(("copying of strings and bytes", "generator/target/*/*: decodeNormalFieldString, decodeNormalFieldBytes under MemoryCopy"),), observe=("fields after the buffer changed",),
 tech="simulated buffer pool that overwrites, reuses and frees receive buffers behind decoded values", note=CODEC_NOTE)
prop("C09", "C decode with copying survives failing allocation",
 "When an allocation fails while a copying C decoder runs, decode reports an error instead of crashing or returning an incomplete value, and the program can go on to decode the same frame once memory is available. A decode that succeeds although memory was refused holds the whole frame, without leaning on the receive buffer.",
 ["fault_sequences", "inputs", "programs"], "for all schemas, frames and which allocation fails, alone or with all that follow",
 "No test makes an allocation fail.",
 ["generator/target/c/c.go"], m(("allocation in the decoder", "generator/target/c/c.go: decodeNormalFieldString, decodeNormalFieldBytes, decodeNormalFieldStruct"),), observe=("return value of decode", "AddressSanitizer"),
 tech="failing the k-th allocation, or all from the k-th on, for each k, inside the generated decoder", note=CODEC_NOTE)
prop("C10", "Accessors and fields show one state",
 "Values written through generated accessors are what direct field access and encoding see, and what was decoded or assigned directly is what accessors return.",
 ["histories", "inputs", "programs"], "for all schemas, values and interleavings of accessor use, direct access, decoding and encoding in C, C++, Go and Java",
 "Tests call a handful of accessors on fixed schemas once.",
 ["generator/target/c/c.go", "generator/target/cpp/cpp.go", "generator/target/golang/golang.go", "generator/target/java/java.go"], m(("accessor generation", "generator/target/*/*: GenerateMethod, GenerateDefaultGetter, GenerateDefaultSetter"),), observe=("getters", "setters", "fields", "encode"),
 tech="seeded interleavings of accessor, field, receive and send operations on one object against a reference value", note=CODEC_NOTE)
prop("C11", "Equality and hash follow the field values",
 "In targets that generate equality, two objects are equal exactly when all their fields are, whatever history produced them, equality is symmetric and equal objects have equal hashes.",
 ["histories", "inputs", "programs"], "for all schemas, pairs of values and histories (assignment, decoding, decoding after damage) in Java, C# and Kotlin",
 "Tests compare few or no objects and never ones that reached the same fields along different paths.",
 ["generator/target/java/java.go", "generator/target/csharp/csharp.go", "generator/target/kotlin/kotlin.go"], m(("equals and hashCode", "generator/target/java/java.go: structTemplate"), ("Equals and GetHashCode", "generator/target/csharp/csharp.go: structTemplate")), observe=("equals", "hashCode"),
 tech="seeded histories leading pairs of objects to equal, nearly equal and different values", note=CODEC_NOTE)
prop("C12", "Custom accessors and exposed constants mean what the schema says on every target",
 "A custom getter returns the value of its expression over the field's current value, and a custom setter stores the value of its expression over its argument in its field and changes nothing else, whichever target was generated and however the field got its value. This holds wherever the operations stay within the ranges of their types and the divisions and conversions are exact; fields copied in by embedding behave as in the struct they come from.",
 ["inputs", "histories", "programs"], "for all accessor expressions (arithmetic, bitwise, comparison, logic, choice, casts), operands they are defined for, and histories of assignments, setters and received frames",
 "Tests evaluate four fixed expressions once; precedence, literals, casts and types are translated separately for each language.",
 ["compiler/proto_visitor.go", "definition/expr.go", "definition/method.go"] + TARGETS, m(("expression text", "generator/target/*/*: GenerateExpr"), ("accessor generation", "generator/target/*/*: GenerateMethod")), observe=("custom getters", "custom setters", "fields"),
 tech="seeded interleavings of custom getters and setters, assignments and frames exchanged between all targets over a lossy simulated medium, compared with a reference evaluator", note=CODEC_NOTE)

prop("C14", "Decoding without copying needs no memory and shows the receive buffer",
 "Where decoding is generated not to copy, decoded byte strings (in C strings too) are the receive buffer itself: what is changed there in place is what the object and its next encoding show, and in C decoding asks for no memory at all. What is documented to be copied always (strings in C++, Go and C#) stays as decoded.",
 ["inputs", "histories", "fault_sequences", "programs"], "for all schemas with strings or byte strings, values, buffer offsets and sequences of in-place changes, with no memory to be had",
 "Tests compare values right after decoding; whether they are views or copies, and what an exhausted heap would do, never shows.",
 ["README.md: Target Languages (-memcpy: zero-copy, zero-heap-allocate)", "generator/target/c/c.go", "generator/target/cpp/cpp.go", "generator/target/golang/golang.go", "generator/target/csharp/csharp.go"], m(("string and bytes decoding", "generator/target/{c,cpp,golang,csharp}/*: decodeNormalFieldString, decodeNormalFieldBytes, MemoryCopy branches")), state=(("the receive buffer a decoded object refers to", "the frame's strings and byte strings", "caller's memory"),), observe=("fields after the buffer changes", "frames", "allocation requests"),
 tech="seeded in-place changes of the receive buffer under decoded objects and refused allocations, compared with the reference model", note=CODEC_NOTE)

prop("C15", "What a decoder allocates has one owner",
 "Decoding, encoding and probing sizes leave nothing allocated that nobody can release. In C with copying, every string and byte string of a decoded object is a heap block of its own, to be freed once, and these blocks are all that decoding allocated, also when the frame is refused for a wrong constant or an allocation fails (in an object that was zeroed first); without being asked, decoding releases nothing. In C++ everything a decoder allocated is gone when the object is, whatever it decoded, refused or could not allocate before.",
 ["inputs", "histories", "fault_sequences", "programs"], "for all schemas with strings or byte strings, values, frames (whole or with a wrong constant), positions of the failing allocation and sequences of frames through one object",
 "Tests read decoded values and let the process end; a block nobody owns, one that is owned twice or that was never allocated shows only when the caller releases what it was given, and on paths where decoding is refused half way.",
 ["README.md: Target Languages (C and C++ -memcpy: malloc, shared_ptr)", "generator/target/c/c.go", "generator/target/cpp/cpp.go"], m(("string and bytes decoding", "generator/target/{c,cpp}/*: decodeNormalFieldString, decodeNormalFieldBytes, MemoryCopy branches"), ("refusals", "generator/target/{c,cpp}/*: constant checks and failing allocations inside decode")), state=(("heap blocks of generated code", "strings and byte strings of decoded objects", "the object's owner"),), observe=("heap blocks after each call", "pointers of the decoded object", "return values"),
 tech="seeded frames, damaged constants and failing allocations against the real generated codecs, with every heap block of every call tracked and matched with the pointers of the object or with its destruction", note=CODEC_NOTE)

prop("C13", "Codec calls running at once do not disturb one another",
 "Objects share nothing: encoding, decoding and size probes on different objects and different buffers, running at once in several threads, do exactly what each does alone, and so do calls that only read one object, or one received buffer, at the same time.",
 ["schedules", "inputs", "programs"], "for all schemas, values, sets of two to four calls and interleavings of their steps (whole calls in turns where the language has one thread)",
 "Every test calls the generated code from one thread; state that calls share (static scratch space, cached helpers, lazily built tables) is invisible until two calls overlap.",
 TARGETS, m(("state outside the object", "generator/target/*/*: file-level helpers, static members and module variables of the templates"), ("encoders and decoders", "generator/target/*/*: generateEncodeImpl, generateDecodeImpl")), state=(("statics, globals and module variables of generated code", "whatever one call leaves for another", "generated code"),), observe=("frames", "fields after decode", "return values"),
 tech="seeded cooperative scheduling of several threads through the real generated codecs, switching at instrumented points inside the calls; every call's result compared with the reference model", note=CODEC_NOTE)

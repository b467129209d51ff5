#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

SCOPE = ("Message types: pointers to structs whose fields are scalars, strings, bytes, enums (int32), message pointers, "
         "proto.Option of a scalar, pointers to scalars, slices and maps of those, with well formed protobuf tags and distinct field numbers 1..2^29-1.")

prop("C01", "Round trip: decoding an encoding gives the message back",
     "Encoding any message and decoding the bytes into a fresh message of the same type succeeds and gives a message equal to the original, bit for bit in floating point numbers and with presence preserved. "
     "The only differences allowed are those the format cannot express: an empty list or map may come back nil, and a nil list element comes back empty.",
     ["inputs", "programs"],
     "every message type (built at random, and recursive ones) and every value of it; " + SCOPE,
     "The round trip tests use about twenty fixed structs with one value each; the type space (kind x cardinality x field number x nesting) and the values at length and growth boundaries are unbounded.",
     ["proto/proto.go", "proto/struct.go", "proto/walker.go", "proto/normal_codec.go", "proto/required_codec.go", "proto/option_codec.go", "proto/slice.go", "proto/map.go"],
     [("matching size/encode/decode function triples per Go type and tag", "proto/walker.go structInfo, codec, required"),
      ("map entries decoded through a synthetic struct", "proto/map.go mapDecodeFuncOf"),
      ("slice growth while decoding", "proto/slice.go sliceDecodeFuncOf")],
     ["proto.Marshal", "proto.Unmarshal"])

prop("C02", "Size is exactly the length of the encoding",
     "For every message, the size reported by Size equals the number of bytes Marshal produces, for the message itself and for every message nested in it, also after the message was changed in place. "
     "Every length prefix in the encoding is therefore the true length of what follows it.",
     ["inputs", "programs"],
     "every message type and every value; nil messages, nil elements, empty and large maps and lists included. " + SCOPE,
     "The size tests compare a dozen fixed values; a wrong size for one kind, tag length or map shape needs that combination, and it corrupts only the length prefixes of enclosing messages.",
     ["proto/size.go", "proto/proto.go", "proto/struct.go", "proto/map.go", "proto/slice.go", "proto/walker.go", "proto/normal_codec.go", "proto/required_codec.go", "proto/option_codec.go"],
     [("size functions mirror encode functions", "proto/normal_codec.go, proto/required_codec.go, proto/option_codec.go"),
      ("varint length estimate", "proto/size.go sizeOfVarint")],
     ["proto.Size", "proto.Marshal"])

prop("C03", "Encodings conform to the protobuf wire format",
     "The bytes produced for any message are a valid encoding of that same message under the schema its tags declare: a conforming implementation reads back exactly the same fields, presence and values, and finds no unknown fields. "
     "The encoding has no superfluous bytes: it is as long as the canonical unpacked encoding, so nothing is emitted twice, absent fields emit nothing and all varints are minimal.",
     ["inputs", "programs"],
     "every message type and value for which a descriptor can be written (valid UTF-8 strings); judged by google.golang.org/protobuf's dynamic messages and by an independent reference codec.",
     "The fixtures compare a handful of hand-encoded messages; a symmetric error in encoder and decoder (zigzag, fixed width, sign extension of negative int32, map entry layout) survives every round trip test.",
     ["proto/encode.go", "proto/normal_codec.go", "proto/required_codec.go", "proto/option_codec.go", "proto/map.go", "proto/slice.go", "proto/walker.go", "proto/struct.go"],
     [("tag parsing and codec selection", "proto/struct.go parseStructTag, proto/walker.go"),
      ("varint, zigzag and little endian primitives", "proto/encode.go")],
     ["proto.Marshal"])

prop("C04", "Every legal encoding decodes to the value it denotes",
     "Any byte string that is a legal encoding of a message decodes without error to the value the protobuf specification assigns to it, however the encoder chose to write it: any field order, repeated singular fields (the last wins, messages merge), non-minimal varints, oversized varints in narrower fields, packed or unpacked or mixed repeated scalars, split messages, map entries with missing, repeated or reordered parts.",
     ["inputs", "programs"],
     "every message type and every legal encoding of every value of it; judged by google.golang.org/protobuf where a descriptor exists and by an independent reference decoder.",
     "The tests decode only what this library's own encoder wrote plus three captured files; encodings its encoder never produces are not reached at all.",
     ["proto/decode.go", "proto/struct.go", "proto/normal_codec.go", "proto/slice.go", "proto/map.go", "proto/walker.go"],
     [("field dispatch loop", "proto/struct.go decode"), ("packed lists", "proto/struct.go decodePacked"),
      ("varint decoder", "proto/decode.go decodeVarint"), ("message merge", "proto/walker.go structCodec decode")],
     ["proto.Unmarshal"])

prop("C05", "Decoding arbitrary bytes is safe",
     "Decoding any byte string into any message type returns, with or without an error: it does not panic, crash, hang, modify the input, or allocate memory out of proportion to the length of the input. "
     "This holds for random, truncated, mutated and adversarial inputs, such as huge length prefixes and deep nesting.",
     ["inputs", "programs"],
     "every byte string and every message type; the memory bound is a constant plus a factor (depending on the message type) times the input length. Nesting beyond one million levels is a recorded finding.",
     "The fuzz corpus covers five scalar decoders only; the struct loop, map and list decoders work on unsafe pointers and are only tested on their own output.",
     ["proto/struct.go", "proto/decode.go", "proto/normal_codec.go", "proto/map.go", "proto/slice.go"],
     [("length checks before slicing", "proto/struct.go decode, proto/decode.go decodeVarlen"),
      ("bounds of skipped fields", "proto/struct.go decode")],
     ["proto.Unmarshal", "runtime.MemStats.TotalAlloc"])

prop("C06", "Malformed input is rejected, and only malformed input",
     "Decoding fails exactly when the input is not a well formed encoding for the type: truncated tag, varint, fixed-width value or length-delimited value, a varint longer than 64 bits, a length that exceeds its enclosing message, a wire type that contradicts a known field's type (packed lists aside), an unsupported wire type. "
     "The verdict covers nested messages, packed lists, map entries and skipped fields too, and no input that passes is silently cut short.",
     ["inputs", "programs"],
     "every byte string and every message type, with field numbers in 1..2^29-1 (others are unspecified); groups count as unsupported. Judged by an independent strict parser.",
     "Tests contain a few truncated inputs; which prefix or corruption is accepted by mistake depends on the position inside nested structures.",
     ["proto/struct.go", "proto/decode.go", "proto/map.go", "proto/slice.go", "proto/walker.go", "proto/normal_codec.go"],
     [("per-wire-type framing in the decode loop", "proto/struct.go decode"), ("varint overflow check", "proto/decode.go decodeVarint")],
     ["proto.Unmarshal"])

prop("C07", "Decode errors identify what went wrong and where",
     "When decoding fails inside a field, the error is an UnmarshalFieldError carrying the number and wire type of the outermost field on the path to the defect, and unwrapping it gives one such error for each further field on the path, in order (key and value of a map entry counting as fields 1 and 2). "
     "The cause is reachable through errors.Is: io.ErrUnexpectedEOF when the input ends early, ErrWireTypeUnknown for an unsupported wire type on an undeclared field; an invalid destination gives an InvalidUnmarshalError with its type. The text of an error names every field number on the path, and the cause.",
     ["inputs", "programs"],
     "every malformed input with exactly one defect (one truncation, one bad wire type, one wire type mismatch) at any depth, in any message type.",
     "Existing tests look at one error of each type; the path and cause reported depend on the nesting, map or list the defect is in.",
     ["proto/error.go", "proto/struct.go", "proto/map.go", "proto/walker.go", "proto/decode.go"],
     [("fieldError wrapping", "proto/error.go, proto/struct.go decode")],
     ["error returned by proto.Unmarshal", "errors.Is", "errors.As"])

prop("C08", "Decoding merges: concatenated input equals successive decodes",
     "Decoding into a message that already holds data merges as protobuf specifies: scalars and strings present in the input are replaced, messages merge recursively, lists are appended to, map entries are added or replaced whole, and everything not mentioned stays as it was. "
     "Consequently decoding the concatenation of any valid encodings equals decoding them one after another into the same message, wherever the cuts are.",
     ["inputs", "histories"],
     "every sequence of valid encodings of a message type, every starting value, every way of cutting the sequence at record boundaries; reference model of merge as oracle.",
     "No test decodes twice into the same message with overlapping fields; the state carried over (spare slice capacity, existing maps, pointers, options) only matters then.",
     ["proto/struct.go", "proto/walker.go", "proto/map.go", "proto/slice.go", "proto/option_codec.go", "proto/normal_codec.go"],
     [("decode into existing pointers", "proto/walker.go structCodec, pointerDecodeFuncOf"),
      ("append to existing slices", "proto/slice.go sliceDecodeFuncOf"), ("insert into existing maps", "proto/map.go mapDecodeFuncOf")],
     ["proto.Unmarshal"])

prop("C09", "Unknown fields are skipped without any other effect",
     "Inserting well formed records with field numbers the type does not declare, at any position and any depth of a valid encoding, does not change the decoded result. "
     "Decoding with a type that declares only some of the fields gives exactly those fields' values, as schema evolution requires.",
     ["inputs", "programs"],
     "every valid encoding, every set of inserted unknown varint, fixed32, fixed64 and length-delimited records (non-minimal varints, field numbers up to 2^29-1, nested and inside map entries), every sub-schema.",
     "Tests skip one unknown field of each type at top level; skipping arithmetic errors show only for particular positions, sizes and neighbouring data.",
     ["proto/struct.go", "proto/map.go"],
     [("skip branch of the decode loop", "proto/struct.go decode")],
     ["proto.Unmarshal"])

prop("C10", "Presence is kept exactly",
     "A field with presence (Option, pointer, bytes, message) is encoded exactly when it is set, whatever its value, zero included, and after decoding it is set exactly when the input contained it; a field without presence is encoded exactly when it is not zero, negative zero counting as not zero. "
     "An absent field never becomes present nor a present one absent through encoding, decoding, merging or nesting.",
     ["inputs", "programs"],
     "every combination of set/unset/zero over all kinds of fields and nesting depths, encoders of either presence discipline.",
     "Tests set one optional field at a time to non-zero values; set-to-zero combined with each kind, tag width and container is what goes wrong.",
     ["proto/option.go", "proto/option_codec.go", "proto/normal_codec.go", "proto/walker.go", "proto/required_codec.go", "proto/struct.go"],
     [("Option some flag set on decode", "proto/option_codec.go"), ("nil checks", "proto/walker.go pointer*FuncOf, structCodec"),
      ("zero checks of implicit fields", "proto/normal_codec.go")],
     ["proto.Marshal", "proto.Unmarshal", "proto.Option.IsSome"])

prop("C11", "Maps: every entry once, last entry wins, missing parts default",
     "Encoding a map emits each entry exactly once with both key and value, and nothing for a nil or empty map; decoding inserts each entry, a later entry with the same key replacing the earlier value as a whole, with a missing key or value taken as its default. "
     "This holds for every key and value type, at any map size, and entries never influence each other.",
     ["inputs", "histories"],
     "all key types x value types x sizes (runtime map growth boundaries included) x entry encodings x existing destination map contents.",
     "Map tests cover four type pairs with up to four entries; the pooled scratch entry, map growth during decode, iterator use and zigzag or fixed variants need other combinations.",
     ["proto/map.go", "internal/runtime_reflect/map.go", "proto/walker.go"],
     [("pooled scratch entry reset after use", "proto/map.go mapDecodeFuncOf"), ("iterator over runtime map", "internal/runtime_reflect/map.go MapIter")],
     ["proto.Marshal", "proto.Unmarshal"],
     [dict(name="entry pool", meaning="scratch key/value struct reused between entries, must be zero between uses", where="proto/map.go mapDecodeFuncOf")])

prop("C12", "Lists keep every element, in order, through growth",
     "Encoding a list emits every element in order, zero, empty and nil elements included; decoding appends each element in order to what the list already held, without disturbing existing elements, whatever the length, the destination's capacity and the contents of its spare capacity.",
     ["inputs", "histories"],
     "all element types x lengths across growth steps (0,1,9,10,11,19..21,39..41,... thousands) x destination len/cap/spare contents x packed, unpacked and mixed input.",
     "List tests use up to a few elements and fresh destinations; growth and spare capacity handling through unsafe memory is only exercised at the first step.",
     ["proto/slice.go", "internal/runtime_reflect/slice.go", "proto/struct.go"],
     [("doubling growth and copy", "proto/slice.go growSlice"), ("element cleared before decode", "proto/slice.go sliceDecodeFuncOf"),
      ("packed loop", "proto/struct.go decodePacked")],
     ["proto.Marshal", "proto.Unmarshal"])

prop("C13", "How a type encodes does not depend on other types or use order",
     "The encoding, size and decoding of a message type depend only on its own declaration: not on which other types were used before in the process, in which order, or on which neighbouring fields share the same Go type with different tags. "
     "Running any history of operations on any set of types gives, for each operation, the result it gives in a fresh process.",
     ["histories", "programs"],
     "every set of message types with colliding Go types (same slice, map, pointer or element types under different tags, shared submessages) and every order of first use.",
     "Each test uses its own types once in one process in a fixed order; a codec cached under too coarse a key shows only for particular pairs of types in a particular order.",
     ["proto/proto.go", "proto/walker.go", "proto/slice.go", "proto/map.go", "proto/struct.go"],
     [("struct info cache", "proto/proto.go cachedStructInfoOf"), ("codec cache", "proto/walker.go structCodec, publish"), ("slice codec cache", "proto/slice.go sliceCodecOf")],
     ["proto.Marshal", "proto.Unmarshal", "proto.Size in a fresh process"],
     [dict(name="structInfoCache, codecCache, sliceMap", meaning="process wide caches keyed by type or codec", where="proto/proto.go, proto/slice.go")])

prop("C14", "Concurrent use is safe, also at first use of a type",
     "Any number of goroutines may encode, size and decode concurrently, different messages of the same or of related types, or the same message read-only, including when the types have never been used before; each gets the result it would get alone. "
     "There is no data race, deadlock or crash, and recursive and mutually recursive types are no exception.",
     ["schedules", "histories"],
     "all interleavings reached by repeated races at first use over many fresh types (recursive families included) with the race detector on, and mixed workloads on shared types afterwards.",
     "No test is concurrent; the caches and the entry pool are the shared state, and half-built codecs are visible only in a narrow window at first use.",
     ["proto/proto.go", "proto/walker.go", "proto/slice.go", "proto/map.go"],
     [("caches filled by LoadOrStore after the walk", "proto/walker.go publish, proto/slice.go sliceCodecOf"), ("sync.Pool of scratch entries", "proto/map.go")],
     ["race detector reports", "results of concurrent calls"],
     [dict(name="structInfoCache, codecCache, sliceMap, structPool", meaning="shared mutable state", where="proto/proto.go, proto/slice.go, proto/map.go")])

prop("C15", "Calls are pure: no aliasing, no side effects, deterministic",
     "Encoding and sizing do not modify the message; decoding does not modify the input, and writes nothing but the declared fields of the destination: untagged and unexported fields and memory around it stay untouched, and so do the strings it held before, which others may hold too. "
     "Decoded strings, bytes and lists share no memory with the input or with each other, the encoded bytes share none with the message, and encoding the same map-free message twice gives the same bytes.",
     ["inputs", "histories"],
     "every message type and value, followed by arbitrary overwriting of the input, the output or the first result; guard fields between all fields.",
     "Tests drop their inputs after the call and have no guard fields, so aliasing and out-of-bounds writes through unsafe pointers go unseen.",
     ["proto/normal_codec.go", "proto/struct.go", "proto/slice.go", "proto/map.go", "proto/proto.go", "proto/walker.go"],
     [("copying string and bytes decoders", "proto/normal_codec.go decodeString, decodeBytes"), ("offsets of exported tagged fields", "proto/walker.go structInfo")],
     ["proto.Marshal", "proto.Unmarshal", "proto.Size", "memory of inputs and destinations"])

prop("C16", "Invalid arguments are reported, not acted on",
     "Decoding non-empty input into anything but a non-nil pointer to a struct (nil, a nil pointer, a struct value, a pointer to a non-struct) returns an InvalidUnmarshalError naming its type, and encoding something that is not a pointer returns an error; neither panics nor writes anywhere. Size, which cannot return an error, panics on what is not a pointer instead of returning a number. "
     "A nil pointer to a message type encodes to nothing and has size 0, and decoding empty input changes nothing.",
     ["inputs"],
     "arguments of every kind of Go type, at nil and non-nil values, and every message type.",
     "Two cases are tested; the argument check reads interface internals through unsafe, where the wrong kind means reading arbitrary memory.",
     ["proto/proto.go", "proto/error.go"],
     [("argument checks", "proto/proto.go Marshal, Unmarshal"), ("InvalidUnmarshalError", "proto/error.go")],
     ["proto.Marshal", "proto.Unmarshal", "proto.Size"])

prop("C17", "Memory stays valid under garbage collection and checked pointers",
     "Messages produced by decoding stay intact under garbage collection, however often it runs and whatever memory is reused meanwhile: everything reachable from the message is visible to the collector, also inside maps, grown lists, options and pointers. "
     "No operation performs an invalid unsafe pointer conversion or touches memory outside the objects involved.",
     ["inputs", "schedules"],
     "all message types and values decoded and re-encoded under a collector that runs continuously and overwrites freed memory, in a build with pointer checking.",
     "Garbage collection rarely runs within a unit test, so memory that the collector does not know about is still intact when the test compares it.",
     ["internal/runtime_reflect/slice.go", "internal/runtime_reflect/map.go", "proto/slice.go", "proto/map.go", "proto/walker.go", "proto/struct.go"],
     [("typed allocation and typed copies", "internal/runtime_reflect MakeSlice, CopySlice, Assign, MapAssign"), ("reflect.New for messages", "proto/walker.go structCodec")],
     ["decoded messages after forced collections", "checkptr and runtime faults"])

prop("C18", "Generated Go code means the same as its .proto file",
     "For any .proto file the plugin accepts, every generated struct has one field per message field with the Go type, tag, number, cardinality and presence of its declaration, and enum constants have the declared values. "
     "Messages of generated types, encoded and decoded by this library, are interchangeable with a conforming implementation that works from the same .proto file (oneof members and groups are recorded findings). The getter of a oneof member gives the member when it is set and its zero default otherwise.",
     ["programs", "inputs"],
     "randomly generated files: proto2 and proto3, all field kinds, labels, proto3 optional, maps, nested and recursive messages, enums, oneofs, imports, packages and names; and random values of them.",
     "The generator has no tests at all; the one checked-in generated file uses a small part of the language.",
     ["internal/generator/main.go", "internal/generator/init.go", "cmd/protoc-gen-golite/main.go", "proto/walker.go", "proto/struct.go"],
     [("field types", "internal/generator/main.go fieldGoType"), ("field tags", "internal/generator/main.go fieldProtobufTagValue"), ("tag parser of the runtime", "proto/struct.go parseStructTag")],
     ["CodeGeneratorResponse of protoc-gen-golite", "proto.Marshal and proto.Unmarshal on generated types"])

prop("C19", "The generator's output compiles, is complete and deterministic",
     "For any valid set of .proto files whose Go names do not clash the plugin emits one Go file per requested .proto file, which compiles together with the files it imports, declares every message, enum, oneof interface, wrapper and getter and the forwarding declarations for public imports, and leaves message types non-comparable. Asked for annotations, it annotates every declaration with its place in the .proto file. "
     "The output is identical for identical requests, and a file's output does not depend on which other files are requested along with it.",
     ["programs", "configurations"],
     "randomly generated sets of files with imports (public, shared package, cross package), name clashes, keywords, comments, deprecated options and plugin parameters.",
     "No test runs the plugin; name conflicts, imports and comments interact in ways a single sample file does not show.",
     ["internal/generator/main.go", "internal/generator/init.go", "cmd/protoc-gen-golite/main.go"],
     [("file generation and forwarding", "internal/generator/main.go GenerateFile, genImport"), ("oneof wrappers and getters", "internal/generator/main.go genMessageOneofWrapperTypes, genMessageGetterMethods"), ("non-comparable marker", "internal/generator/main.go genMessageFields")],
     ["CodeGeneratorResponse of protoc-gen-golite", "Go type checker and compiler"])

prop("C20", "Option obeys the laws of an optional value",
     "Some(v) holds v and nothing else: IsSome is true, IsNone false, and Unwrap and UnwrapOr give v back, whatever v is, zero included; None and the zero Option hold nothing: IsSome is false, Unwrap gives the zero value and UnwrapOr its argument. "
     "The helper constructors equal Some, options are independent values (copying one and overwriting or decoding into the copy leaves the original alone), and a decoded option behaves like a constructed one.",
     ["inputs", "histories"],
     "all operation sequences on options of all scalar types and of arbitrary other types, mixed with decoding into options.",
     "Options are only used as fields in tests; no test states the laws, and zero values and reuse by decoding are not covered.",
     ["proto/option.go", "proto/option_codec.go"],
     [("some flag and value", "proto/option.go"), ("option decoders", "proto/option_codec.go")],
     ["proto.Some", "proto.None", "Option methods", "proto.Unmarshal"])

prop("C21", "Recursive and deeply nested messages work like flat ones",
     "Message types that refer to themselves, directly, mutually, through lists or through map values, encode, size, decode and round trip exactly like any other type, at any nesting depth up to hundreds of thousands of levels of decoding, whichever type of a recursive family is used first. "
     "Lengths of nested messages are right at every level and nesting never changes how a field is interpreted.",
     ["inputs", "programs", "histories"],
     "recursive type families (self, mutual, through list, map and both), every entry type into the family as the first one used, random tree shapes, depths from 0 to hundreds of thousands.",
     "One two-level recursive struct is tested; codecs for recursive types are built while still incomplete, and which entry point comes first matters.",
     ["proto/walker.go", "proto/struct.go", "proto/proto.go"],
     [("codec registered before its fields are walked", "proto/walker.go structCodec, structInfo"), ("late publication", "proto/walker.go publish")],
     ["proto.Marshal", "proto.Unmarshal", "proto.Size"])

prop("C22", "Checked-in generated codecs match their generators",
     "Running the repository's code generators on its hand-written codecs succeeds and gives code that builds and behaves exactly as the checked-in generated codecs do: same bytes, same sizes, same decoded values and same errors for every message and input.",
     ["inputs", "programs"],
     "all option, required, list, map and pointer codecs of all kinds, over random types, values and inputs, in a scratch copy with regenerated files against the tree as checked in.",
     "Nothing runs the generators; a fix applied to only one of source, generator and generated file is invisible until the next regeneration.",
     ["proto/gen/required/main.go", "proto/gen/option/main.go", "proto/normal_codec.go", "proto/required_codec.go", "proto/option_codec.go", "proto/proto.go"],
     [("go:generate directives", "proto/proto.go"), ("AST transformation", "proto/gen/required/main.go"), ("template", "proto/gen/option/main.go")],
     ["proto.Marshal, proto.Size and proto.Unmarshal of both trees"])

prop("C23", "Every scalar value is encoded exactly, in every position",
     "Every value of every scalar kind is encoded with exactly the bytes the wire format prescribes and decoded to exactly that value, in every position it can appear in: plain, Option, required, pointer, list element, packed element, map key, map value, and at every field number. "
     "Integer extremes, sign changes, varint length boundaries, negative zero, infinities, denormals and NaN payloads are no exception.",
     ["inputs"],
     "kind x position x field number class, with all varint length boundaries +-1, every power of two +-1 in both signs, float bit patterns of every class, and random values; exact expected bytes computed independently.",
     "Tests sample two or three values per kind in plain fields; errors hide at single boundaries of single kinds in single positions.",
     ["proto/encode.go", "proto/decode.go", "proto/size.go", "proto/normal_codec.go", "proto/required_codec.go", "proto/option_codec.go", "proto/walker.go"],
     [("per-length varint encoder", "proto/encode.go appendVarint"), ("varint decoder", "proto/decode.go decodeVarint"), ("zigzag", "proto/encode.go encodeZigZag64, proto/decode.go decodeZigZag64")],
     ["proto.Marshal", "proto.Size", "proto.Unmarshal"])

prop("C24", "A failed call leaves nothing behind for later calls",
     "After any number of calls that fail, at any point of any input, later calls behave as if these had never happened: later decodes of any type into fresh messages give exactly the values of their own input, and later encodes exactly their own message's bytes. "
     "A failed decode leaves the destination in a usable state: it can be encoded, sized, and decoded into again, and holds nothing but what it held before and values from a prefix of the input.",
     ["histories", "fault_sequences", "inputs"],
     "all histories of valid and invalid decodes (truncated, corrupted, cut inside map entries, lists, nested messages) and encodes over several types in one process.",
     "No test continues after a failure; the pooled map scratch entries and half-filled list slots are the places where leftovers would survive.",
     ["proto/map.go", "proto/slice.go", "proto/struct.go"],
     [("scratch entry reset also on error", "proto/map.go mapDecodeFuncOf"), ("list length set only on success", "proto/slice.go sliceDecodeFuncOf")],
     ["proto.Unmarshal after errors"],
     [dict(name="entry pool", meaning="scratch entries returned to the pool after errors", where="proto/map.go")])

prop("C25", "Unsupported declarations are refused on every use, and leave no trace",
     "A message type with a field declaration that has no protobuf meaning (a Go type which is no protobuf type, such as int, an array, a struct by value or an interface, alone or as element, key or value of a list or map; a tag, of the field or of the key or value of a map, whose wire type, field number or label cannot be understood, or whose field number is missing or out of range) is refused with a panic or an error by Marshal, Size and Unmarshal, whatever message type the use starts from and however often it is repeated. "
     "It is never silently skipped or encoded as something else, also not after an earlier refusal, and refusing it leaves all other message types, including those which share types with it, fully usable.",
     ["programs", "histories"],
     "sets of message types with one to three bad declarations put at random places, reachable or not from the type in use, and histories of Marshal, Size, Unmarshal and Marshal of nil over all of them in one process; types which reach a bad declaration must be refused, the others must agree with the reference codec.",
     "Tests never use a type twice after it was refused, nor its neighbours; whether a half walked type reaches a cache depends on the order of first uses and on which types share which.",
     ["proto/walker.go", "proto/struct.go", "proto/proto.go", "proto/map.go"],
     [("panic on unsupported types and tags", "proto/walker.go codec, required, structInfo; proto/struct.go parseStructTag"), ("caches are filled only after a complete walk", "proto/walker.go publish")],
     ["proto.Marshal", "proto.Size", "proto.Unmarshal"])

prop("C26", "The library keeps nothing of messages, inputs and outputs after a call",
     "Once a call of Marshal, Size or Unmarshal has returned, successfully or with an error, the library refers to nothing of it: the message, everything reachable from it, the input and the output can be garbage collected as soon as the caller drops them, whatever other messages, inputs and outputs are still in use. In particular a decoded message does not keep its input alive, nor an output its message. "
     "Calls start no goroutines that outlive them, and once all types of a program have been used the memory in use does not grow with the number of calls, valid or not, that return.",
     ["histories", "inputs"],
     "histories of decodes (legal, malformed, into fresh and populated messages), encodes and invalid arguments over types new to the process, with any subset of the results still held: weak pointers to everything else must be cleared by a few garbage collections; and the same histories repeated thousands of times with varied inputs: the heap must not grow.",
     "Tests exit after a few calls and never look at the memory; caches, pools, scratch values and error details are where a long running server would lose it.",
     ["proto/proto.go", "proto/map.go", "proto/slice.go", "proto/walker.go", "proto/normal_codec.go", "proto/error.go"],
     [("scratch entry cleared before it goes back to the pool", "proto/map.go mapDecodeFuncOf"), ("strings and bytes are copied out of the input", "proto/normal_codec.go decodeString, decodeBytes"), ("global caches hold types and codecs only", "proto/proto.go structInfoCache, codecCache; proto/slice.go sliceMap")],
     ["proto.Marshal, proto.Size, proto.Unmarshal", "runtime.GC, weak pointers, runtime.MemStats"])

prop("C27", "Compatible versions of a message type read each other's encodings",
     "Two message types which differ by changes that the protobuf format calls compatible read what the other wrote, in both directions and through any chain of such versions: fields added, dropped or declared in another order; kinds of one wire format exchanged (int32, uint32, int64, uint64, bool, enum; sint32, sint64; fixed32, sfixed32; fixed64, sfixed64; string, bytes; message and bytes holding its encoding), with values cut like a conversion does (bool: not zero); plain, optional, required and pointer fields; singular and repeated (the last element wins, messages are merged); map and repeated entry messages. "
     "Fields unknown to the reader are skipped, fields unknown to the writer stay absent, all others arrive.",
     ["programs", "histories", "inputs"],
     "random message types, one to three versions of each with random compatible changes in every message, values, and a sequence of versions which decode what the one before wrote and write it again; a reference codec says what every version must read.",
     "Tests encode and decode with one and the same type. Mixed deployments, where the versions live in one process or in two, are what the wire format exists for.",
     ["proto/struct.go", "proto/walker.go", "proto/normal_codec.go", "proto/option_codec.go", "proto/required_codec.go", "proto/map.go", "proto/slice.go"],
     [("fields found by number, unknown ones skipped", "proto/struct.go decode"), ("values converted from 64 bits to the kind", "proto/normal_codec.go decodeInt32, decodeUint32, decodeBool, decodeZigzag32")],
     ["proto.Marshal by one type, proto.Unmarshal by another"])

prop("C28", "Generated code carries the comments and deprecations of its .proto file",
     "In the plugin's output every enum, enum value, message, field and oneof is documented by its own leading comment of the .proto file and no other, complete and in order, whatever text the comment holds; every field and enum value carries its own trailing comment if that has one line. "
     "Every deprecated message, field, enum and enum value, and the getter of a deprecated oneof member, says so in a line starting with Deprecated:, and nothing else does; the header names the source file, or says that the file is deprecated. A oneof's documentation names all its wrapper types, in order.",
     ["programs", "inputs"],
     "sets of .proto files with comments of all shapes (empty, several lines, blank lines, quotes, comment markers, code, other scripts, percent signs) before and behind all kinds of declarations, all combinations of deprecated declarations; the comments of the parsed output, looked up by Go name, against those of the descriptors.",
     "Tests generate one fixed file and compare nothing. Comments are attached by source path, so that an error shows up only with nesting, oneofs, or certain neighbours.",
     ["internal/generator/main.go"],
     [("comments passed through", "internal/generator/main.go genEnum, genMessage, genMessageField, genMessageOneofWrapperTypes"), ("deprecation", "internal/generator/main.go appendDeprecationSuffix, genGeneratedHeader"), ("trailing comments", "internal/generator/main.go trailingComment")],
     ["protoc-gen-golite"])

prop("C29", "Calls allocate only the objects their results consist of",
     "A constant number of objects per call aside, decoding allocates at most one object for each string, bytes value, message and scalar held by pointer in the input, the growth steps of each list, whose capacity doubles, and a bounded number for each map and map entry; plain and optional scalars cost no heap object, however many there are. Encoding allocates the output alone, and sizing nothing, but for an iterator per visit of a map.",
     ["programs", "inputs"],
     "every message type and value; sets of plain, optional, required, packed and repeated scalars above all: the objects allocated by Unmarshal, Marshal and Size are counted and compared with what the value consists of.",
     "The README promises less heap allocation; tests do not count, and the benchmarks use one type. A codec which allocates does so for one kind and position only.",
     ["proto/option_codec.go", "proto/slice.go", "proto/map.go", "proto/proto.go", "proto/walker.go"],
     [("options hold their values inline", "proto/option.go"), ("output allocated once, at its size", "proto/proto.go Marshal"), ("scratch entries reused", "proto/map.go mapDecodeFuncOf"), ("doubling", "proto/slice.go growSlice")],
     ["proto.Marshal", "proto.Size", "proto.Unmarshal"])

prop("C30", "32-bit platforms encode and decode exactly what 64-bit ones do",
     "The library builds for 32-bit platforms and behaves there as the other properties say: field numbers, lengths, varints and values beyond 32 bits are not cut off, layouts of fields and options are those of the platform, and the same input is accepted or rejected with the same result.",
     ["programs", "inputs"],
     "every message type, value and input of the other properties, above all inputs with field numbers, lengths and varints beyond 32 bits, run in a GOARCH=386 build against the same reference models.",
     "The tests run on one platform, where int, uint and pointers have 64 bits: code which confuses them with uint64, or knows the size of a string header, is right there.",
     ["proto/decode.go", "proto/struct.go", "proto/slice.go", "proto/option.go", "proto/normal_codec.go", "internal/runtime_reflect/slice.go"],
     [("lengths compared as uint64 before they become int", "proto/decode.go decodeVarlen, proto/struct.go decode"), ("field numbers kept in 64 bits", "proto/proto.go fieldNumber"), ("element sizes and offsets taken from the type", "proto/slice.go, proto/walker.go")],
     ["proto.Marshal", "proto.Size", "proto.Unmarshal"])

prop("C31", "The library works with every version of Go, whatever its runtime",
     "Built by any version of Go from 1.23 to the newest, whose maps and runtime differ, the library behaves as the other properties say: the runtime functions it links to directly are called with what each version expects, iterators have room for what each version stores in them, and no memory is corrupted.",
     ["programs", "inputs", "histories"],
     "every message type, value, input and history of the other properties, maps of all sizes above all, under garbage collection, in builds by go1.23 (old maps) to go1.26 next to the default one.",
     "The tests run with one version of Go. The library reaches into the runtime by go:linkname, with a copy of its map iterator; newer versions use less of it than older ones, so that a smaller copy passes every test.",
     ["internal/runtime_reflect/map.go", "internal/runtime_reflect/slice.go", "proto/map.go", "proto/proto.go", "proto/slice.go"],
     [("a copy of the old runtime's map iterator, which newer ones fill in part", "internal/runtime_reflect/map.go hiter"), ("linknamed runtime functions", "internal/runtime_reflect/map.go, slice.go")],
     ["proto.Marshal", "proto.Size", "proto.Unmarshal"])

prop("C32", "Messages of types generated by protoc-gen-go interchange with its runtime",
     "The library handles the types which the official plugin protoc-gen-go generates (pointers for presence, named enum types, unexported fields of the official runtime, struct tags with json names and defaults which hold commas and keywords), but for oneofs and groups. What it encodes, the official runtime decodes to an equal message; what the official runtime encodes, it decodes to an equal one; merging gives what the official runtime's merging gives. Marshal and Size change nothing and depend on nothing the official runtime keeps in a message, and both may be used on it in turn.",
     ["programs", "inputs", "histories"],
     "messages of types generated by protoc-gen-go (proto2 and proto3 types with fields and maps of every kind, defaults and names which look like tag options; descriptor.proto, plugin.proto and the well-known types), pairs merged, with unknown fields and changed bytes, used with both runtimes in turn.",
     "The library claims wire compatibility and takes over the struct tags of the official plugin; tests use its own types, where presence is an Option, and tags have fewer parts.",
     ["proto/struct.go", "proto/walker.go", "proto/normal_codec.go", "proto/required_codec.go", "proto/map.go"],
     [("parsing of struct tags", "proto/struct.go parseStructTag"), ("unexported fields skipped", "proto/walker.go structInfo"), ("pointers to scalars", "proto/walker.go pointer")],
     ["proto.Marshal", "proto.Size", "proto.Unmarshal"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")

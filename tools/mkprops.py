#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["observe_at"]=observe or []
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Binary round trip",
 "Encoding any value of a supported type to binary and decoding the bytes into a fresh variable of that type succeeds and gives the value back, bare or length-prefixed, for every nesting of structs, lists, arrays, pointers, times and registered interface values. Only the documented normalisations apply: nil and empty lists are not distinguished, a pointer to a zero integer, an empty string or an empty list may come back nil, a pointer list element holding a default value comes back nil (or, for a boolean, as a pointer to false), a missing time or time pointer is 1970-01-01 UTC, times lose their location, and an interface value comes back as a pointer exactly when its concrete type was registered as one. Unexported fields and fields tagged json \"-\" are not part of the value.",
 ["inputs","configurations"],"all supported types (any nesting and field tags), all values of them, all registrations of the concrete types",
 "The tests round-trip fuzzed values of a few dozen fixed struct types; they never vary the type, rarely reach varint and length boundaries, and compare only with themselves.",
 ["binary-encode.go","binary-decode.go","amino.go","reflect.go"],
 [("encoder","binary-encode.go encodeReflectBinary*"),("decoder","binary-decode.go decodeReflectBinary*"),("default values","reflect.go isDefaultValue, defaultValue")],
 ["MarshalBinaryBare/UnmarshalBinaryBare and the length-prefixed pair"])

p("C02","Binary encoding is exactly the documented proto3-compatible layout",
 "The bytes produced for any supported value are exactly those of the Amino specification: fields numbered from 1 in declaration order over exported, non-ignored fields, each with the proto3 key for its type; base-128 varints (zigzag for 8- and 16-bit signed integers), little-endian fixed32/fixed64 where tagged and for floats, length-delimited strings, bytes, structs and times; default-valued fields left out unless tagged write_empty or set through a pointer. Scalar lists are packed and all other lists are repeated fields, interface values carry the prefix (and, when ambiguous or requested, disambiguation) bytes of their concrete type, and a registered concrete value at top level starts with its prefix bytes. A value that is not a struct or list of structs is wrapped at top level as field 1.",
 ["inputs","configurations"],"all supported types with all combinations of field tags, all values, all registrations",
 "Tests compare a handful of literals and a few proto3 messages; the layout is a function of every type, tag and value combination.",
 ["binary-encode.go","encoder.go","codec.go","reflect.go","amino.go"],
 [("layout","binary-encode.go encodeReflectBinaryStruct/List, writeFieldIfNotEmpty"),("field numbering and tags","codec.go parseStructInfo, parseFieldOptions"),("wire types","reflect.go typeToTyp3")],
 ["bytes returned by MarshalBinaryBare"])

p("C03","Binary encoding is deterministic and canonical",
 "The binary encoding of a value depends only on its type, its content and the registered names: it is the same through every encoding entry point (bare, length-prefixed, writer, panicking variants; value or pointer), on every codec with equivalent registrations made in any order, whatever was encoded, decoded or attempted before, and for values that differ only in the identity of pointers, slice capacity or nil versus empty lists. Length-prefixed output is the minimal varint of the length followed by the bare output, and encoding what was decoded from an encoding reproduces that encoding (except that a nil time pointer is decoded as a set one).",
 ["inputs","histories","configurations"],"all values, all entry points, all orders of registration and of preceding calls",
 "Tests call one entry point once on a fresh codec; cached type information, buffers and registration order make the result history-dependent in ways no single call shows.",
 ["amino.go","binary-encode.go","codec.go"],
 [("entry points","amino.go MarshalBinary*"),("type cache","codec.go getTypeInfoWlock")],
 ["bytes returned or written by every MarshalBinary* function"])

p("C04","Binary decoding never crashes, hangs or allocates beyond its input",
 "Decoding arbitrary bytes from an untrusted peer into a variable of any supported type (including registered interfaces), bare, length-prefixed or from a reader, always returns normally with a value or an error: it never panics, never loops, and never allocates memory in proportion to a length that is merely claimed in the input. This also holds when the target is already populated or is a chain of pointers (other than to an interface, which is not supported).",
 ["inputs","configurations"],"all byte strings, all supported target types and prior contents of the target",
 "Tests decode valid encodings and a few literals; the fuzz corpus is not part of the suite.",
 ["binary-decode.go","decoder.go","amino.go","reflect.go"],
 [("bounds checks","decoder.go"),("length checks","decoder.go DecodeByteSlice, amino.go UnmarshalBinaryLengthPrefixedReader"),("interface checks","binary-decode.go decodeReflectBinaryInterface")],
 ["return value or panic of every UnmarshalBinary* function"])

p("C05","Binary decoding accepts exactly the valid encodings and gives their value",
 "Bytes are accepted only if they are a valid message for the target type, and then decode to the value the format assigns to them: truncated input, left-over bytes (also inside any nested length-delimited value), wrong wire types, out-of-order or repeated known fields, integers outside the range of their type, booleans other than 0 and 1, byte arrays of the wrong length, overlong varints and invalid field numbers are all rejected, while non-minimal varints and explicitly written defaults are accepted. The result does not depend on what the target held before, except that a non-nil interface in the target is refused.",
 ["inputs","configurations"],"all byte strings, all supported target types, all prior contents of the target",
 "Tests try a few malformed literals; acceptance is a property of every byte string for every type.",
 ["binary-decode.go","decoder.go","amino.go"],
 [("struct decoding","binary-decode.go decodeReflectBinaryStruct"),("list decoding","binary-decode.go decodeReflectBinaryArray/Slice"),("all bytes consumed","amino.go UnmarshalBinaryBare")],
 ["value and error of UnmarshalBinaryBare / UnmarshalBinaryLengthPrefixed"])

p("C06","Primitive encoders and decoders are exact inverses",
 "Each exported primitive decoder applied to the output of its encoder followed by arbitrary bytes (for times, to the output alone) returns the original value and the number of bytes the encoder wrote, and the size functions predict that number; every signed, unsigned, fixed-width, varint, bool, float, byte, byte-slice, string and time primitive writes exactly the documented bytes. On any other input a primitive decoder returns the value those bytes denote, or an error when they are truncated, overlong or outside the range of the type, and never reports having consumed more bytes than there are.",
 ["inputs"],"all values of every primitive type and all byte strings",
 "Tests cover a few sizes and two int range checks.",
 ["encoder.go","decoder.go"],
 [("encoders","encoder.go"),("decoders","decoder.go")],
 ["Encode*/Decode*/…Size functions"])

p("C07","Schemas can evolve: added fields are skipped and missing ones defaulted",
 "Data written with a struct type that has additional trailing fields of any supported kind, including repeated ones and at any nesting depth, is decoded by the older type into the same values for the fields it knows. Data written with an older type is decoded by the newer type with the added fields at their default values (zero, nil, or 1970 for times). The bytes of the known fields are unaffected by added fields that hold default values.",
 ["inputs","programs"],"all pairs of a struct type and an extension of it by trailing fields, at any depth, all values",
 "One test adds scalar fields to one struct.",
 ["binary-decode.go","binary-encode.go"],
 [("skipping unknown fields","binary-decode.go decodeReflectBinaryStruct, consumeAny"),("defaults","reflect.go defaultValue")],
 ["UnmarshalBinaryBare across two types"])

p("C08","Length-prefixed messages can be streamed back to back",
 "Messages written one after another to a stream are read back one per call, in order and unaltered, whatever sizes the underlying reads return; each successful call consumes and reports exactly the bytes of one message, so the next call starts at the next message. io.EOF is returned only when the stream ends at a message boundary; a stream that ends inside a message gives a different error, an error of the stream is passed through, and the writer reports the number of bytes written and passes through the error of the underlying writer.",
 ["inputs","schedules","fault_sequences"],"all sequences of messages, all ways a reader can split them, end or fail",
 "Tests read one message from a buffer in one piece.",
 ["amino.go"],
 [("reader","amino.go UnmarshalBinaryLengthPrefixedReader"),("writer","amino.go MarshalBinaryLengthPrefixedWriter")],
 ["returned counts, values and errors, bytes consumed from the reader"])

p("C09","The stream reader enforces its size limit and rejects malformed prefixes",
 "When a maximum size is given, a message whose prefix plus content exceeds it is rejected before any of its content is read and without reading more than the maximum, and a message of exactly the maximum is accepted; zero means no limit. A length prefix that is unterminated, longer than ten bytes or beyond 64 bits is an error, never a shorter length, and a huge claimed length neither panics nor allocates that much memory.",
 ["inputs","configurations"],"all streams and all limits",
 "Two tests use one message with one limit.",
 ["amino.go"],
 [("limit","amino.go UnmarshalBinaryLengthPrefixedReader"),("prefix","amino.go UnmarshalBinaryLengthPrefixed")],
 ["error, count, bytes consumed from the reader"])

p("C10","Prefix and disambiguation bytes are the documented function of the name",
 "For every registered name, the disambiguation bytes are the first three bytes of the SHA-256 of the name after dropping leading zero bytes, and the prefix bytes are the next four after again dropping leading zero bytes. Every encoding, the listing of types and the exported name lookup use exactly these bytes, so neither sequence ever begins with a zero byte.",
 ["inputs"],"all names, including those whose hash has zero bytes where they are skipped",
 "Tests check a few names; the zero-skipping applies to about one name in 128.",
 ["codec.go"],
 [("derivation","codec.go nameToDisfix")],
 ["NameToDisfix, encoded prefixes, PrintTypes"])

p("C11","Interface values decode to the registered concrete type named by their bytes",
 "An interface value is encoded with the prefix of its concrete type, preceded by a zero byte and the disambiguation bytes exactly when the interface always disambiguates or another registered implementer of that interface shares the prefix; both forms decode to that same concrete type, as a pointer exactly when it was registered as one. Decoding fails with an error when the bytes name no registered type, an ambiguous prefix without disambiguation, or a type that does not implement the interface; encoding fails for unregistered concrete types and for nil pointers held in an interface. In a struct or list a nil interface is written as nothing or an empty element and comes back nil.",
 ["inputs","configurations"],"all sets of registered interfaces and concrete types, including colliding prefixes, all interface values and all byte strings",
 "Tests register two or three types and never a prefix collision with data passing through it.",
 ["binary-encode.go","binary-decode.go","codec.go"],
 [("encoding","binary-encode.go encodeReflectBinaryInterface"),("lookup","codec.go getTypeInfoFromPrefixRlock, getTypeInfoFromDisfixRlock"),("decoding","binary-decode.go decodeReflectBinaryInterface")],
 ["bytes, decoded dynamic type, errors"])

p("C12","Conflicting registrations are refused, whatever their order",
 "Registering a type twice, a type already used unregistered, two types under one name, or two implementers of a registered interface with equal prefix bytes of which not all are in the interface's priority list, panics, whichever of the interface and the concrete types was registered first. Every other registration succeeds, and a refused one leaves the codec exactly as it was.",
 ["histories","configurations"],"all sequences of registrations of interfaces and concrete types, with and without priority lists",
 "Tests try single duplicates on one order; the outcome is a function of the whole history, including refused attempts.",
 ["codec.go"],
 [("conflict check","codec.go checkConflictsInPrioNolock, addCheckConflictsWithConcreteNolock, collectImplementersNolock"),("uniqueness","codec.go setTypeInfoNolock")],
 ["panics of RegisterInterface/RegisterConcrete and the behaviour of the codec afterwards"],
 [("registry","types, interfaces with implementers, names","codec.go Codec")])

p("C13","A sealed codec never changes its registrations",
 "Once sealing a codec has returned, every attempt to register an interface or a concrete type on it panics and changes nothing, including attempts that began before sealing on other goroutines. Encoding and decoding on a sealed codec behave exactly as before it was sealed, also for types it has not seen yet, and sealing again is harmless.",
 ["histories","schedules"],"all histories of registration, sealing and use, and all interleavings of concurrent ones",
 "One test seals and registers once on one goroutine.",
 ["codec.go"],
 [("seal","codec.go Seal, assertNotSealed")],
 ["panics, listing and encodings after Seal"])

p("C14","JSON round trip",
 "Encoding any JSON-supported value and decoding the text into a fresh variable gives the value back, for every nesting of structs, lists, arrays, maps with string keys, pointers, times, byte slices and registered interface values, including 64-bit integers beyond 2^53, strings with any valid UTF-8 and indented output. Only these normalisations apply: empty lists come back nil, nil maps come back empty, pointers to nil come back nil, times come back in UTC, and a value omitted because of omitempty comes back as zero.",
 ["inputs","configurations"],"all JSON-supported types and values, all registrations",
 "Tests cover a few fixed types and literals.",
 ["json-encode.go","json-decode.go","amino.go"],
 [("encoder","json-encode.go encodeReflectJSON*"),("decoder","json-decode.go decodeReflectJSON*")],
 ["MarshalJSON/MarshalJSONIndent/UnmarshalJSON"])

p("C15","JSON encoding is exactly the documented text",
 "The JSON text of a value is fully determined by the value: int, int64, uint and uint64 as quoted decimal strings, smaller integers as numbers, byte slices and arrays as base64 strings, times as RFC 3339 UTC strings with up to nine fractional digits, nil pointers, slices and interfaces as null, struct fields in declaration order under their JSON names and left out only when tagged omitempty and empty, maps as objects in the order of their keys. Registered concrete values are wrapped as {\"type\":name,\"value\":...} with a properly escaped name at top level and inside interfaces. The output is always valid JSON and the same on every call.",
 ["inputs","configurations"],"all JSON-supported types, tags and values, all registered names",
 "Tests compare a few dozen literals; map order in particular is random per call.",
 ["json-encode.go","amino.go"],
 [("encoder","json-encode.go"),("wrapper","json-encode.go encodeReflectJSONInterface, amino.go MarshalJSON")],
 ["text returned by MarshalJSON"])

p("C16","JSON decoding is total and strict",
 "Decoding any text into any JSON-supported type returns a value or an error and never panics. It rejects malformed JSON, unquoted or out-of-range 64-bit integers, out-of-range or non-integral small integers, arrays of the wrong length, byte arrays of the wrong length, byte strings that are not base64, times not written in UTC (ending in Z), wrappers with a missing, empty or unknown type name, without a value, with a name other than that of a registered concrete target or of a type that does not implement the target interface; it accepts unknown object keys, null for any value that needs no wrapper (as zero), and sets fields missing from an object to zero unless they are tagged omitempty, in which case they keep their previous content.",
 ["inputs","configurations"],"all texts, all JSON-supported target types",
 "Tests try a few malformed texts.",
 ["json-decode.go","amino.go"],
 [("decoder","json-decode.go decodeReflectJSON*"),("wrapper","json-decode.go decodeInterfaceJSON")],
 ["value, error or panic of UnmarshalJSON"])

p("C17","Times are encoded exactly over their whole range",
 "Every time from year 1 to year 9999 inclusive, with nanosecond precision, survives binary encoding exactly as the same instant in UTC without monotonic reading, and is written as protobuf Timestamp fields (seconds since 1970, then nanoseconds, each omitted when zero). Times outside that range are refused when encoding, and encoded seconds or nanoseconds outside [-62135596800, 253402300800) or [0, 999999999] are refused when decoding. The location and monotonic reading of a time never influence its binary or JSON encoding.",
 ["inputs"],"all instants, locations and monotonic readings, all encoded seconds and nanoseconds",
 "Tests check about a dozen instants.",
 ["encoder.go","decoder.go","json-encode.go","json-decode.go"],
 [("encoder","encoder.go EncodeTime"),("decoder","decoder.go DecodeTime, decodeSeconds, decodeNanos")],
 ["EncodeTime/DecodeTime, structs and lists with times, JSON times"])

p("C18","DeepCopy gives an equal value that shares no memory with the original",
 "The deep copy of any value has the same type and equal exported content, keeping nil slices, maps, pointers and interfaces nil and empty ones empty, and no pointer target, slice element or map entry reachable from the copy is shared with the original, so changing one never changes the other. Types with a DeepCopy method, or else with MarshalAmino and UnmarshalAmino, are copied through those wherever they occur, and the original is left unchanged.",
 ["inputs","programs"],"all acyclic values of supported types, all later modifications of original or copy",
 "The tests copy ten small structs without slices or maps and never modify anything afterwards.",
 ["deep_copy.go"],
 [("copy","deep_copy.go _deepCopy"),("methods","deep_copy.go callDeepCopy, callAminoCopy")],
 ["result of DeepCopy, sharing between original and copy"],
 [("heap","objects reachable from original and copy","")])

p("C19","A codec is safe for concurrent use",
 "Any number of goroutines may encode, decode, list types and (before sealing) register on one codec at the same time: every call returns what it would return in some sequential order of the calls (a registration made while a value is being encoded or decoded may be refused because of a type that this call has already met), without data races, crashes or deadlock. A call made from within a user's MarshalAmino, UnmarshalAmino, JSON marshalling method or reader, on the same codec, works as well.",
 ["schedules","histories"],"all interleavings of concurrent calls, including re-entrant ones and first uses of a type",
 "The tests are sequential except for one that only encodes.",
 ["codec.go","binary-encode.go","amino.go"],
 [("lock","codec.go Codec.mtx"),("critical sections","codec.go getTypeInfoWlock, getTypeInfoFrom*Rlock, Register*")],
 ["results of concurrent calls, race detector, progress"],
 [("type cache and registry","shared, grows during use","codec.go Codec")])

p("C20","Calls are isolated: no aliasing of inputs, outputs or codec state",
 "Encoding never modifies the value encoded and decoding never modifies the input bytes, and neither the bytes returned nor the value decoded share memory with the input, with the codec or with the result of any other call. Overwriting an input buffer or a returned result afterwards therefore never changes another result or a later call.",
 ["inputs","histories"],"all values and byte strings, all later modifications of inputs and results",
 "No test modifies a buffer after a call.",
 ["decoder.go","amino.go","binary-decode.go","binary-encode.go","json-decode.go","codec.go"],
 [("copying","decoder.go DecodeByteSlice"),("fresh buffers","amino.go MarshalBinaryBare")],
 ["inputs and results re-examined after they or other results are overwritten"])

p("C21","Types with their own representation are encoded as exactly that representation",
 "A type whose values provide a representation (MarshalAmino with value receiver, UnmarshalAmino with pointer receiver, zero corresponding to zero) is encoded in binary and JSON, at top level, in fields, lists, pointers and interfaces, exactly as its representation would be there, and decoded by passing the decoded representation to UnmarshalAmino, so that it round-trips. An error from either method is returned as an error of the call, and never leaves a result that looks successful.",
 ["inputs","programs"],"all such types whose kind has the same wire type as the representation, all values and positions, all errors",
 "Tests use one type at top level.",
 ["binary-encode.go","binary-decode.go","json-encode.go","json-decode.go","reflect.go","codec.go"],
 [("representation","reflect.go toReprObject, codec.go marshalAminoReprType"),("use","encodeReflectBinary, decodeReflectBinary, encodeReflectJSON, decodeReflectJSON")],
 ["bytes, text, values and errors"])

p("C22","Encodings can be parsed without a schema",
 "Every binary encoding of a struct, at every nesting level, is a sequence of proto3 fields that a parser without the schema can walk to the exact end, finding each field's number, wire type and payload. The scanning tool prints exactly these fields in order for a valid encoding, accounts for every byte, and reports an error instead of crashing on malformed bytes. Its --color listing shows every byte.",
 ["inputs"],"all encodings of struct values; all byte strings for the tool",
 "The tool has no tests.",
 ["cmd/aminoscan/aminoscan.go","binary-encode.go"],
 [("scanner","cmd/aminoscan/aminoscan.go scanStruct"),("keys","binary-encode.go encodeFieldNumberAndTyp3")],
 ["output of the tool"])

p("C23","The listing of types shows exactly the registered concrete types",
 "The markdown table written by a codec has its two header lines followed by one row for every successfully registered concrete type, in the order of registration, with the type's name, registered name, prefix bytes in hexadecimal and fixed size or \"variable\"; nothing else ever appears in it, neither interfaces, types merely used, nor refused registrations. An error of the writer is returned.",
 ["histories","fault_sequences"],"all histories of registration and use, all points at which the writer fails",
 "One test prints one fixed codec.",
 ["codec.go"],
 [("listing","codec.go PrintTypes, getLengthStr")],
 ["text written by PrintTypes"])

p("C24","A failed call leaves the codec usable and unchanged",
 "After any call that returned an error or panicked (an unsupported type, a nil pointer, a refused registration, malformed input, a failing or panicking user method, reader or writer), later calls on the same codec and on the package-level codec return promptly and give the same results as if the failed call had never been made. The panicking variants panic exactly when the plain ones return an error.",
 ["histories","fault_sequences"],"all histories containing failed calls of any kind, followed by any calls",
 "Tests never use a codec again after a panic.",
 ["codec.go","amino.go","binary-encode.go","json-encode.go"],
 [("unlocking","codec.go getTypeInfoWlock, Register*"),("atomic registration","codec.go addCheckConflictsWithConcreteNolock")],
 ["results and progress of calls after a failure"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P:
        assert len(d["title"])<=80,d["title"]
        f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))

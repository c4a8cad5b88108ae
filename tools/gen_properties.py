#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("B01","Accessor bytes follow the glTF layout, identically for reads and writes",
 "Writing a slice of any supported element type into a byte buffer with a given byte stride (0 meaning tightly packed) puts every component of element i, little endian, at stride*i plus the offset glTF prescribes: components contiguous, matrices column by column with each column of 1-byte and 2-byte matrices padded to a multiple of 4 bytes, and no other byte of the buffer changes. Reading takes every component of every element from exactly those same positions. The single-element get and put functions of each component type use the same offsets.",
 ["inputs"],"all 44 supported slice types, every slice length, every valid byte stride and every buffer content",
 "The tests sample a few short slices per type, mostly tightly packed; a wrong offset, width or stride for one of the 44 types at an untested stride is invisible, and a read and a write wrong in the same way cancel out.",
 ["binary/encode.go","binary/binary.go","binary/unsafe.go"],
 [("Read / Write type switches","binary/encode.go"),("Put*/get accessors per component","binary/binary.go, binary/unsafe.go")],
 ["bytes stored by binary.Write","elements stored by binary.Read"])
p("B02","Binary reads and writes never leave the buffer and never panic",
 "Reading or writing a slice of any supported element type with any byte stride and any byte buffer either stays within the buffer or returns an error; it never panics, including for negative, zero or huge strides, buffers too short for the elements and empty slices. An empty slice is always accepted, and a slice that fits in the buffer with a non-negative stride is never rejected.",
 ["inputs"],"every buffer length, every int stride and every length of the 44 supported slice types",
 "Tests use a handful of lengths and strides; off-by-one bounds and arithmetic overflow only show for particular combinations of length, stride and element size.",
 ["binary/encode.go","binary/binary.go","binary/unsafe.go"],
 [("length check before the type switch","binary/encode.go")],["panics and errors of binary.Read and binary.Write"])
p("B03","Element types, codes and sizes agree for every component and accessor type",
 "For each of the 42 combinations of component type and accessor type, creating a slice (with or without a reusable buffer) yields a slice of exactly the requested number of elements whose Go element type maps back to the same combination, and the reported component size, component count and padded element size are the ones glTF defines. Unsupported combinations and impossible counts yield an error, not a panic, and a slice backed by a reusable buffer never extends beyond that buffer's memory.",
 ["inputs","configurations"],"all component and accessor type values, all counts and all buffer lengths and capacities",
 "The tables are spread over five switch statements with up to 44 cases; tests exercise the combinations unevenly (one combination had no implementation at all), and unsafe slices that are too long corrupt memory without failing a test.",
 ["binary/slice.go","gltf.go","const.go"],
 [("MakeSlice, MakeSliceBuffer, Type","binary/slice.go"),("SizeOfElement","gltf.go"),("ByteSize, Components","const.go")],
 ["results of the slice constructors, of the type query and of the size functions"])
p("R01","Reading malformed documents returns an error instead of panicking",
 "Reading accessor data, buffer views, indices or any typed attribute from any document, however malformed (negative, overflowing or out-of-range indices, counts, offsets, lengths and strides, null entries, inconsistent sparse data), never panics; it returns an error when the requested data does not lie within the document's buffers. The only assumptions are that the document and the accessor are not nil and that memory is not exhausted.",
 ["inputs"],"every document, accessor and caller-provided buffer",
 "The malformed space is unbounded; the tests sample a handful of errors, and most of the cases this property covers panicked in the original code.",
 ["modeler/read.go","binary/slice.go","binary/encode.go"],
 [("index, offset and length checks","modeler/read.go"),("count check","binary/slice.go"),("bounds check","binary/encode.go")],
 ["panics of the modeler Read functions"])
p("R02","Accessor reads return exactly the elements the document defines",
 "A successful accessor read returns exactly as many elements as the accessor's count, of the Go type associated with its component and accessor types, where element i comes from the accessor's buffer view at the accessor's byte offset plus i times the view's stride, or is zero if there is no buffer view, and every element named by the sparse indices is replaced by the corresponding sparse value. The result never depends on the previous content of a reused buffer, and reading a buffer view returns exactly the bytes it delimits in its buffer. An accessor without sparse elements is never rejected if its elements lie in its buffer view and the view in its buffer, or if it has no view.",
 ["inputs","histories"],"every well-formed or malformed document, with or without a reused buffer of any length, capacity and content",
 "Tests read into nil or zeroed buffers; stale content of a pooled or reused buffer, or a wrong offset that coincides with zero in the samples, goes unnoticed.",
 ["modeler/read.go","binary/slice.go"],
 [("accessor read","modeler/read.go"),("buffer reuse","binary/slice.go")],["slices returned by the accessor and buffer view readers"])
p("R03","Typed readers convert each stored element to the documented type",
 "For each accepted component and accessor type, every typed reader (indices, normals, tangents, texture coordinates, weights, joints, positions, colors, inverse bind matrices) returns count elements where element i is the documented conversion of stored element i only: widening for indices and joints, division by the maximum for normalized integers, scaling between 8 and 16 bits for colors with alpha defaulting to the maximum, and an identical copy otherwise. Any other component or accessor type is rejected with an error. An accessor that cannot be read is an error, never an empty result.",
 ["inputs"],"every accessor of every component and accessor type, every stored content, every reused buffer",
 "Tests check one or two elements per conversion; a swapped channel, a wrong scale or a missing case only shows for other values or types.",
 ["modeler/read.go","math.go"],
 [("type switch of each reader","modeler/read.go"),("normalization helpers","math.go")],["slices returned by the typed readers"])
p("R04","Reads share no memory with pools, other reads or the document",
 "The slices returned by accessor and typed reads alias only the caller-provided buffer or fresh memory, never pooled scratch memory or the document's own buffers, and reads never modify the document. Each pooled buffer obtained is returned exactly once on every path and is not used afterwards, so concurrent reads cannot observe each other.",
 ["schedules","histories"],"every interleaving and history of reads, on success and on error paths",
 "A pooled slice leaking into a result only corrupts data when another read reuses the pool later; tests read one accessor at a time.",
 ["modeler/read.go"],
 [("uint32Pool and bufPool get/put","modeler/read.go")],["backing memory of returned slices"])
p("W01","A written accessor describes exactly the bytes that were written",
 "Writing data of any supported type as an accessor, buffer view or image returns the index of a newly added object that refers, through a newly added buffer view over the last buffer, to a range of exactly the data's encoded size holding the data in glTF layout with the stride the view declares. The accessor's component type, accessor type and count are those of the data.",
 ["inputs","histories"],"every document state, every supported element type and every data length",
 "Tests compare complete documents for a few short slices and initial states; a wrong offset, size, stride or index for another type or initial state is not sampled.",
 ["modeler/write.go","binary/encode.go"],
 [("accessor and buffer view writers","modeler/write.go")],["accessors, buffer views and buffer bytes added by the modeler"])
p("W02","Writing only appends: existing content of the document is preserved",
 "Every modeler write leaves all existing buffer bytes, buffer views, accessors and images as they were and only appends new ones, and the declared length of the buffer written to grows by exactly the number of bytes appended to its data. Nothing is written over the content of an external buffer that is not loaded, and a buffer that gets data keeps no data URI of its previous content. A write that returns an error adds no accessor, buffer view or image and changes no existing byte.",
 ["histories","inputs"],"every initial document and every sequence of writes, including failing ones",
 "Tests start from empty or tiny documents and mostly do one write; corrupting an earlier view needs a sequence.",
 ["modeler/write.go"],
 [("append to the last buffer","modeler/write.go")],["document before and after each write"])
p("W03","Accessor data is aligned to 4 bytes in its buffer",
 "Every buffer view created by writing an accessor, or interleaved accessors, starts at an offset of its buffer that is a multiple of 4, whatever was in the buffer before, and the padding inserted is at most 3 bytes. A tightly packed or single-attribute vertex view whose padded elements differ in size from their raw components declares its stride.",
 ["histories","inputs"],"every prior buffer length and every sequence of writes",
 "Tests cover a few prior lengths; misalignment depends on the remainder of the length left by previous writes.",
 ["modeler/write.go"],[("padding before each accessor","modeler/write.go")],["byteOffset of new buffer views"])
p("W04","Interleaved attributes share one view with disjoint, complete element slots",
 "Writing several slices as interleaved data creates one view whose stride is the sum of the padded element sizes and whose length is stride times count; the k-th accessor starts at the sum of the sizes of the previous ones, and element i of slice k is stored at view offset + that start + i*stride. Slices of different lengths are rejected with an error, and the attribute map returned for mesh primitives associates each non-empty attribute name with its own accessor.",
 ["inputs"],"any number of slices of any supported types and equal or different lengths",
 "Tests interleave two or three specific types; offsets and strides depend on the whole list of types.",
 ["modeler/write.go"],[("interleaved writers","modeler/write.go")],["accessors, view and bytes added by the interleaved writers"])
p("W05","Attribute writers accept only legal types and flag normalized data",
 "Each attribute writer accepts exactly the element types glTF allows for its semantic and rejects any other type before touching the document; integer texture coordinates, weights and colors are flagged as normalized and nothing else is; index data goes to an element array view and vertex attributes to an array view. Position accessors, and only they, get minimum and maximum bounds.",
 ["inputs"],"every attribute semantic and every supported or unsupported data type",
 "The tests sample some accepted types per writer and seldom the rejected ones; the direct and the interleaved writers duplicate the tables.",
 ["modeler/write.go"],[("check functions and attribute switch","modeler/write.go")],["normalized, target, min and max of the new accessors and views; panics and errors for illegal types"])
p("G01","Encoded GLB containers are well formed",
 "Whenever encoding as GLB reports success, the output is the 12-byte header with the right magic and version 2, a JSON chunk padded with spaces, and, if and only if the first buffer has no URI, a BIN chunk padded with at most 3 zeros holding exactly that buffer's data; all chunk lengths are multiples of 4 equal to the bytes emitted, and the header's total length equals the size of the whole output. Documents that cannot be represented so are rejected with an error. Saving writes plain JSON, and saving as binary a GLB.",
 ["inputs"],"every document, including sizes that overflow 32 bits and buffers whose declared and actual lengths differ",
 "Tests check the total length of one file; padding and length arithmetic depend on sizes modulo 4 and on declared versus actual lengths.",
 ["encode.go","const.go"],[("GLB encoder","encode.go")],["bytes written to the output stream"])
p("G02","GLB decoding depends on the bytes, not on how the reader delivers them",
 "Decoding recognises a GLB by its magic, reads the JSON from exactly the declared JSON chunk and the binary data from the chunk that follows it, whatever the sizes of the reads the underlying stream returns and whatever padding the JSON has; the BIN chunk is used only for a first buffer without URI, must carry the BIN type and be at least as long as the buffer declares. Containers with a non-JSON first chunk or with lengths that exceed the declared total are rejected.",
 ["inputs","schedules"],"every byte stream and every way of splitting it into reads",
 "Tests decode from in-memory readers that return everything at once, so over- or under-consumption of a chunk is hidden by buffering.",
 ["decoder.go"],[("GLB header and chunk handling","decoder.go")],["decoded buffers; errors for malformed containers"])
p("D01","Decoding arbitrary bytes never panics",
 "Decoding any byte stream, with or without a file system, returns a document or an error and never panics; the same holds for the JSON decoding of every type of the document model and of the bundled extensions. Memory exhaustion and panics of caller-supplied readers, file systems and extension decoders are excluded.",
 ["inputs"],"every byte stream, every result of the caller's reader and file system",
 "Tests decode a fixed set of files; null entries, negative and overflowing lengths are not among them (several panicked in the original code).",
 ["decoder.go","encode.go","const.go","gltf.go","ext"],[("buffer validation","decoder.go"),("UnmarshalJSON methods","encode.go, const.go, ext")],["panics of the decoder"])
p("D02","A successful decode leaves every buffer loaded or deliberately external",
 "When decoding succeeds, every buffer has a positive declared length; the first buffer of a GLB without URI holds exactly that many bytes taken from the BIN chunk; a base64 data URI buffer holds the decoded payload; a buffer with a relative URI, when a file system is given, holds the content of that file cut to the declared length; and any other buffer without URI is an error. When a buffer cannot be loaded decoding fails, and the document is not returned by the file opening function.",
 ["inputs","fault_sequences"],"every document and every outcome of the reader and of the file system",
 "Tests use a few files that exist; the guarantees matter for missing, short, long or failing resources.",
 ["decoder.go","gltf.go"],[("buffer loading","decoder.go"),("data URI decoding","gltf.go")],["buffers of the decoded document and errors"])
p("E01","No I/O or encoding failure is reported as success",
 "If any read, write, create, close of a written file, or JSON operation performed by opening, decoding, saving or encoding a document, or by writing an image, fails, the call returns a non-nil error. No error is dropped, overwritten by a later success or replaced by nil.",
 ["fault_sequences"],"every position at which an operation can fail",
 "The tests inject almost no faults; a lost error needs a failure at one particular operation.",
 ["encode.go","decoder.go","modeler/write.go"],[("error returns","encode.go, decoder.go")],["errors returned by the public API"])
p("E02","External resources never escape the document's file system",
 "Every name used to open or create an external buffer is, exactly as passed to the file system, a validated local path without URI scheme: never absolute, never leading outside through dot-dot segments, whatever escaping or separators the URI uses; invalid names are rejected with an error. No part of the library creates, removes or modifies files except the output named by the caller and such validated resources in its directory, and encoder and decoder resolve the same URI to the same name.",
 ["inputs"],"every URI string, raw, percent-encoded or with backslashes",
 "Tests try one dot-dot path in plain form; escaping makes the validated string differ from the used one.",
 ["encode.go","decoder.go"],[("URI validation","decoder.go"),("resource creation","encode.go")],["names passed to the file system"])
p("E03","Encoding does not modify the document",
 "Encoding or saving a document, in any format and whether it succeeds or fails, leaves every field of the document and everything reachable from it unchanged; marshalling any of its parts does not either. Nothing reachable from the document is retained after the call.",
 ["inputs","histories","schedules"],"every document, encoder configuration and failure point; includes concurrent encodes of one document",
 "Tests encode throw-away documents and never compare the document before and after.",
 ["encode.go","const.go","ext"],[("temporary copies used for marshalling","encode.go")],["document fields after an encode"])
p("E04","Encoding loses no buffer data",
 "On a successful encode every buffer that holds data and is not an already embedded or absolute-URI resource is emitted completely and exactly once: in the BIN chunk if it is the first buffer of a GLB and has no URI, embedded in the JSON as base64 if it has no URI otherwise, or written in full to the file system, when there is one, under the name the decoder will look up if it has a relative URI. A buffer without data creates no file. All buffers appear in the JSON, in order, with their own name, extras, extensions and declared length.",
 ["inputs","configurations"],"every list of buffers, both formats, with and without a file system",
 "Tests use lists of up to three buffers in fixed configurations; dropping or duplicating one needs another combination.",
 ["encode.go"],[("buffer routing","encode.go")],["JSON buffers, BIN chunk and created files"])
p("E05","Every file or stream the library opens is closed on every path",
 "Every file or resource opened or created while opening, decoding, saving or encoding a document is closed exactly once on every path, including error paths, and never used after that. An error closing a resource that was written is returned when nothing failed before.",
 ["fault_sequences"],"every failure point of the encode and decode operations",
 "Leaks and missing closes on error paths have no effect that a test asserts.",
 ["encode.go","decoder.go"],[("close calls","encode.go, decoder.go")],["open file handles after each call"])
p("J01","Enumerations map one to one to the codes of the glTF specification",
 "Each value of every enumerated property (component type, accessor type, primitive mode, alpha mode, filters, wrapping mode, interpolation, animation path) is encoded as the code or name the specification gives it and decoding that code gives the value back, with the zero value being the specification's default where the property is optional. Buffer view targets have the specified values, and unknown accessor types are rejected.",
 ["inputs"],"every defined value of every enumeration and every code of the specification",
 "Round-trip tests of a document with a few values of each; swapped entries that are wrong in both directions cancel out.",
 ["const.go","const_strings.go"],[("map literals in the marshalers","const.go")],["JSON codes"])
p("J02","The JSON model uses the property names and presence rules of glTF",
 "Every property of the glTF 2.0 schema that the document model supports is encoded and decoded under its specified name in its specified object; required properties are always written, optional ones are omitted exactly when absent or equal to the specified default, and no other property is ever written. Binary payloads are never part of the JSON.",
 ["inputs","configurations"],"every type and field of the document model",
 "A misspelt name or a wrong omission rule round-trips perfectly through this library, so its own tests cannot notice it.",
 ["gltf.go","encode.go"],[("struct tags","gltf.go"),("shadowing structs in the marshalers","encode.go")],["keys of the emitted JSON objects"])
p("J03","Defaults agree in decoding, encoding and accessors; only they are elided",
 "For every property with a non-zero default in glTF, decoding an object without it yields the default, the accessor function returns the default when it is unset, and encoding omits it only when it equals the default or is unset; any other value, including an explicit zero, is written unchanged. The defaults are those of the specification.",
 ["inputs"],"every value of every property with a default, in the core model and the bundled extensions",
 "Tests try the default and one other value of each property, and each of the three places is tested alone.",
 ["encode.go","gltf.go","const.go","ext"],[("UnmarshalJSON/MarshalJSON/OrDefault methods","encode.go, gltf.go, ext")],["decoded values, emitted JSON, values of the accessor functions"])
p("J04","Custom encodings are applied wherever their types occur",
 "Every value of a type with its own JSON encoding that occurs in a document is encoded and decoded through it, wherever it is nested, because it is always reached through an addressable location; the marshaling of a type never re-enters itself, and never bypasses the encoding of the types nested in it.",
 ["inputs","programs"],"every occurrence of a custom-encoded type in the document model and the values handed to the JSON encoder",
 "A copy or a by-value field silently falls back to the default encoding, which only changes output for values whose encodings differ.",
 ["encode.go","gltf.go","const.go","ext"],[("pointer receivers and alias types","encode.go, const.go")],["emitted JSON"])
p("J05","A failed JSON decode reports the error and leaves the target untouched",
 "When the JSON of an object or enumerated value is invalid, its decoding returns a non-nil error and the target keeps its previous value; when it is valid, everything decoded is stored and no error is returned. This holds for every type with its own decoding.",
 ["inputs"],"every input of every custom JSON decoder",
 "Tests decode valid JSON and a few syntax errors, and do not look at the target after a failure.",
 ["encode.go","const.go","ext"],[("decode into a temporary then assign","encode.go, const.go, ext")],["target value and error"])
p("J06","Extension payloads are never lost",
 "After decoding, the extensions of every object hold an entry for every key present in the JSON: the value produced by the decoder registered for the key, or the raw JSON if none is registered or if it fails. Every object type of the document model keeps the extensions and extras it was decoded with and encodes them again.",
 ["inputs","configurations"],"every set of keys, registered or not, decodable or not, in every object type",
 "Tests use one extension at a time in one object type; a payload dropped on a decoder error or in one object type shows only there.",
 ["encode.go","gltf.go"],[("extensions decoding","encode.go"),("extensions and extras fields","gltf.go")],["extensions of decoded objects and of the re-encoded JSON"])
p("J07","Bundled extensions register themselves and re-encode what they decode",
 "Importing a bundled extension package registers it under its Khronos name, and its decoder returns the documented type or the error. Encoding a decoded value yields a JSON object with the property names of the extension's specification, that the same decoder accepts, in which only properties equal to their defaults are missing.",
 ["inputs","configurations"],"every value of the four bundled extensions",
 "The tests never encode and decode again a value of the lights extension, and compare fixed strings for the others.",
 ["ext/lightspunctual/lightspunctual.go","ext/specular/specular.go","ext/texturetransform/transform.go","ext/unlit/unlit.go"],
 [("init, Unmarshal, MarshalJSON of each package","ext")],["registry content, decoded types and emitted JSON"])
p("C01","The extension registry can be used concurrently",
 "Registering and looking up extensions from any number of goroutines is free of data races and deadlocks: the registry is accessed only while its lock is held, for writing when it is modified, every lock is released on every path, and no caller-supplied function, I/O or lock acquisition happens while it is held. A registered decoder is the one used by later decodes.",
 ["schedules"],"every interleaving of registrations, lookups and decodes, including decoders that register extensions",
 "Tests register from one goroutine; races and self-deadlocks need particular schedules.",
 ["gltf.go"],[("registry mutex","gltf.go")],["registry accesses"])
p("C02","Independent documents share no mutable state",
 "Operations on distinct documents may run concurrently: apart from the locked extension registry and the buffer pools, no package-level state is modified after initialisation, and no two documents, decoded values or default values returned by the library share memory that is writable through them.",
 ["schedules","histories"],"every pair of operations on distinct documents, in any order or interleaving",
 "Sharing shows only when one document's value is modified and another one is inspected, or under the race detector with the right schedule.",
 ["gltf.go","encode.go","const.go","modeler","ext"],[("fresh default values per decode","encode.go, ext"),("value-typed package defaults","const.go")],["pointers stored in returned documents; writes to package variables"])
p("M01","Normalized numbers convert with the scale of their type, channel by channel",
 "Denormalizing an n-bit integer divides it by the largest value of its type (signed results never below -1), normalizing multiplies by that value and rounds to the nearest integer, and in color conversions each output channel depends only on the same input channel, color channels go through the sRGB transfer function, alpha is only scaled, and the scale is the maximum of the integer type.",
 ["inputs"],"every component value and every channel",
 "Tests check a few points with tolerances; a swapped channel or a gamma-corrected alpha agrees at 0 and 1.",
 ["math.go"],[("conversion functions","math.go")],["results of the conversion functions"])
# declined
p("W06","Writers never panic on supported data",
 "Writing data of any supported type, of any length including empty, as an accessor, an index list, a vertex attribute, a buffer view, interleaved or as an image never panics, whatever the document already contains. The only assumptions are that the document and its last buffer are not nil and that memory is not exhausted.",
 ["inputs","histories"],"every supported data type and combination, every length, every document",
 "Tests write short non-empty slices to new documents; an empty slice, a slice shorter than another or a buffer of an unusual length takes other paths (empty interleaved data panicked in the original code).",
 ["modeler/write.go"],
 [("writeBufferViews, WritePrimitiveAttributes, bounds of positions","modeler/write.go")],["panics of the modeler Write functions"])
p("W07","Position bounds are the minimum and maximum of the positions",
 "The bounds stored with an accessor of positions, by WritePosition and by WritePrimitiveAttributes, are for each component the smallest and the largest value of that component in the data written, whatever the number of elements, their order, their signs and their magnitude (NaN excluded; without elements the bounds mean nothing). Viewers cull and frame meshes by these bounds, and validators reject a file where they differ from the data.",
 ["inputs"],"every non-empty slice of positions without NaN",
 "Tests write a few triangles, in which each component has both signs and the extremes aren't everywhere the first or last element.",
 ["modeler/write.go"],
 [("minMaxFloat32, WritePosition, WritePrimitiveAttributes","modeler/write.go")],["min and max of position accessors"])
p("E06","Encoding never panics",
 "Encoding or saving any document, in either format, with or without a file system, returns success or an error and never panics, and neither does the JSON encoding, default accessor, name or size of any value of the document model and of the bundled extensions, whatever optional fields are unset and whatever the codes are. The document, its buffers and the receivers are not nil; memory exhaustion and panics of caller-supplied writers, file systems and payloads are excluded.",
 ["inputs"],"every document, every value of every type, every outcome of the caller's writer and file system",
 "Tests encode documents that are filled in completely or not at all; unset optional fields, declared lengths that differ from the data and unknown codes are combinations they do not reach.",
 ["encode.go","gltf.go","const.go","const_strings.go","ext"],
 [("Encode, encodeBinary, marshalJSONDoc and the MarshalJSON methods","encode.go"),("OrDefault accessors","gltf.go, ext"),("ByteSize, Components, String","const.go, const_strings.go")],
 ["panics of the encoder and of methods of the model"])
p("D03","Decoded documents own their memory",
 "The bytes of every buffer loaded by decoding are in memory allocated for that buffer: they are shared with no other buffer, not with the reader, a pool, a cache or the decoder, so that changing them, or decoding again, affects nothing else. The JSON decoding of a value, and the bundled extension decoders, keep no reference to the text they were given.",
 ["inputs","histories"],"every stream, every set of buffers and every later use of the decoder and of the document",
 "Sharing changes no decoded value: it only shows when one buffer, or the caller's own input, is modified afterwards or when the decoder is used again.",
 ["decoder.go","gltf.go","encode.go","ext"],
 [("decodeBuffer, decodeBinaryBuffer, marshalData","decoder.go, gltf.go"),("UnmarshalJSON methods","encode.go, ext")],
 ["memory reached by Buffer.Data and by decoded values"])
p("P01","Results are determined by the inputs",
 "Decoding, encoding, reading, writing and converting are deterministic: with the same inputs (bytes, files, document, data, options and registered extensions) they give the same document, indices, bytes and files, in the same order. Nothing depends on the order in which a map is iterated, on the clock, on random numbers, on the environment or the machine, on addresses or on scheduling. Which of several errors is reported is left open.",
 ["inputs","schedules","histories"],"every input and every order in which the runtime may iterate over a map",
 "Maps in tests have none or one entry, and each run sees one iteration order.",
 ["encode.go","decoder.go","gltf.go","modeler","ext"],
 [("loops over maps","encode.go, ext/unlit"),("calls of the standard library","all packages")],
 ["repeated calls with equal inputs"])
p("N01","Decoding an encoded document yields an equal document",
 "For every document that encodes without error, decoding the output yields a document equal to the original up to defaults made explicit.",
 ["inputs"],"every encodable document",
 "Tests round-trip a few documents.",
 ["encode.go","decoder.go"],[("encoder and decoder","encode.go, decoder.go")],["decoded document"])
p("N03","Memory use of decoding is proportional to the size of the input",
 "Decoding or reading never allocates more than a constant factor of the size of the input actually delivered plus the declared data it really contains.",
 ["inputs"],"every byte stream and document",
 "Tests use well-behaved inputs.",
 ["decoder.go","modeler/read.go","binary/slice.go"],[("allocation sizes","decoder.go")],["peak memory"])
p("N04","Color conversion is accurate to half a unit over the whole range",
 "Encoding a linear color and decoding it again differs from the original by at most half a quantization step for every representable value.",
 ["inputs"],"every color value",
 "Tests compare some values with a tolerance.",
 ["math.go"],[("transfer functions","math.go")],["results of the color conversions"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))

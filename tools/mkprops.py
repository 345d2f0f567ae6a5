#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

SRC="src/"; T="generator/EmbeddedProto/templates/"
p("C01","Serialization emits exactly the protobuf wire format",
  "For every message value, a successful serialize() appends exactly the bytes the proto3 wire format prescribes for the schema: fields in definition order (oneofs after the plain fields) with the schema's field number and wire type, minimal varints, zig-zag for sint, little-endian fixed values, packed scalar arrays, length-prefixed strings, bytes and submessages, default-valued fields left out and set optional/oneof members always written. (Negative int32 and enum values use the 5-byte varint this library documents in its tests.) Serializing does not change the message.",
  ["inputs","programs"],"all field values of every field kind (scalar, enum, string, bytes, nested, repeated, oneof, optional), 1- to 5-byte tags, lengths on both sides of one- and two-byte length prefixes, in a corpus of schemas",
  "The tests compare a few hand-computed byte strings (0, 1, min, max); values between, mixed presence, multi-byte tags and lengths of 128 and more are never serialized.",
  [SRC+"WireFormatter.h",SRC+"Fields.h",SRC+"FieldStringBytes.h",SRC+"RepeatedField.h",SRC+"MessageInterface.cpp",T+"TypeDefMsg.h",T+"FieldBasic_Serialize.h"],
  [("SerializeVarint / SerializeFixedNoTag / MakeTag / ZigZagEncode",SRC+"WireFormatter.h"),("serialize_with_id",SRC+"Fields.h, FieldStringBytes.h, RepeatedField.h, MessageInterface.cpp"),("generated serialize()",T+"TypeDefMsg.h")],
  ["bytes in the write buffer after message.serialize(buffer)"])
p("C02","Serialize then deserialize gives back the same message",
  "For every message value that fits its containers, deserializing the bytes produced by serialize() into a fresh message of the same type reports no error, consumes all bytes and yields a message equal in every field, array length, optional presence and active oneof member (a float or double that is zero comes back as zero).",
  ["inputs","programs"],"all values of the messages of the schema corpus within the stated container capacities",
  "Only test vectors are decoded; no test decodes what the library encoded for arbitrary values, lengths and presence combinations.",
  [SRC+"WireFormatter.h",SRC+"Fields.h",SRC+"FieldStringBytes.h",SRC+"RepeatedField.h",SRC+"MessageInterface.cpp",T+"TypeDefMsg.h",T+"TypeOneof.h"],
  [("serialize/deserialize pairs",SRC+"WireFormatter.h"),("generated serialize()/deserialize()",T+"TypeDefMsg.h")],
  ["getters, has_*, get_which_* of the decoded message"])
p("C03","Well-formed input decodes to the values the wire format defines",
  "Deserializing any well-formed encoding of a message gives each field the value the wire format assigns: fields may come in any order, the last occurrence of a scalar, string, bytes or oneof member wins, repeated elements are appended, repeated occurrences of a submessage are merged, over-long but valid varints and 10-byte varints for int32/sint32 are accepted and truncated to the field's width, any non-zero varint is a true bool.",
  ["inputs","programs"],"all byte strings up to the stated length, all messages of the schema corpus, starting from a fresh and from an already filled message",
  "The tests decode canonical encodings of a handful of values; order, duplicates, non-minimal varints and merging into a filled message are hardly sampled.",
  [SRC+"WireFormatter.h",SRC+"Fields.h",SRC+"RepeatedField.h",SRC+"FieldStringBytes.h",SRC+"MessageInterface.cpp",T+"TypeDefMsg.h",T+"TypeOneof.h"],
  [("DeserializeTag/Varint/Fixed/...",SRC+"WireFormatter.h"),("generated deserialize() loop",T+"TypeDefMsg.h"),("deserialize_packed/unpacked",SRC+"RepeatedField.h")],
  ["message state after deserialize() returned NO_ERRORS"])
p("C04","Deserializing arbitrary bytes is memory safe and terminates",
  "For every input byte string, deserialize() of every message terminates, consumes input only forwards, never reads outside the received bytes nor accesses memory outside the message, never lets a string, bytes or repeated field exceed its capacity, and does not depend on uninitialised memory.",
  ["inputs","programs"],"all byte strings up to the stated length (including lengths near 2^32 inside the data) for the messages of the schema corpus",
  "Hostile lengths and truncations are an unbounded input space; the tests contain about five malformed inputs, all on mock buffers.",
  [SRC+"ReadBufferFixedSize.h",SRC+"ReadBufferSection.cpp",SRC+"MessageInterface.cpp",SRC+"FieldStringBytes.h",SRC+"RepeatedField.h",SRC+"RepeatedFieldFixedSize.h",SRC+"WireFormatter.h",T+"TypeDefMsg.h"],
  [("bounds checks in pop/advance/peek",SRC+"ReadBufferFixedSize.h, ReadBufferSection.cpp"),("capacity checks",SRC+"FieldStringBytes.h deserialize, RepeatedFieldFixedSize.h add/get")],
  ["sanitizers / engine memory checks, buffer position, container lengths"])
p("C05","Malformed input is rejected with the documented error",
  "Deserializing a field whose value is cut off by the end of the input (or of the enclosing submessage or packed array) reports END_OF_BUFFER, a wire type that is invalid, a group or not the field's own reports INVALID_WIRETYPE, a varint longer than its maximum reports OVERLONG_VARINT, field number zero reports INVALID_FIELD_ID and more elements or characters than the capacity report ARRAY_FULL; nothing malformed in these ways is reported as success.",
  ["inputs","programs"],"all byte strings up to the stated length, in the field kinds of the schema corpus",
  "Each error is tested on one hand-made input of one field type; where in the input and in which field kind it occurs is the quantifier.",
  [SRC+"Errors.h",SRC+"WireFormatter.h",SRC+"Fields.h",SRC+"FieldStringBytes.h",SRC+"RepeatedField.h",SRC+"MessageInterface.cpp",T+"TypeDefMsg.h"],
  [("error propagation through deserialize_check_type",SRC+"Fields.h, RepeatedField.h, MessageInterface.cpp"),("tag error handling",T+"TypeDefMsg.h")],
  ["return value of deserialize()"])
p("C06","Unknown fields are skipped without effect",
  "A complete field with a number the schema does not define (or one of the message's own type, which the generator leaves out), of wire type varint, fixed64, length-delimited or fixed32, at any place in the input, is consumed exactly and has no effect: the outcome is the one for the input without it.",
  ["inputs"],"any unknown field number, wire type, payload and position, at top level and inside submessages",
  "Four tests with field 50 and one payload each, on mocks, never with lengths that reach or pass the end.",
  [SRC+"MessageInterface.cpp",SRC+"ReadBufferFixedSize.h",SRC+"ReadBufferSection.cpp",T+"TypeDefMsg.h"],
  [("skip_unknown_field and skip_*",SRC+"MessageInterface.cpp"),("advance(N)",SRC+"ReadBufferFixedSize.h, ReadBufferSection.cpp")],
  ["message state and error of both inputs"])
p("C07","serialized_size() equals the number of bytes serialize() writes",
  "For every message value, serialized_size() returns exactly the number of bytes a successful serialize() appends to a buffer.",
  ["inputs","programs"],"all values of the messages and fields of the schema corpus within capacities",
  "The tests call serialized_size() next to a few fixed vectors only.",
  [SRC+"Fields.cpp",SRC+"MessageSizeCalculator.h",SRC+"RepeatedField.h",SRC+"Fields.h"],
  [("dry run into MessageSizeCalculator",SRC+"Fields.cpp, MessageSizeCalculator.h"),("serialized_size_packed/unpacked",SRC+"RepeatedField.h")],
  ["serialized_size(), buffer.get_size()"])
p("C08","Serialization succeeds if and only if the output fits",
  "For every message value and every write-buffer capacity, serialize() reports NO_ERRORS exactly when the complete encoding fits in the space available, otherwise BUFFER_FULL; it never writes beyond the capacity and, when it fails, the bytes written are a prefix of the encoding.",
  ["inputs","configurations","fault_sequences"],"all values of the corpus messages x all capacities from 0 to the encoded size and above, with the library's fixed-size buffer and with any buffer honouring the interface",
  "Three tests with one capacity each on mocks; the exact-fit and one-byte-short boundaries of every field kind are never exercised.",
  [SRC+"WriteBufferFixedSize.h",SRC+"WireFormatter.h",SRC+"Fields.h",SRC+"FieldStringBytes.h",SRC+"RepeatedField.h",SRC+"MessageInterface.cpp"],
  [("push() results turned into BUFFER_FULL",SRC+"WireFormatter.h, Fields.h, FieldStringBytes.h"),("available-size checks",SRC+"RepeatedField.h, MessageInterface.cpp, FieldStringBytes.h")],
  ["return value of serialize(), buffer content and size"])
p("C09","At most one member of a oneof is set, and it is the last one assigned",
  "After every sequence of setters, mutable accessors, clears, assignments and deserializations, get_which_* and has_* agree, at most one member of each oneof is set, it is the member last assigned with its last value, setting a member starts from that member's default, different oneofs do not disturb each other or other fields, and a failed deserialization of a member leaves the oneof unset.",
  ["inputs","histories"],"all sequences of operations up to the stated length with arbitrary values, members of scalar, enum, string, bytes and message type",
  "Tests walk a few fixed histories; switching between every pair of members with arbitrary values is not sampled.",
  [T+"TypeOneof.h",T+"TypeDefMsg.h",T+"FieldBasic_GetSet.h",T+"FieldMsg_GetSet.h",T+"FieldString_GetSet.h",T+"FieldEnum_GetSet.h"],
  [("init_/clear_ and which_ tag",T+"TypeOneof.h"),("set_/mutable_/clear_ accessors",T+"Field*_GetSet.h")],
  ["has_*, get_which_*, getters, serialized bytes"])
p("C10","Presence of optional fields is tracked exactly",
  "has_x() of an optional field is true exactly when the field was set, made mutable or received since construction or its last clear; setting, clearing or receiving one field never changes the presence or value of another, a present field is serialized even with its default value, and an absent one never is.",
  ["inputs","histories"],"all sequences of operations up to the stated length over messages with optional scalars, enums, strings, bytes and messages, including more than 32 optional fields",
  "The tests check three or four fields in fixed orders; interference between presence bits of any pair of fields is not covered.",
  [T+"TypeDefMsg.h",T+"FieldBasic_GetSet.h",T+"FieldBasic_Deserialize.h",T+"FieldStringBytes_Serialize.h"],
  [("presence bit array, index() and mask()",T+"TypeDefMsg.h"),("has_/set_/clear_ accessors",T+"Field*_GetSet.h")],
  ["has_*, serialized bytes"])
p("C11","Copies and assignments are equal to and independent of the source",
  "Copy construction and copy/move-style assignment make the target equal to the source in every field, presence flag, oneof member and array length whatever the target held before (also when it is the source itself), leave the source unchanged, and later changes to either do not affect the other; assigning a string, bytes or repeated field to another of sufficient capacity copies its content and length exactly.",
  ["inputs","histories"],"all source and target values of the corpus messages within capacities",
  "Tests copy one or two prepared messages into default-constructed ones.",
  [T+"TypeDefMsg.h",T+"TypeOneof.h",SRC+"RepeatedFieldFixedSize.h",SRC+"FieldStringBytes.h",SRC+"Fields.h"],
  [("generated copy constructors and operator=",T+"TypeDefMsg.h"),("assign macro",T+"TypeOneof.h"),("operator= / set",SRC+"RepeatedFieldFixedSize.h, FieldStringBytes.h")],
  ["getters of source and target, serialized bytes"])
p("C12","clear() restores the state of a fresh message",
  "After clear() a message is indistinguishable from a newly constructed one: all getters return defaults, nothing is present, it serializes to zero bytes, and whatever is deserialized or set afterwards gives the same result as on a fresh message; clear_x() does this for field x alone.",
  ["inputs","histories"],"all message values before the clear and all inputs decoded after it, within bounds",
  "Tests clear one prepared message per type and look at a few getters; residue that only shows in a later decode or set is not looked for.",
  [T+"TypeDefMsg.h",T+"TypeOneof.h",SRC+"FieldStringBytes.h",SRC+"RepeatedFieldFixedSize.h",SRC+"Fields.h"],
  [("clear() of messages, containers and fields",T+"TypeDefMsg.h, "+SRC+"RepeatedFieldFixedSize.h, FieldStringBytes.h, Fields.h")],
  ["getters, serialized bytes, later decodes"])
p("C13","String and bytes fields behave as bounded sequences",
  "For every operation sequence a string or bytes field holds exactly the characters last assigned, its length never exceeds the maximum, assignments with an explicit length that do not fit are refused with ARRAY_FULL and change nothing, C-string assignment truncates at the maximum and treats a null pointer as empty, indexed writes past the end clamp to the last element and extend the length, and checked reads outside the current length report INDEX_OUT_OF_BOUND.",
  ["inputs","histories"],"all contents, lengths, indices and capacities within bounds",
  "Tests use a handful of texts on capacity 10.",
  [SRC+"FieldStringBytes.h"],[("set/get/get_const/operator[]/operator=",SRC+"FieldStringBytes.h")],
  ["get_length, get_const, operator[], serialized bytes"])
p("C14","Repeated fields behave as bounded sequences",
  "For every operation sequence a repeated field holds exactly the elements last stored, in order: add appends or reports ARRAY_FULL and changes nothing, bulk assignment stores all or refuses with ARRAY_FULL, indexed access clamps to the last slot and extends the length, checked reads outside the current length report INDEX_OUT_OF_BOUND, and length and size figures always agree with the content and never exceed the maximum.",
  ["inputs","histories"],"all element values, indices, lengths and operation sequences within bounds, elements of scalar, enum, string and message type",
  "Tests use uint32 elements and capacity 3 in fixed sequences.",
  [SRC+"RepeatedFieldFixedSize.h",SRC+"RepeatedField.h",T+"FieldRepeated_GetSet.h"],[("add/set/get/set_data/clear",SRC+"RepeatedFieldFixedSize.h")],
  ["get_length, get_size, get_const, operator[]"])
p("C15","The fixed-size read buffer is a bounded FIFO",
  "For every sequence of operations the read buffer delivers the stored bytes once each, in order, and then reports empty; peek does not consume, advance(n) consumes n bytes and returns true if n are left and otherwise consumes at most what is left and returns false, for every 32-bit n; pushes beyond the capacity are refused and set_bytes_written is limited to it.",
  ["inputs","histories"],"all operation sequences up to the stated length from any fill state with arbitrary arguments",
  "Tests use a 3-byte buffer in fixed sequences and never advance by more than 2.",
  [SRC+"ReadBufferFixedSize.h",SRC+"ReadBufferInterface.h"],[("pop/peek/advance/push/set_bytes_written/clear",SRC+"ReadBufferFixedSize.h")],
  ["return values and bytes delivered"])
p("C16","Write buffers append exactly what fits and count it correctly",
  "For every sequence of operations the fixed-size write buffer appends pushed bytes in order, accepts a push exactly when it fits in the remaining space (including an exact fit) for every 32-bit length, changes nothing when it refuses, and its size, available size and maximum always agree; the size calculator accepts everything and counts every byte.",
  ["inputs","histories"],"all operation sequences up to the stated length from any fill state with arbitrary lengths and bytes",
  "Tests push two bytes into a 3-byte buffer; filling exactly and lengths near 2^32 are not exercised.",
  [SRC+"WriteBufferFixedSize.h",SRC+"MessageSizeCalculator.h",SRC+"WriteBufferInterface.h"],[("push/push(array)/get_available_size/clear",SRC+"WriteBufferFixedSize.h"),("push counting",SRC+"MessageSizeCalculator.h")],
  ["return values, get_data, get_size"])
p("C17","A length-delimited section never reads beyond its length",
  "A read section over any buffer delivers at most the given number of bytes, in order, and then reports empty; decoding a submessage, packed array, string or bytes field consumes exactly the announced length on success, so the fields that follow are decoded from the byte right after it, and what is inside never takes bytes from outside.",
  ["inputs","histories"],"all section lengths, buffer contents and operation sequences within bounds, sections nested in sections",
  "Tests drive a section over a mock with lengths 1 to 3.",
  [SRC+"ReadBufferSection.cpp",SRC+"ReadBufferSection.h",SRC+"MessageInterface.cpp",SRC+"RepeatedField.h"],[("size_ countdown",SRC+"ReadBufferSection.cpp"),("section around submessages and packed arrays",SRC+"MessageInterface.cpp, RepeatedField.h")],
  ["bytes delivered, position of the underlying buffer"])
p("C18","to_string never writes outside the caller's buffer",
  "With the debug string option enabled, to_string() of every message and field value into a buffer of every size never writes outside that buffer nor reads outside the message, and the view it returns always lies within the buffer.",
  ["inputs","configurations"],"all field values (digit counts, full-length strings) and all buffer sizes within bounds",
  "The tests with to_string are not even compiled by the default build and use a buffer that is large enough.",
  [SRC+"Fields.h",SRC+"FieldStringBytes.h",SRC+"RepeatedField.h",T+"TypeDefMsg.h",T+"TypeOneof.h"],[("left_chars bookkeeping around snprintf",SRC+"Fields.h and templates")],
  ["memory around the character buffer, returned view"])
p("C19","The library never allocates memory dynamically",
  "No operation on messages, fields or buffers (construction, set, copy, clear, serialize, deserialize, size) ever requests heap memory, whatever the data.",
  ["inputs","programs"],"all paths through the operations covered by the other properties, within their bounds",
  "Tests do not observe allocation at all.",
  [SRC+"RepeatedFieldFixedSize.h",SRC+"FieldStringBytes.h",SRC+"MessageInterface.cpp",T+"TypeOneof.h"],[("std::array storage and placement new",SRC+"RepeatedFieldFixedSize.h, FieldStringBytes.h, "+T+"TypeOneof.h")],
  ["calls to malloc/operator new"])
p("C20","Generated classes carry the schema's numbers, types, names and limits",
  "The class generated for a message uses, for every field, the number, wire type, value type, enum values and maxLength capacity declared in the schema, keeps fields apart (setting one leaves all others unchanged), maps every field number to its field's name and any other number to the invalid-number text.",
  ["programs","inputs"],"a corpus of schemas covering every field kind and option, packages, nesting, imports and use before definition; all values per field",
  "The tests look at the fields of a few fixed test schemas with fixed values.",
  ["generator/EmbeddedProto/Field.py","generator/EmbeddedProto/TypeDefinitions.py","generator/EmbeddedProto/ProtoFile.py","generator/EmbeddedProto/Oneof.py",T+"TypeDefMsg.h",T+"TypeDefEnum.h",T+"FieldBasic_GetSet.h"],
  [("type tables and template parameters","generator/EmbeddedProto/Field.py"),("FieldNumber enum and field_number_to_name",T+"TypeDefMsg.h")],
  ["generated API, serialized tags, get_max_length"])
p("C21","Wire-format primitives are exact over their whole domain",
  "Every primitive encoder writes exactly the wire-format bytes for every value of its type and every field number up to 2^29-1, every primitive decoder inverts it, zig-zag encoding and decoding are inverse bijections, and a decoder that reports an error leaves the caller's value unchanged. The scalar field classes write their tag and value through these for every field number, refuse every wire type but their own without effect, and hold, copy and compare the values assigned to them exactly.",
  ["inputs"],"all 32- and 64-bit values, all field numbers, all byte strings up to the maximum encoding length",
  "Tests reach the primitives through messages with 0, 1, min and max.",
  [SRC+"WireFormatter.h"],[("Serialize*/Deserialize*/ZigZag*/MakeTag",SRC+"WireFormatter.h")],
  ["bytes written, value and error returned"])
p("C22","The result does not depend on the buffer implementation",
  "Serialization and deserialization use a buffer only through its interface contract: the same bytes give the same message and error whether they come from the library's fixed-size buffer, a section, or a user buffer that reports the bytes remaining instead of the total, and the same message gives the same bytes in every write buffer.",
  ["inputs","configurations"],"all byte strings and message values within bounds x the buffer implementations",
  "Tests use mocks with scripted answers; equivalence across implementations is never compared.",
  [SRC+"ReadBufferInterface.h",SRC+"WriteBufferInterface.h",SRC+"ReadBufferSection.cpp",SRC+"MessageInterface.cpp",SRC+"RepeatedField.h"],[("ReadBufferInterface/WriteBufferInterface",SRC+"*.h")],
  ["message state and error per buffer implementation"])
p("C23","Every valid proto3 schema generates C++ that compiles",
  "For every proto3 schema protoc accepts (without recursive messages) the plugin produces headers that compile as C++11.",
  ["programs"],"all schemas",
  "The tests use nine schema files.",
  ["generator/EmbeddedProto/main.py","generator/EmbeddedProto/ProtoFile.py","generator/EmbeddedProto/TypeDefinitions.py","generator/EmbeddedProto/Field.py"],
  [("template rendering","generator/EmbeddedProto/*.py")],["compiler exit status"])
p("C24","to_string writes every field's name and current value",
  "With the debug string option enabled, the text to_string() writes for a message consists of every field in definition order (those the generator leaves out because they are of the message's own type excepted), then the set member of each oneof, with its name and its current value (numbers in decimal, true/false, quoted text, bytes and repeated fields as lists, submessages nested), separated by commas, with none in front of the first or behind the last, and is null terminated; a buffer that is too small receives a terminated prefix of that text, and the view returned starts right behind the text.",
  ["inputs","configurations","programs"],"all integer values, texts, bytes, array lengths and oneof states of the corpus messages, floating point values from a list, and all buffer sizes within bounds",
  "The tests with to_string are not compiled by the default build; they print a few messages with fixed values into a buffer that is large enough.",
  [SRC+"Fields.h",SRC+"FieldStringBytes.h",SRC+"RepeatedField.h",T+"TypeDefMsg.h",T+"TypeOneof.h"],[("to_string of every field class",SRC+"Fields.h, FieldStringBytes.h, RepeatedField.h"),("to_string of messages and oneofs",T+"TypeDefMsg.h, TypeOneof.h")],
  ["characters written, returned view"])
p("C25","There is no hidden shared state: separate messages are safe in separate threads, a constant message in several",
  "Operations on different messages, fields and buffers never touch common mutable memory, and const operations on a message (getters, serialize, serialized_size, copying from it, to_string) do not modify it: threads that work on their own messages and buffers, or only read a common message, need no synchronisation, and no operation leaves traces that change the outcome of a later one on another object.",
  ["inputs","schedules","histories"],"all values of one field and all received records within bounds x two threads doing the same operations in any interleaving",
  "All tests are single-threaded and would pass with static temporaries or mutable caches.",
  [SRC+"RepeatedField.h",SRC+"Fields.cpp",SRC+"FieldStringBytes.h",SRC+"MessageInterface.cpp",SRC+"WireFormatter.h",T+"TypeDefMsg.h"],[("locals and members of all operations; no static storage",SRC+"*.h, *.cpp, "+T+"*.h")],
  ["memory written by each thread"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))

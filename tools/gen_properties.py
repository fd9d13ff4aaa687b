#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "JSON output is always one well-formed document or an error",
 "Whenever writing a value as JSON reports success, the bytes produced (to a string, a byte vector, an I/O writer or a formatter) are exactly one well-formed RFC 8259 document and nothing else. A value JSON cannot express in that position (such as a sequence or map used as a map key) is reported as an error, never as malformed output and never as a panic.",
 ["inputs"], "every well-formed value of the data model: every nesting of null, bool, numbers, text, binary, maps, sequences, tags, tagged values, enums, records, tuples and record-tuples in every position (including map keys and enum variants), with every combination of present/absent tag, label and index",
 "The JSON tests check a few dozen fixed Rust types; the separator, nesting and variant-tagging state of the writer depends on the combination of parent, child and metadata, and the combinations are never enumerated.",
 ["json/src/to_fmt.rs", "json/src/to_string.rs", "json/src/to_vec.rs", "json/src/to_io.rs"],
 [("separator and nesting flags of the JSON formatter", "json/src/to_fmt.rs"), ("external tagging of enum variants", "json/src/to_fmt.rs internally_tagged_*"), ("map keys forced to text", "json/src/to_fmt.rs is_text_quoted / map_key_begin")],
 ["return value and bytes written by stream_to_string, stream_to_vec, stream_to_io_write, stream_to_fmt_write"],
 [("is_internally_tagged", "whether the next labelled child must open/close a one-entry object", "json/src/to_fmt.rs"), ("is_current_depth_empty", "whether a comma is needed", "json/src/to_fmt.rs")])

prop("C02", "JSON output carries exactly the data of the value",
 "Decoding the JSON written for a value gives back that value's data: text character for character, integers digit for digit, finite floats as the same floating-point value, sequences and tuples as arrays in order, maps and records as objects with the same keys and values in order, binary as an array of its bytes, null, absent options and non-finite floats as null. A labelled enum variant is the one-entry object from its label to its content, a unit variant is its label as a string (or its index when it has no label), and tags on values outside enums do not alter the data. Text tagged as already-encoded JSON is embedded as is.",
 ["inputs"], "all values of the data model up to the stated bounds, all Unicode scalar values in text and label position, all boundary numbers of every width",
 "Existing tests compare a fixed list of examples with serde_json; no test covers all characters, all numeric boundaries or all parent/child combinations.",
 ["json/src/to_fmt.rs", "json/src/tags.rs"],
 [("character escaping", "json/src/to_fmt.rs escape_str"), ("number formatting via itoa/ryu", "json/src/to_fmt.rs"), ("variant tagging", "json/src/to_fmt.rs")],
 ["bytes written by stream_to_string"])

prop("C03", "Results do not depend on how text and binary are split into fragments",
 "For one and the same text or binary value, streaming it whole, in any number of fragments (including empty ones), borrowed or computed, and with or without an announced length gives the same final result from every consumer: JSON, formatted text, buffered values, collected text and binary buffers, serde, and flattened or nested streams; a cast to text or bytes may be refused for a value in pieces, but never answers with anything other than the whole. Fragment boundaries, like hints about length, are never observable in what the consumer finally produces.",
 ["inputs"], "every text and byte string up to the bounds over an alphabet of escape-relevant, multi-byte and digit characters, with every way of cutting it into fragments, borrowed and computed, in value, map key, map value, sequence, field and variant position",
 "Tests stream text as a single borrowed fragment almost everywhere; the number of cuts is exponential and only particular cuts (inside an escape run, an empty first fragment, between sign and digits) reach the stateful paths.",
 ["json/src/to_fmt.rs", "fmt/src/writer.rs", "buffer/src/fragments.rs", "buffer/src/value.rs", "src/value.rs", "serde/src/to_serialize.rs", "nested/src/flat.rs", "flatten/src/label.rs"],
 [("stateful text handlers", "json/src/to_fmt.rs"), ("fragment accumulation", "buffer/src/fragments.rs"), ("text extraction that only accepts one borrowed fragment", "src/value.rs to_text")],
 ["final output of each consumer"])

prop("C04", "Arbitrary-precision number text becomes an equal, valid JSON number",
 "Text tagged as an arbitrary-precision decimal number and matching the documented number grammar (optional sign, digits with optional leading zeros, optional fraction, optional exponent, or one of the NaN and infinity spellings) is written as JSON null for NaN and infinities, and otherwise as a valid JSON number denoting exactly the same decimal value. The result does not depend on how the text is split into fragments.",
 ["inputs"], "every string of the documented grammar up to the stated length, cut into fragments in every way up to the stated number of cuts",
 "Four or five sample numbers are tested, in one fragment each; the rewriting is a character-level state machine with sign, leading-zero, fraction and exponent states.",
 ["json/src/to_fmt.rs", "src/data/tags.rs"],
 [("number text state machine", "json/src/to_fmt.rs NumberTextHandler")],
 ["bytes written by the JSON writers"])

prop("C05", "JSON I/O faults are reported and never silently truncate output",
 "When JSON is written to an I/O writer or formatter that may accept only part of a buffer, be interrupted, accept nothing, or fail at any point, the call either succeeds with exactly the bytes of the fault-free document, or reports an error and has written a prefix of that document. An interrupted write is retried and a short write continued without losing or duplicating bytes, and nothing is written after a fatal failure; an error of the writer is the reported cause.",
 ["fault_sequences", "inputs"], "every sequence of write outcomes (full, partial, interrupted, zero-length, error) up to the fault bound, at every write position of each document",
 "No test injects a fault; all tests write to memory, where every write is complete.",
 ["json/src/to_io.rs", "json/src/to_fmt.rs", "json/src/error.rs"],
 [("write loop of the I/O adapter", "json/src/to_io.rs"), ("capturing the formatter's error", "json/src/to_io.rs / json/src/error.rs")],
 ["bytes received by the writer", "result of stream_to_io_write / stream_to_fmt_write"])

prop("C06", "A failure at any point stops streaming and reaches the caller",
 "If the receiving stream fails any single call, the value being streamed makes no further calls on that stream and the failure is reported to the caller; no producer or adapter swallows it, continues after it, or panics. Likewise a value that fails by itself part-way makes the operation consuming it fail. This holds for the built-in value implementations, buffered values, derived values, wrappers, dynamic dispatch, flattening, nested and serde adapters.",
 ["fault_sequences", "inputs"], "every producer in the catalogue, every call position at which the receiver can fail",
 "Tests only use receivers that never fail part-way; the failing position ranges over every call of every producer.",
 ["src/stream.rs", "src/value.rs", "src/data", "buffer/src/value.rs", "buffer/src/fragments.rs", "flatten/src", "nested/src/flat.rs", "serde/src/to_value.rs", "dynamic/src", "ref/src", "derive_macros/src"],
 [("`?` on every stream call", "all Value implementations"), ("captured error in buffering collectors", "buffer/src/fragments.rs, buffer/src/value.rs, nested/src/flat.rs")],
 ["calls received after the failure", "result of the streaming call"])

prop("C07", "Buffering a value and replaying it is indistinguishable from the value",
 "Collecting a value into a value buffer (or a value taken from one) and streaming the result delivers the same sequence of events as the original: same structure and order, the same numbers at the same width, same text and bytes, the same tags, labels (with their own tags), indexes and announced entry counts; a text or binary value is replayed whole with its exact length, and hints given inside text or binary may be dropped. This still holds after the buffered value is cloned, made owned, or collected repeatedly.",
 ["inputs"], "all values up to the bounds with all metadata combinations and streaming styles (borrowed or computed, inline or nested), under every chain of clone/own/rebuffer operations up to the bound",
 "Tests replay a few samples; the buffer keeps a flat list of parts with range fix-ups whose correctness depends on the nesting shape and on the mix of metadata.",
 ["buffer/src/value.rs", "src/data.rs"],
 [("flat part list with completed sub-ranges", "buffer/src/value.rs"), ("owned copies of labels, tags and indexes", "src/data.rs")],
 ["events received by a recording stream"],
 [("parts/stack", "flattened value and the open containers in it", "buffer/src/value.rs")])

prop("C08", "A value buffer tells complete from incomplete, and reuse leaves no trace",
 "At every point of streaming a value into a value buffer, the buffer reports itself complete exactly when the whole value has arrived, and it then yields that value. Stray calls (an end with nothing open, a fragment outside text or binary) are reported as errors and never panic, and collecting a value that fails part-way is an error, never a partial value. After being cleared or reset a buffer behaves exactly like a new one, whatever it held or however it failed before.",
 ["histories"], "all histories of buffer operations and stream events (well-formed prefixes of values, interleaved with clear, reset and extraction) up to the depth bound",
 "Tests perform a handful of fixed call sequences; the quantifier is over all operation sequences.",
 ["buffer/src/value.rs", "buffer/src/error.rs"],
 [("open-container stack and completeness test", "buffer/src/value.rs"), ("error capture", "buffer/src/value.rs")],
 ["is_complete, to_value, into_value, clear and the replayed events"])

prop("C09", "Text and binary buffers hold the exact concatenation and borrow when possible",
 "A text or binary buffer holds exactly the concatenation of the fragments pushed to it since it was created or cleared, in order, however borrowed and computed fragments and ownership conversions are interleaved. It reports borrowed data only when the contents really are the caller's own memory, comparisons and conversions agree with the plain contents, and collecting from a text or binary value yields exactly its text or bytes, collecting from a failing value an error, never a panic.",
 ["histories", "inputs"], "all sequences of push (borrowed/computed, including empty and adjacent slices), clear, own, clone and convert operations up to the depth bound, and all values collected from",
 "Tests exercise two or three fixed push sequences.",
 ["buffer/src/fragments.rs"],
 [("fragment buffer with borrowed/owned states", "buffer/src/fragments.rs")],
 ["as_str/as_slice, as_borrowed_*, streamed events"])

prop("C10", "Wrappers and dynamic dispatch forward every stream event unchanged",
 "Streaming through a mutable reference, a box, a dynamically dispatched stream or value, or a reference, box or short-lived reference to a value delivers to the underlying stream exactly the events of the direct stream, with the same arguments, in the same order, and with results passed back unchanged. Computed streaming differs only in that borrowed data is delivered as computed.",
 ["inputs"], "every kind of stream event with every metadata combination, through every wrapper and composition of two wrappers",
 "Each of the ~45 methods is forwarded by hand in several wrappers; tests cover few of them, and a swapped or dropped one compiles.",
 ["src/stream.rs", "src/value.rs", "dynamic/src/stream.rs", "dynamic/src/value.rs", "ref/src/lib.rs"],
 [("forwarding macros", "src/stream.rs impl_stream_forward"), ("erased stream trait", "dynamic/src/stream.rs"), ("computed-stream adapter", "src/stream.rs default_stream::value_computed")],
 ["events received by a recording stream"])

prop("C11", "Streams implementing only the required methods still receive all the data",
 "A stream that implements only the required methods receives a well-formed, balanced sequence of events from every value, carrying the same data: narrower integers arrive as equal wider ones and integers too wide as their exact decimal text, maps and records as sequences of key-value pairs, tuples as sequences, binary as a sequence of bytes, tags and field names as their label text. Overriding only some of the optional methods never loses or duplicates data.",
 ["inputs", "configurations"], "all values up to the bounds, on streams implementing the required methods and each of a family of subsets of the optional ones",
 "The default methods call each other in layers; tests use streams that override nearly everything.",
 ["src/stream.rs", "src/data/number.rs"],
 [("default stream methods", "src/stream.rs default_stream")],
 ["events received by a minimal stream"])

prop("C12", "Cast shortcuts never disagree with what the value streams",
 "Asking a value whether it is a bool, text, binary, float or integer of a given width either yields nothing or yields exactly the value it streams; an integer cast that would overflow, or a value that streams as something else, yields nothing. Unsigned built-in integers answer every unsigned width they fit in, and every built-in answers at its own type; other casts (signed at another width, across signedness) may be refused but never give another number. Optional and reference wrappers answer as the value they hold.",
 ["inputs"], "all built-in value types at all boundary values and all data-model values up to the bounds, against every cast",
 "Tests sample a few conversions; boundaries between signed and unsigned widths are not enumerated.",
 ["src/value.rs", "src/data", "ref/src/lib.rs", "buffer/src/value.rs"],
 [("extraction streams", "src/value.rs default_value"), ("overrides on built-in types", "src/data")],
 ["results of to_bool, to_text, to_binary, to_u8..to_i128, to_f32, to_f64"])

prop("C13", "Labels, indexes and tags keep value semantics however they are built",
 "Labels compare and hash by their text, indexes compare, order and hash by their number and tags compare by their identity, regardless of whether they are static, computed, borrowed or owned; copying, cloning or making one owned preserves its text or number and the hint tags attached to it, and conversions back to numbers and strings are exact or refused. An owned label or index stays valid after its source is gone, and no history of cloning, moving and dropping labels leaks or frees memory twice.",
 ["histories", "inputs"], "all labels/indexes over the alphabet and boundary numbers, in all constructions, under all sequences of clone/own/tag/drop operations up to the bound",
 "Tests construct one or two labels; ownership histories and boundary integers are not enumerated.",
 ["src/data.rs"],
 [("label with raw owned/borrowed text", "src/data.rs Label"), ("index variants", "src/data.rs Index"), ("tag identity", "src/data.rs Tag")],
 ["eq/cmp/hash, as_str, as_static_str, tag, to_* conversions, allocation counts"])

prop("C14", "Built-in values stream well-formed, correctly sized and faithful events",
 "Every built-in value implementation streams a balanced, protocol-conforming sequence of events for every instance: one value, begin and end calls matched with the same metadata, announced sizes equal to the number of elements or bytes delivered, and contents equal to the instance's own elements, fields and characters in order. Numbers, text, characters, binary, collections, maps, options, tuples, units, wrappers and pointers are all covered by the same contract.",
 ["inputs"], "all built-in types with instances up to the size bound, including boundary numbers and Unicode text",
 "Each type has at most one sample test, and size announcements are not checked against what is streamed.",
 ["src/data/seq.rs", "src/data/map.rs", "src/data/option.rs", "src/data/text.rs", "src/data/binary.rs", "src/data/number.rs", "src/value.rs"],
 [("hand-written Value implementations", "src/data/*.rs")],
 ["events received by a recording stream"])

prop("C15", "Formatted text matches debug conventions and its token stream",
 "Formatting a value as text follows the conventions of debug formatting: text quoted and escaped character by character as `char::escape_debug` does, sequences and binary as `[a, b]`, maps as `{ k: v, k: v }`, records as `Name { field: v }`, tuples and tagged values as `Name(a, b)`, unit variants by their name, an enum as its variant alone, null as `()`, and numbers as text that reads back as the same number. All entry points agree up to the notation of floats. A custom token writer sees tokens whose concatenation is exactly that text and begin, separator and end notifications that are balanced and say correctly what is first or empty. When a write fails, formatting reports an error with only a prefix written and writes nothing more.",
 ["inputs", "fault_sequences"], "all values up to the bounds, all Unicode scalar values in text, all failing write positions",
 "The fmt tests cover a few derived types without nesting empties or escapes.",
 ["fmt/src/writer.rs", "fmt/src/token_write.rs", "fmt/src/to_string.rs", "fmt/src/to_fmt.rs", "fmt/src/to_write.rs"],
 [("writer state", "fmt/src/writer.rs"), ("default token writers", "fmt/src/token_write.rs")],
 ["formatted text, tokens received by a custom token writer"],
 [("is_current_depth_empty", "whether a separator is needed", "fmt/src/writer.rs")])

prop("C16", "Nested streams receive the same value as flat streams",
 "Translating a value into nested, type-directed calls delivers the same structure, data, labels and indexes as its flat events, in the same order and each exactly once, whatever parts are borrowed or buffered on the way. Parts handed to nested calls by value, by reference or short-lived arrive alike. Shapes the nested form does not support are reported as an error; nothing is dropped, duplicated, reordered or turned into a panic.",
 ["inputs"], "all values up to the bounds in all streaming styles",
 "A handful of derived types is tested; the translation keeps an explicit state machine and a buffer for values it cannot borrow.",
 ["nested/src/lib.rs", "nested/src/flat.rs", "nested/src/flat_enum.rs"],
 [("flat-to-nested state machine", "nested/src/flat.rs"), ("enum stack", "nested/src/flat_enum.rs")],
 ["calls received by a recording nested stream"],
 [("state", "container being assembled", "nested/src/flat.rs")])

prop("C17", "Bridging to and from serde preserves data",
 "Serializing a streamed value presents it to serde as the corresponding kind of its data model (null and none as none, some, unit, unit and newtype structs, sequences, tuples, maps, structs, all four enum variant kinds, bytes, numbers at their width) with the same data, names, positions and order; records without a name keep their field names. Streaming any serde value delivers the corresponding events, whose JSON has the same data as serde's own JSON serializer gives (unit structs apart). A value going through both bridges in either order is unchanged, and what serde's model has no shape for (such as names that are not static) is an error rather than different data or a panic.",
 ["inputs"], "all values of both data models up to the bounds",
 "The serde tests compare a few derived types.",
 ["serde/src/to_serialize.rs", "serde/src/to_value.rs", "nested/src/flat.rs"],
 [("nested-stream serializer", "serde/src/to_serialize.rs"), ("serializer producing events", "serde/src/to_value.rs")],
 ["JSON produced by serde_json and sval_json"])

prop("C18", "Flattening inlines exactly the fields of the flattened value",
 "Flattening a value into a surrounding record, tuple, map or sequence streams each of the flattened value's top-level entries exactly once, in order, as an entry of the surrounding container with its key or position, and streams nested values unchanged; field positions continue without gap or overlap. Values without fields contribute nothing, and the surrounding container stays well-formed.",
 ["inputs"], "all flattened values up to the bounds in every container kind, at every start offset, in every streaming style",
 "Tests flatten one record-in-record and a few sequences; passing nested containers through untouched depends on depth-tracking per method.",
 ["flatten/src/flattener.rs", "flatten/src/map.rs", "flatten/src/seq.rs", "flatten/src/record.rs", "flatten/src/tuple.rs", "flatten/src/record_tuple.rs", "flatten/src/label.rs", "flatten/src/index.rs"],
 [("depth tracking passthrough", "flatten/src/flattener.rs"), ("label buffering", "flatten/src/label.rs"), ("index allocation", "flatten/src/index.rs")],
 ["events received by a recording stream"],
 [("depth", "nesting below the flattened value", "flatten/src/flattener.rs")])

prop("C19", "Derived implementations stream exactly what the declaration says",
 "A derived implementation streams the declared shape: structs, tuple structs, newtypes, unit structs, enums with all variant kinds and generic types appear as the documented container with the declared field and variant names, tags and positions, in declaration order. Attributes to rename, tag, index, skip, unlabel, unindex, make transparent or dynamic, or flatten change precisely what they say and nothing else, and announced sizes match the fields streamed.",
 ["programs", "inputs"], "every combination from a grid of declaration shapes and attributes up to the bounds, instantiated with boundary field values",
 "The derive tests list individual attributes one at a time; interactions between attributes, shapes and positions are not enumerated.",
 ["derive_macros/src/derive", "derive_macros/src/stream", "derive_macros/src/attr.rs", "derive_macros/src/index.rs", "derive_macros/src/label.rs"],
 [("code generation", "derive_macros/src/stream/stream_record_tuple.rs"), ("attribute lookup", "derive_macros/src/attr.rs"), ("index allocation", "derive_macros/src/index.rs")],
 ["events streamed by derived types"])

prop("C20", "Reference-streaming equals ordinary streaming and keeps borrows",
 "Streaming a value through its reference form delivers the same events as streaming the value itself, for every type that provides both, including text, binary, slices, tuples, options and owned-or-borrowed wrappers. Data the reference borrows for the longer lifetime is delivered as borrowed from the original memory.",
 ["inputs"], "every type with a reference form, instances up to the size bound",
 "Only a couple of instances are tested.",
 ["ref/src/lib.rs", "ref/src/seq.rs", "buffer/src/value.rs", "buffer/src/fragments.rs"],
 [("stream_ref implementations", "ref/src/lib.rs, ref/src/seq.rs, buffer/src")],
 ["events and fragment addresses received by a recording stream"])

prop("C21", "Owned buffers never look at memory they do not own",
 "A buffer or buffered value that has been made owned, or that was filled with computed data, remains valid and unchanged after everything it was collected from is overwritten or freed. Data reported as borrowed is the caller's memory, and making it owned copies it; buffers neither leak nor free memory twice.",
 ["histories", "inputs"], "all values up to the bounds under all histories of collect, own, clone, overwrite-source, drop-source and replay operations up to the bound",
 "Tests never overwrite or free the source before reading back.",
 ["buffer/src/value.rs", "buffer/src/fragments.rs", "src/data.rs"],
 [("into_owned conversions", "buffer/src/value.rs, buffer/src/fragments.rs"), ("raw pointers in labels", "src/data.rs")],
 ["replayed events after the source memory was poisoned and freed", "allocation balance"])

prop("C22", "Tag hints never change a result",
 "Inserting tag hints at any point of a stream leaves the final result of every consumer unchanged: JSON, formatted text, buffered and replayed data, casts, serde, nested and flattened output. Unknown tags on values, labels and fields are likewise ignored by consumers that do not document a meaning for them.",
 ["inputs"], "all values up to the bounds, with a hint inserted at every event boundary",
 "No test inserts a hint at a position other than where a derived type puts it.",
 ["src/stream.rs", "buffer/src/value.rs", "buffer/src/fragments.rs", "json/src/to_fmt.rs", "fmt/src/writer.rs", "nested/src/flat.rs", "flatten/src/flattener.rs"],
 [("tag_hint implementations", "every stream")],
 ["final output of each consumer"])

prop("C23", "The token test utilities report exactly the streamed events",
 "The testing crate's token buffer records exactly the events a value streams, one token per event and with the same data, and its assertion succeeds exactly when the token sequences are equal. Replaying recorded tokens as a value streams the recorded events again.",
 ["inputs"], "all values up to the bounds and all pairs of distinct token sequences from them",
 "The test crate is itself the oracle of other tests and has none of its own.",
 ["test/src/lib.rs"],
 [("token buffer stream", "test/src/lib.rs TokenBuf"), ("token assertion", "test/src/lib.rs assert_tokens")],
 ["tokens recorded, assertion outcome"])

prop("C24", "Without an allocator results are the same or an error, never wrong",
 "Built without allocation support, buffering, reference, formatting, JSON, flattening and nested translation give either the same result as the full build or an explicit error. They never give different data, a partial result reported as success, or a panic.",
 ["configurations", "inputs"], "all values up to the bounds in all streaming styles, in the build without allocation compared with the reference model",
 "The no-allocation configuration is only built, and few tests run in it.",
 ["buffer/src/fragments.rs", "buffer/src/value.rs", "flatten/src/label.rs", "nested/src/flat.rs", "src/data.rs", "json/src/to_fmt.rs"],
 [("conditional compilation on the alloc feature", "cfg(feature = \"alloc\") throughout")],
 ["results under default-features = false"])

prop("C25", "The experimental JSON reader streams exactly the data of the document",
 "For every well-formed JSON document within the subset the reader supports (string escapes \\n, \\r, \\\" and \\\\, lower-case exponents, nesting up to 80 mixed levels or 100 of one kind; any whitespace), reading succeeds without panicking, the events it streams are one balanced value carrying exactly the document's data in document order (duplicate keys kept), streaming it into the JSON writer gives a document with the same data, which reads back the same; a failure of the stream stops the reading and is returned.",
 ["inputs"], "all documents of the supported grammar up to the size bound",
 "A few fixed documents are tested.",
 ["experiments/src/json/from_slice.rs"],
 [("position state machine", "experiments/src/json/from_slice.rs")],
 ["events and JSON rewritten"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))

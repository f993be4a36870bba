#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept in one place for easy editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Implicit typing of plain untagged scalars",
 "A plain scalar without a tag, read as an untyped value, is null exactly for the empty string, ~, null, Null, NULL; a boolean exactly for true/True/TRUE/false/False/FALSE; an integer only when it is decimal, or 0x/0o/0b followed by digits of that radix, with at most one sign in front of the prefix and none after it; infinite or NaN only for .inf/.Inf/.INF (optionally signed) and .nan/.NaN/.NAN; and a string otherwise. A decimal digit run with a superfluous leading zero is a string, never a number. Typed reads of bool, integers, floats and null accept only scalars from the same tables (a typed integer read accepts the same radix forms with the same value; a typed float read may also accept a decimal with leading zeros).",
 ["inputs"], "every scalar text, every sign/prefix/case combination",
 "tests sample a few spellings of each type; the tables range over all texts and over ten sibling code paths",
 ["src/de.rs", "src/value/mod.rs", "src/number.rs"],
 [("parse_null/parse_bool/visit_int/parse_f64/visit_untagged_scalar", "src/de.rs"), ("digits_but_not_number", "src/de.rs")],
 ["from_str::<Value>", "from_str::<bool|i64|u64|i128|u128|f64|()|Option<_>>"])

prop("C02", "A written string is read back as a string",
 "Serializing a string or char never produces an unquoted scalar that the reader would resolve to null, a boolean, an integer, a float, or text with a superfluous leading zero: such text is written quoted, and a char is always written quoted. Text containing a line feed is written in a block-literal (never plain) style, and the characters handed to the emitter are exactly those of the value.",
 ["inputs"], "every string and char, in every serializer position",
 "tests check a handful of ambiguous strings; ambiguity is defined by the reader's whole resolver",
 ["src/ser.rs", "src/de.rs", "src/libyaml/emitter.rs"],
 [("serialize_str infers the style by running the reader's resolver", "src/ser.rs"), ("serialize_char", "src/ser.rs")],
 ["to_string(&str)", "to_string(&char)"])

prop("C03", "Null, bool and number words written are the ones read",
 "Serializing unit, None or null writes the plain scalar null; booleans write plain true/false matching their value; infinities and NaN write plain .inf, -.inf, .nan chosen by class and sign; every other number is written plain through the exact decimal formatter of its own value, for all integer and float widths. Displaying a Number uses the same special words.",
 ["inputs"], "every primitive value and width",
 "tests sample few values per width; twelve sibling methods must agree on all values",
 ["src/ser.rs", "src/number.rs", "src/value/ser.rs"],
 [("Serializer primitives", "src/ser.rs"), ("Display for Number", "src/number.rs")],
 ["to_string", "Number::to_string"])

prop("C04", "Number: sign invariant and exact primitive conversions",
 "A Number built from a signed integer reports it negative exactly when it is below zero, and every is_*/as_* accessor, conversion, serialization and comparison with a primitive agrees with the stored mathematical value: is_u64/is_i64/is_f64 hold exactly when the corresponding accessor yields a value of that representation, values that do not fit yield None, and integers are never wrapped or silently rounded. i128/u128 input becomes a Number only when it fits i64/u64; otherwise an error is reported, never a wrapped value.",
 ["inputs"], "every u64, i64, u128, i128, f32 and f64 value",
 "tests use a few values per type; boundaries (0, i64::MAX, u64::MAX, negative) and all 12 widths are not covered",
 ["src/number.rs", "src/value/mod.rs", "src/value/from.rs", "src/value/partial_eq.rs"],
 [("enum N (PosInt/NegInt/Float) constructors and accessors", "src/number.rs")],
 ["Number::from", "Number::as_i64/as_u64/as_f64", "Value == primitive"])

prop("C05", "Equality, hashing and ordering of values are coherent",
 "For Number, Value, Mapping, Tag and TaggedValue, equal values hash equally and compare as Equal in the partial order, and comparing never depends on the order in which mapping entries were inserted. NaN equals NaN and has a single hash; integers and floats are never equal to each other.",
 ["inputs"], "all pairs of values, including nested mappings in any insertion order, signed zero and NaN",
 "quantifies over pairs of recursively built values; tests compare a few pairs",
 ["src/number.rs", "src/mapping.rs", "src/value/tagged.rs", "src/value/mod.rs"],
 [("PartialEq/Hash/PartialOrd impls, total_cmp, HashLikeValue", "src/number.rs, src/mapping.rs, src/value/tagged.rs, src/value/index.rs")],
 ["==, Hash, partial_cmp on Value/Number/Mapping/Tag"])

prop("C06", "Nesting depth is bounded on every deserialization path",
 "Deserializing YAML text decrements one shared depth budget before handing any sequence, mapping or newtype wrapper to a visitor, and fails with a recursion-limit error when the budget is exhausted. The budget is inherited unchanged by elements, map keys and values, enum contents and alias targets, so no combination of them resets it and stack use is bounded for every input.",
 ["inputs"], "every nesting of sequences, mappings, tags, newtypes and aliases",
 "tests nest two fixed shapes; the property is about all combinations of container kinds",
 ["src/de.rs"],
 [("recursion_check / remaining_depth", "src/de.rs")], ["from_str"],
 [("remaining_depth", "levels left", "src/de.rs DeserializerFromEvents")])

prop("C07", "Alias expansion is bounded",
 "Every time deserialization follows an alias it first increments a repetition counter shared by the whole document and fails with a repetition-limit error once the counter exceeds a fixed multiple of the number of events in the document. Following an alias always continues at the recorded anchor position with the same document, counter and depth, for every kind of requested type.",
 ["inputs"], "every alias graph and every requested type",
 "tests exercise one billion-laughs document; thirteen entry points follow aliases",
 ["src/de.rs"], [("jump / jumpcount", "src/de.rs")], ["from_str"],
 [("jumpcount", "aliases followed so far in this document", "src/de.rs")])

prop("C08", "An alias denotes the latest preceding anchor of its document",
 "An alias resolves to the node most recently anchored with that name earlier in the same document, also when the name was redefined and when other anchors follow; scalar, sequence and mapping nodes can all be anchored. An alias to a name not anchored earlier in the same document is an unknown-anchor error carrying the position of the alias.",
 ["inputs", "histories"], "every sequence of anchor definitions, redefinitions and aliases",
 "tests never redefine an anchor name and then define others",
 ["src/loader.rs", "src/libyaml/parser.rs"], [("anchors/aliases tables in next_document", "src/loader.rs")], ["from_str"])

prop("C09", "Success means the entire input was one well-formed document",
 "Reading a single value succeeds only if the document it came from contained no parse error anywhere and no second document follows; a parse error found in the document is returned instead of a partial value, and an additional document is a more-than-one-document error. An input with no document is an end-of-stream error unless the requested type accepts nothing.",
 ["inputs"], "every input text with trailing content or late errors, and every requested type",
 "27 entry points must each apply the check; tests cover few types",
 ["src/de.rs", "src/loader.rs", "src/value/de.rs"], [("Deserializer::de", "src/de.rs")], ["from_str", "from_slice", "from_reader"])

prop("C10", "Iterating a stream yields each document once, then stops",
 "Iterating a deserializer yields one item per document in stream order with fresh anchors for each, and ends after the last document; an item cannot itself be iterated further. A document that failed to load is never followed by a phantom document assembled from the rest of the broken one, and a source that cannot be read yields the failure itself rather than an empty stream.",
 ["inputs", "histories"], "every stream of documents and every point at which loading fails",
 "tests iterate two short streams and never continue after an error",
 ["src/de.rs", "src/loader.rs"], [("Iterator for Deserializer, Loader::next_document", "src/de.rs, src/loader.rs")], ["Deserializer as Iterator"])

prop("C11", "The serializer emits a well-nested event stream",
 "For every sequence of serializer calls that follows the serde protocol, each started sequence or mapping is started exactly once before its contents and ended exactly once after them, and each top-level value is wrapped in exactly one document start and end. This includes single-entry maps whose opening is deferred until it is known whether the key is a tag, whatever kind of value is serialized as their key.",
 ["inputs", "histories"], "every serializable value tree, every call order allowed by serde",
 "tests serialize a few shapes; the deferred-opening state machine has 5 states times about 30 calls",
 ["src/ser.rs"], [("State, depth, emit_* helpers", "src/ser.rs")], ["to_string", "to_writer", "Serializer"],
 [("state", "pending tag / deferred mapping start", "src/ser.rs"), ("depth", "open values", "src/ser.rs")])

prop("C12", "Enum tags are written exactly once or rejected",
 "A tag taken from an enum variant or tagged value is attached to exactly the next scalar, sequence or mapping written, always with a leading exclamation mark, and never to a later node. A second tag for the same node is reported as a nested-enum error, never silently dropped or overwritten.",
 ["inputs", "histories"], "every nesting of newtype/tuple/struct variants and tagged values",
 "tests cover one nested enum; the state machine must hold for every call order",
 ["src/ser.rs", "src/value/tagged.rs"], [("State::FoundTag, take_tag, CheckForDuplicateTag", "src/ser.rs")], ["to_string"])

prop("C13", "I/O errors and writer failures are never swallowed",
 "When the writer passed to the serializer fails, the operation that triggered the write, flush() or into_inner() returns an error that carries that I/O error, and output is handed to the writer in full (short writes are retried). When the reader fails, deserialization reports that I/O error.",
 ["fault_sequences"], "a failure at any write, flush or read call, short writes of any size",
 "no test injects an I/O fault",
 ["src/libyaml/emitter.rs", "src/ser.rs", "src/loader.rs", "src/error.rs"],
 [("write_handler / write_error / Emitter::error", "src/libyaml/emitter.rs"), ("Loader::new read_to_end", "src/loader.rs")],
 ["to_writer", "Serializer::flush", "Serializer::into_inner", "from_reader"])

prop("C14", "Deserialization never panics on any input",
 "Reading any byte sequence from a string, slice or reader, into any type whose deserialization follows the serde protocol, returns a value or an error: no abort on out-of-range indexing, arithmetic overflow, failed unwrap, or a branch assumed unreachable.",
 ["inputs"], "every byte string and every requested type",
 "tests feed some tens of inputs",
 ["src/de.rs", "src/loader.rs", "src/libyaml/parser.rs", "src/libyaml/tag.rs", "src/value/de.rs"],
 [("explicit error returns before every indexed or unwrapped access", "src/de.rs, src/libyaml/*.rs")], ["from_str", "from_slice", "from_reader"])

prop("C15", "Displayed error positions are 1-based and agree with location()",
 "The line and column shown in an error message and the ones returned by location() are the parser's zero-based values plus one, never swapped, and the index is passed through unchanged. location() is present exactly for errors that record a position, and a parse error is always given the position the parser reported.",
 ["inputs"], "every error kind and position",
 "tests compare messages for a few errors",
 ["src/error.rs", "src/libyaml/error.rs"], [("Location::from_mark, Display for Mark, ErrorImpl::mark", "src/error.rs, src/libyaml/error.rs")], ["Error::location", "Display for Error"])

prop("C16", "Data errors carry the position and path of the innermost node",
 "When text is deserialized, an error that a visitor returns for a scalar, sequence or mapping, or that the deserializer raises itself because a node has the wrong kind, length or text, gets the position and path of that node; a position once recorded is never overwritten by an enclosing node. The path shown lists the sequence indices and map keys from the root to the node, in order, with ? for a key that is not a text scalar; an alias does not add to it.",
 ["inputs"], "every nesting and every requested type",
 "about fifteen entry points attach positions; tests check a few of them",
 ["src/de.rs", "src/error.rs", "src/path.rs"], [("fix_mark / set_pos-if-none / Path", "src/error.rs, src/de.rs, src/path.rs")], ["Error::location", "Display for Error"])

prop("C17", "Borrowed and unchecked text is always valid UTF-8 of the input",
 "Text given to a visitor as borrowed is a sub-slice of the caller's input and equals the decoded scalar, so it is never data read from an owned buffer; text never becomes a str without having been validated or compared equal to validated text. Scalars whose bytes are not valid UTF-8 produce an error.",
 ["inputs"], "every input bytes, scalar style and escape",
 "undefined behaviour and lifetimes are not observable in ordinary tests",
 ["src/de.rs", "src/libyaml/parser.rs", "src/libyaml/cstr.rs"], [("parse_borrowed_str, convert_event repr only for borrowed input", "src/de.rs, src/libyaml/parser.rs")], ["from_str::<&str>"])

prop("C18", "The C-style parser, emitter and events have a sound lifecycle",
 "The low-level parser and emitter are initialized before use, released exactly once, and never used after release; each parser event is released exactly once after it was converted, and only if parsing succeeded. Lengths passed to the emitter are lossless: text too long for the emitter is an error, never truncated or reinterpreted.",
 ["inputs", "histories"], "every call sequence, including early errors and large strings",
 "double free, leak and over-read are invisible to the tests",
 ["src/libyaml/parser.rs", "src/libyaml/emitter.rs", "src/libyaml/util.rs"], [("Owned/InitPtr, Drop impls, yaml_event_delete", "src/libyaml/*.rs")], ["Deserializer", "Serializer"])

prop("C19", "Lifetimes, ownership and thread-safety of the public types are enforced by types",
 "No program that compiles keeps a serializer longer than the writer it borrows (also when both are merely dropped in the wrong order), a deserializer or one of its documents longer than its input, or a borrowed result longer than the text or Value it was read from; values read from a reader or from an owned Value cannot borrow. Serializers and deserializers over thread-bound writers or readers cannot be sent to other threads, while Error, Location, Value, Number, Mapping, Tag, TaggedValue and the mapping iterators and entries are Send and Sync. The index traits cannot be implemented outside the crate, keys cannot be changed in place inside a mapping, and the fields behind Number, Tag, Mapping and Location stay private.",
 ["programs"], "every program using the API",
 "tests contain only programs that compile",
 ["src/ser.rs", "src/de.rs", "src/value/index.rs", "src/mapping.rs", "src/error.rs", "src/value/mod.rs", "src/value/tagged.rs", "src/number.rs"], [("type signatures and marker fields", "src/*.rs")], ["rustc"])

prop("C20", "Deserializing from an owned or a borrowed Value agrees",
 "For every requested type, deserializing from a Value and from a reference to it take the same decision for every kind of node, apart from lending strings: the same visitor callback with the same payload, or the same kind of error. Tags, nulls, empty containers and enum forms are treated alike by both.",
 ["inputs", "programs"], "every Value variant times every requested type, in both deserializers",
 "two hand-written copies of some 30 methods; tests exercise few of them",
 ["src/value/de.rs"], [("impl Deserializer for Value / &Value and their accessors", "src/value/de.rs")], ["from_value", "T::deserialize(&value)"])

prop("C21", "Leftover data in a sequence or mapping is an error",
 "When the requested type stops before consuming every element of a sequence or every entry of a mapping, deserialization fails with an invalid-length error rather than discarding the rest, both from text and from a Value. When a Value is deserialized, no element is dropped or delivered twice.",
 ["inputs", "programs"], "every container length and every consumer",
 "tests cover one tuple and struct; six implementations exist",
 ["src/de.rs", "src/value/de.rs"], [("end_sequence/end_mapping, visit_sequence/visit_mapping", "src/de.rs, src/value/de.rs")], ["from_str::<(T,)>", "from_value"])

prop("C22", "Duplicate mapping keys are rejected on deserialization",
 "Deserializing an untyped Value or a Mapping inserts each key at most once: a key equal to an earlier key of the same mapping is an error naming the duplicate, and never silently overwrites or drops an entry.",
 ["inputs"], "every mapping and key type",
 "tests cover a few key types",
 ["src/mapping.rs", "src/value/de.rs"], [("Deserialize for Mapping: entry Occupied -> error", "src/mapping.rs")], ["from_str::<Value>", "from_str::<Mapping>"])

prop("C23", "Merge keys follow YAML merge semantics",
 "Applying merges replaces a << entry by the entries of the referenced mapping or sequence of mappings, without overriding any key the mapping already has and with earlier mappings winning over later ones, recursively through sequences, mappings and tagged values and through merges inside the merged mappings. A << whose value is not a mapping or a sequence of mappings is an error (distinguishing scalars, tagged values, and wrong sequence elements).",
 ["inputs"], "every value tree containing << at any depth",
 "tests cover two documents",
 ["src/value/mod.rs"], [("Value::apply_merge", "src/value/mod.rs")], ["Value::apply_merge"])

prop("C24", "Value accessors and indexing agree and look through tags",
 "Every is_*/as_* accessor of Value answers for the content beneath any tags, with is_x true exactly when as_x yields a value, and matching only its own kind of node. Indexing, get and get_mut agree on which child they denote, for positions, string keys and Value keys; a missing child gives None from get, null from indexing by key, and only mutable indexing inserts. Comparing a Value with a string, bool or number is true exactly when the content beneath the tags is that primitive, and converting a bool, string, list or mapping into a Value gives that kind of node with the same content.",
 ["inputs"], "every value kind and every index type",
 "about 40 small accessors; tests cover few",
 ["src/value/mod.rs", "src/value/index.rs"], [("accessors via untag, Index trait impls", "src/value/mod.rs, src/value/index.rs")], ["Value::as_*", "Value::get", "value[index]"])

prop("C25", "Mapping behaves as an insertion-ordered map",
 "Each Mapping operation has the meaning of the equally named ordered-map operation on the same keys and values: lookup by str denotes the entry whose key is that string value; swap removal and shifting removal are what their names say, with remove meaning swap removal; iteration, keys, values and entries expose every entry in order without loss. Entry operations insert only into vacant entries and modify only occupied ones.",
 ["inputs", "histories"], "every sequence of map operations",
 "some 60 delegating methods; most have no test",
 ["src/mapping.rs"], [("delegation to the indexed map", "src/mapping.rs")], ["Mapping::*"])

prop("C26", "singleton_map modules only change how enums are represented",
 "The singleton_map and singleton_map_recursive modules forward every non-enum value and request unchanged and represent an enum variant as a plain string (unit variants) or a map with exactly one entry keyed by the variant name. When reading, a map with no entry or more than one, a map for a unit variant, or a string for a variant with contents is an error. singleton_map does this for the enum itself (and inside Option around it), the recursive module at every level below, including map keys, elements and fields.",
 ["inputs", "programs"], "every value tree and requested type",
 "over 150 forwarding methods; tests cover a few",
 ["src/with.rs"], [("SingletonMap* wrappers", "src/with.rs")], ["with::singleton_map*"])

prop("C27", "Serializing into a Value loses nothing",
 "Serializing into a Value keeps every primitive exactly: integers that fit stay integers, larger 128-bit integers become their exact decimal string, floats keep their value, bytes become the sequence of their numbers, sequences keep order and length, and map entries and struct fields are kept in order (the last of several equal keys wins). A unit variant becomes its name, every other enum variant a value tagged with the variant name, and a map announced with one entry whose key is displayed as a tag becomes that tagged value. A variant with an empty name is reported as an error. How entries are fed (at once or key by key) and wrong length hints do not matter otherwise.",
 ["inputs"], "every serializable value",
 "tests serialize a few values to Value",
 ["src/value/ser.rs"], [("value::Serializer and its compound serializers", "src/value/ser.rs")], ["to_value"])

prop("C28", "The leading exclamation mark of a tag is insignificant",
 "Tags that differ only in one leading exclamation mark are equal, hash equally, order as equal and compare equal to strings with or without it; they display and serialize with exactly one. A map key that is displayed rather than serialized is taken for a tag only when what it displays is one, and otherwise keeps every character. An empty tag is rejected where a tag is built from external data.",
 ["inputs"], "every tag text",
 "tests cover one or two tags",
 ["src/value/tagged.rs"], [("nobang, Tag impls", "src/value/tagged.rs")], ["Tag", "TaggedValue"])

prop("C29", "Quoting and core-schema tags are honoured by typed reads",
 "A quoted or block scalar without a tag is only ever a string for typed bool, integer, float, unit and option reads, and for untyped reads. An untyped read of a scalar with a core-schema bool, int, float, null or str tag, in whatever style, gives exactly that type, and text that does not match its tag is an error instead of another type; typed reads of a plain scalar with the matching tag accept exactly the texts of that type, and a quoted or block scalar with another type's tag is an error. A tag already consumed to select an enum variant does not influence how its contents are read, and does not linger to hide the tag of any later node.",
 ["inputs"], "every style x tag x requested type",
 "5 styles x 6 tags x 12 entry points",
 ["src/de.rs"], [("visit_scalar, is_plain_or_tagged_literal_scalar, per-method tables", "src/de.rs")], ["from_str::<T>"])

prop("C30", "Every typed read requests and delivers its own kind of data",
 "Each typed read from text or from a Value delivers its own kind of data to the visitor (a sequence request a sequence, a map request a map, an integer request the exact integer, a string request the scalar's exact text whatever its style or tag, and so on) or an error: a node of the requested kind is delivered with exactly its own payload through a callback every visitor of that kind accepts, any other node is an error. It consumes exactly one node (an ignored node with everything nested in it), a read through an alias asks for the same kind at the alias's target, and a read through the top-level deserializer makes the same request, with the same name, length and fields, as the one the type asked for. A Value built from data records exactly that data.",
 ["inputs", "programs"], "every requested type x every node kind",
 "29 entry points in each of 4 deserializers",
 ["src/de.rs", "src/value/de.rs", "src/number.rs"], [("Deserializer impls", "src/de.rs, src/value/de.rs")], ["from_str::<T>", "from_value::<T>"])

prop("C31", "Text written for a value parses back to an equal value",
 "For every Value without NaN, serializing it to text and parsing the text yields an equal Value.",
 ["inputs"], "every value tree",
 "quantifies over all values and the whole emitter/scanner pair",
 ["src/ser.rs", "src/de.rs"], [("whole pipeline", "src/ser.rs, src/de.rs")], ["to_string then from_str"])
prop("C32", "Finite floats are written with round-trip precision",
 "The decimal text written for a finite f32 or f64 parses back to the same bits.",
 ["inputs"], "every finite float",
 "2^64 values", ["src/ser.rs", "src/number.rs"], [("ryu formatting, std parsing", "src/ser.rs, src/number.rs")], ["to_string", "from_str"])
prop("C33", "Emitted text is always valid YAML with the requested style",
 "Whatever events the serializer emits, the produced text is valid YAML that scans back into the same events.",
 ["inputs"], "every event stream", "quantifies over the libyaml port's emitter",
 ["src/libyaml/emitter.rs"], [("unsafe-libyaml emitter", "dependency")], ["to_string"])
prop("C34", "Parsing and serializing use time and memory linear in their input",
 "Loading a document takes time and memory proportional to its length.",
 ["inputs"], "every input", "a resource bound over all inputs",
 ["src/loader.rs", "src/de.rs"], [("event vector", "src/loader.rs")], ["from_str"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))

prop('C01', 'Serialization produces a well-formed, correctly paired event stream',
 'For every serializable value, driving it yields one complete value: atoms stand alone, every map or sequence start is closed by the matching end of the same kind, map keys and values alternate, struct fields come out as key followed by value, and the end of the stream is reported only once everything is closed. '
 'The descriptor reported with an event is the one of the value the event belongs to (a container\'s end carries the descriptor of its start), and the state\'s depth and topmost descriptor always describe exactly the containers currently open. '
 'A value\'s finish hook runs exactly once, after the value\'s last event and before anything that follows it, and any error returned by user code during this is returned to the caller.',
 ['inputs', 'programs'], 'every value of every type implementing Serialize, including user-defined emitters',
 'Tests drive a handful of nested vectors, maps and structs; the protocol must hold for every nesting, every user-defined emitter and every place an error can be returned.',
 ['deser/src/ser/driver.rs', 'deser/src/ser/mod.rs', 'deser/src/ser/chunk.rs'],
 [('SerializeDriver state machine', 'deser/src/ser/driver.rs: SerializeDriver::advance/next')],
 [('state_stack', 'continuations of the values being serialized', 'deser/src/ser/driver.rs')], ['SerializeDriver::next'])
prop('C02', 'Deserialization drives sinks in protocol order and rejects malformed events',
 'For every sequence of events fed to a deserialization driver, a sink receives exactly one of atom, map or seq, a map sink is then asked for a key sink and a value sink in strict alternation and a sequence sink for one value sink per element, and a value\'s finish hook runs exactly once, after its atom or after its last element. '
 'An event that cannot occur at its position (an end that does not match the innermost open container, a map end where a value is due, a value after the root value is complete) panics instead of being accepted. '
 'The state\'s depth and topmost descriptor always describe exactly the containers currently open, also after an error, and every error returned by a sink is returned to the caller of emit.',
 ['histories', 'programs', 'inputs'], 'every finite sequence of events, well formed or not, and every user-defined sink',
 'The tests emit a few well-formed sequences; the guarantee is about arbitrary event histories, including malformed ones and ones continued after an error.',
 ['deser/src/de/driver.rs', 'deser/src/de/mod.rs'],
 [('DeserializeDriver state machine', 'deser/src/de/driver.rs: _emit/update_current_sink')],
 [('sink_stack', 'open containers and whether a key or value is due', 'deser/src/de/driver.rs')], ['DeserializeDriver::emit'])
prop('C03', 'Safe code cannot make the drivers or owned sinks touch freed memory',
 'No program without unsafe code can make a driver, sink handle, slot wrapper or owned sink read or write memory that is not valid: everything that borrows is bounded by the lifetime of what it borrows from, events and descriptors handed out cannot outlive the next step of the driver, and none of these types can be sent to another thread. '
 'Whatever point an (de)serialization is abandoned at, including after an error, everything that borrows from another value or emitter is dropped before the thing it borrows from, and nothing is dropped twice or used after being dropped. '
 'Memory is reinterpreted as another type only where both have the same representation: transparent wrappers, and byte buffers for element types that are bytes.',
 ['programs', 'histories', 'fault_sequences'], 'every safe program using the public API, every abandonment point',
 'A test can only show programs that compile and do not crash; soundness is about every safe program, including those that must be rejected by the compiler.',
 ['deser/src/ser/driver.rs', 'deser/src/de/driver.rs', 'deser/src/de/owned.rs', 'deser/src/de/impls.rs', 'deser/src/macros.rs', 'deser/src/de/mod.rs', 'deser/src/ser/mod.rs', 'deser-derive/src/ser.rs', 'deser-derive/src/de.rs'],
 [('lifetime extension', 'extend_lifetime! in deser/src/macros.rs and its uses'), ('reverse order drop', 'Drop impls of SerializeDriver, DeserializeDriver, OwnedSink'), ('byte specialisation', 'Serialize::__private_slice_as_bytes, Deserialize::__private_is_bytes')])
prop('C04', 'Reading JSON never panics, whatever the bytes',
 'For every byte string, including truncated, deeply nested, non-UTF-8 and adversarial numeric input, reading JSON returns a value or an error. '
 'It never panics, never indexes or slices outside the input, never overflows an integer, and never loops without consuming input.',
 ['inputs'], 'all byte strings of any length, in builds with overflow checks enabled',
 'The tests parse a few short well-formed documents.',
 ['deser-json/src/de.rs'], [('cursor discipline', 'deser-json/src/de.rs: next/peek/bump'), ('token loop', 'deser-json/src/de.rs: deserialize_into')],
 [('pos', 'read position, never beyond the input', 'deser-json/src/de.rs')], ['deser_json::from_str', 'deser_json::Deserializer::deserialize'])
prop('C05', 'The JSON reader accepts JSON documents and nothing else',
 'A document is accepted only if it is a single JSON value by the grammar of RFC 8259 surrounded by optional whitespace: brackets match, commas and colons are exactly where the grammar puts them (no trailing, leading, doubled or missing ones), keys are strings, literals are spelled exactly, numbers have no leading zeros, plus signs or missing digits, strings contain no raw control characters and only the defined escapes with paired surrogates. '
 'Every such document is accepted unless a number is out of range or the target type rejects a value; nothing may be left over after the value.',
 ['inputs'], 'all byte strings',
 'The tests contain a few accepted documents and almost no rejected ones; the language is infinite.',
 ['deser-json/src/de.rs'], [('lexer', 'deser-json/src/de.rs: next_token, parse_*'), ('token loop', 'deser-json/src/de.rs: deserialize_into')],
 [('stack', 'open containers and what is due next', 'deser-json/src/de.rs: ContainerState')], ['deser_json::from_str'])
prop('C06', 'The JSON reader reports every token as the value it denotes',
 'Each JSON value is delivered as the one event that denotes it, in document order: null, true and false as such, strings with every escape replaced by exactly the character it stands for and all other text unchanged, arrays and objects as matching start and end. '
 'A number without fraction and exponent that fits a 64 bit integer is delivered as exactly that integer, with its sign; other numbers are delivered as floats of the right sign or rejected.',
 ['inputs'], 'all JSON documents',
 'Tests check a few strings and small numbers; escapes, boundaries of the integer range and orderings form an unbounded set.',
 ['deser-json/src/de.rs'], [('escape decoding', 'deser-json/src/de.rs: parse_escape, decode_hex_escape'), ('number decoding', 'deser-json/src/de.rs: parse_integer, parse_number'), ('event emission', 'deser-json/src/de.rs: deserialize_into')])
prop('C07', 'Written JSON is always well formed',
 'For every serializable value, with or without the speedups feature, JSON serialization either returns an error or a single well-formed JSON text whose structure is that of the value: separators appear exactly between elements and between key and value, every string (keys and chars included) is quoted and escaped, and finite numbers are written as numbers. '
 'Non-finite floats become null; bytes, and map keys that are not strings or chars, are errors rather than malformed output.',
 ['inputs', 'programs', 'configurations'], 'every value of every type, both feature configurations',
 'Tests compare a handful of outputs in each configuration.',
 ['deser-json/src/ser.rs'], [('writer loop', 'deser-json/src/ser.rs: Serializer::serialize')],
 [('container_stack', 'open containers and whether a separator is due', 'deser-json/src/ser.rs')], ['deser_json::to_string'])
prop('C08', 'JSON string escaping is complete and is undone by the reader',
 'Every character of every string written to JSON appears either as itself or as an escape sequence that the reader in this library turns back into exactly that character; quotes, backslashes and all control characters are always escaped, and no byte is dropped, duplicated or reordered.',
 ['inputs'], 'all strings',
 'The tests write two or three strings; the escape table has 256 entries and the copy logic works at arbitrary positions.',
 ['deser-json/src/ser.rs', 'deser-json/src/de.rs'], [('writer escape table', 'deser-json/src/ser.rs: ESCAPE, write_escaped_str'), ('reader escape table', 'deser-json/src/de.rs: ESCAPE, parse_escape')])
prop('C09', 'Numbers never change value silently',
 'An integer, bool, char or float handed to serialization arrives at the event stream with the same value, and an integer accepted by deserialization has exactly the value of the event: a value that the target integer type cannot represent is an out of range error, never wrapped, truncated or sign-changed. '
 'Conversions from plain values into atoms, chunks and events keep the kind and the value.',
 ['inputs'], 'all values of all primitive types and all pairs of source and target type',
 'Tests try a few values per type; there are 2^64 values for each of the integer kinds and twelve target types.',
 ['deser/src/de/impls.rs', 'deser/src/ser/impls.rs', 'deser/src/ser/chunk.rs', 'deser/src/event.rs'],
 [('integer sinks', 'deser/src/de/impls.rs: int_sink!'), ('integer serialization', 'deser/src/ser/impls.rs: serialize_int!'), ('conversions', 'deser/src/event.rs, deser/src/ser/chunk.rs: impl_from!')])
prop('C10', 'Wrapping a serializable is transparent',
 'Serializing a value through a reference, a mutable reference, a box, Some, a serialize handle, a derived newtype or the path tracking wrapper has the same observable behaviour as serializing the value itself: the same chunk or error, the same finish hook calls, the same answer to whether it is an optional (except for Option, which is one exactly if it is None) and, except for Option, the same descriptor.',
 ['programs', 'inputs'], 'every wrapped type, including user-defined ones that override any of the hooks',
 'Tests wrap only types that rely on the default hooks, for which forwarding makes no difference.',
 ['deser/src/ser/impls.rs', 'deser/src/ser/mod.rs', 'deser-path/src/ser.rs', 'deser-derive/src/ser.rs'],
 [('forwarding impls', 'deser/src/ser/impls.rs: &T, &mut T, Box<T>, Option<T>; deser-path/src/ser.rs; derive of newtype structs')])
prop('C11', 'Wrapping a deserializable is transparent',
 'Deserializing through Option, Box, a derived newtype, a sink handle or the path tracking sink hands every event, request for a nested sink and query on to the wrapped sink unchanged and in the same order, returns its answers and errors, and leaves exactly the wrapped result in the output. '
 'The only exceptions are that Option answers null itself with None, and that the path sink wraps the nested sinks it returns.',
 ['programs', 'inputs'], 'every wrapped type and event sequence',
 'Tests wrap a few primitive types; a hook that is not forwarded is only noticed by types that rely on it.',
 ['deser/src/de/impls.rs', 'deser/src/de/mod.rs', 'deser/src/de/owned.rs', 'deser-path/src/de.rs', 'deser-derive/src/de.rs'],
 [('forwarding sinks', 'NullIgnoringSink and BoxSink in deser/src/de/impls.rs; PathSink in deser-path/src/de.rs; derive of newtype structs')])
prop('C12', 'Collections receive every element, in order, and exactly the right number',
 'After a sequence or map has been fed to the sink of a vector, set, map, tuple or array, the output holds exactly the elements that were delivered, in order of delivery and each key with its own value; nothing is lost, duplicated or mispaired, and nothing is stored before the container is finished. '
 'Tuples and arrays accept exactly their own number of elements and report a length error for more or fewer; every collection accepts the container kind it is serialized as and rejects the other.',
 ['inputs'], 'all element types and all lengths',
 'Tests use collections of up to a few elements and not every collection type.',
 ['deser/src/de/impls.rs'], [('element slot and flush', 'deser/src/de/impls.rs: VecSink, MapSink, BTreeSetSink, HashSetSink, TupleSink, ArraySink')])
prop('C13', 'A sink either fills its slot with the received value or reports an error',
 'Whenever the sink of a primitive type, string, char, byte container or derived enum reports success for an atom, its slot holds the value carried by that atom (for an enum: the variant of that name); atoms of any kind the type does not accept are an unexpected-type error and leave the slot alone. '
 'The sink that ignores values accepts everything.',
 ['inputs'], 'all atoms and all built-in target types',
 'Tests exercise the accepting path of most types and the rejecting path of few.',
 ['deser/src/de/impls.rs', 'deser/src/de/ignore.rs', 'deser/src/de/mod.rs', 'deser-derive/src/de.rs'],
 [('atom handlers', 'deser/src/de/impls.rs: impl Sink for SlotWrapper<..>')])
prop('C14', 'Serialized collections yield every element once, in order',
 'Serializing a slice, vector, array, tuple, map or set yields each of its elements exactly once, in iteration order, each map key directly followed by its own value, and then ends; byte slices, byte vectors and byte arrays are the one exception and yield their bytes as a single atom.',
 ['inputs'], 'all collections of all element types',
 'Tests serialize collections with two or three elements.',
 ['deser/src/ser/impls.rs'], [('emitters', 'deser/src/ser/impls.rs: SliceEmitter, map and set Emitter, TupleSeqEmitter')])
prop('C15', 'Stack use does not grow with the nesting depth of the data',
 'Serializing, deserializing and reading or writing JSON use a bounded amount of call stack per type, no matter how deeply the data or the document is nested: nested values are kept on heap-allocated stacks and no function of the drivers, the JSON reader or writer, or of the built-in sinks and emitters calls itself again for a nested container.',
 ['inputs'], 'all nesting depths',
 'A test can only try one depth; the bound must hold for all of them.',
 ['deser/src/ser/driver.rs', 'deser/src/de/driver.rs', 'deser-json/src/de.rs', 'deser-json/src/ser.rs'],
 [('explicit stacks', 'state_stack/emitter_stack/serializable_stack, sink_stack, ContainerState stacks')])
prop('C16', 'Errors are never swallowed',
 'Whenever a serializer, emitter, sink, driver or the JSON layer obtains an error from user code or from a lower layer, the operation in progress returns an error to its caller; an error is never dropped, replaced by a success or turned into a default value.',
 ['programs', 'fault_sequences'], 'every call that can fail, in every crate, at every point',
 'Tests inject errors at one or two points only.',
 ['deser/src', 'deser-json/src', 'deser-path/src', 'deser-debug/src', 'deser-derive/src'],
 [('error propagation', 'every call returning Result<_, deser::Error>')])
prop('C17', 'The tracked path always names the current location',
 'While values are serialized or deserialized under path tracking, the path seen by a value consists of exactly the keys and indexes that lead to it from the root: each element of a sequence has its own zero-based index, each map or struct value its own key, a key that is not a string or unsigned integer shows up as unknown, and leaving a container restores the path it was entered with. ',
 ['inputs', 'histories'], 'all documents of all shapes',
 'The tests look at the path of one flat map and one flat sequence.',
 ['deser-path/src/ser.rs', 'deser-path/src/de.rs', 'deser-path/src/lib.rs'],
 [('segment push and pop', 'deser-path/src/ser.rs: SegmentPushingSerializable; deser-path/src/de.rs: PathSink')],
 [('Path.segments', 'current location', 'deser-path/src/lib.rs')])
prop('C18', 'Derived names follow the documented rename rules in both directions',
 'A derived struct or enum serializes each field or variant under its rename, or else under its identifier converted by the container\'s rename_all rule (the eight documented styles), and deserializes it from that same name and from its aliases and from no other name; fields and variants never answer to each other\'s names every field is emitted in declaration order, and the type reports its own name or its rename as its descriptor\'s name.',
 ['programs'], 'all structs and enums and all combinations of rename, rename_all and alias',
 'Tests cover a few styles on a few identifiers, mostly in one direction.',
 ['deser-derive/src/attr.rs', 'deser-derive/src/ser.rs', 'deser-derive/src/de.rs'],
 [('name computation', 'deser-derive/src/attr.rs: get_field_name, get_variant_name'), ('matchers', 'deser-derive/src/de.rs'), ('emission', 'deser-derive/src/ser.rs')])
prop('C19', 'Invalid derive input is a compile error',
 'The derives never silently ignore an attribute: unknown, malformed, misplaced, duplicated or contradictory deser attributes, field or variant names used twice for deserialization, and unsupported shapes (tuple structs with several fields, unions, enums with data) fail to compile.',
 ['programs'], 'all derive inputs',
 'The test suite contains no compile-fail tests.',
 ['deser-derive/src/attr.rs', 'deser-derive/src/de.rs', 'deser-derive/src/ser.rs', 'deser-derive/src/lib.rs'],
 [('attribute parsing', 'deser-derive/src/attr.rs')])
prop('C20', 'Derives compile for every supported type and any names in scope',
 'For every supported shape the derived code compiles and only demands what it needs: generic types (with bounds, where clauses, lifetimes, const parameters), raw identifiers and non-ASCII names work, each type parameter is required to implement just the trait being derived, and the expansion does not depend on, or collide with, the types, values, macros and modules the user has in scope.',
 ['programs'], 'all supported type definitions and scopes',
 'Tests derive for a dozen concrete, mostly non-generic types in an ordinary scope.',
 ['deser-derive/src/de.rs', 'deser-derive/src/ser.rs', 'deser-derive/src/bound.rs', 'deser/src/lib.rs'],
 [('generated code', 'deser-derive/src/de.rs, deser-derive/src/ser.rs'), ('re-exports for generated code', 'deser/src/lib.rs: __derive')])
prop('C21', 'Missing fields are filled by the documented default or reported',
 'When a derived struct is deserialized, a field that was present keeps its received value no matter which defaults exist; a missing field takes its field default (the named function, or Default), else that field of the container default, else None if it is an Option, and otherwise the result is a missing-field error naming the field. '
 'Unknown keys are ignored, and no output is produced unless every field has a value.',
 ['inputs', 'programs'], 'all subsets and orders of present keys, all combinations of default attributes',
 'Tests try a few subsets for a few attribute combinations.',
 ['deser-derive/src/de.rs', 'deser/src/de/impls.rs', 'deser/src/lib.rs'],
 [('two stage defaults', 'deser-derive/src/de.rs: field_stage1_default, stage2_default')])
prop('C22', 'Optional and skipped fields are omitted exactly when asked',
 'A derived struct omits a field from its output if and only if skip_serializing_if on the field returns true for it or skip_serializing_optionals is set and the field reports to be optional; every other field is emitted, once, with its own value. '
 'Only None and the unit value (also behind references, boxes and newtypes) report to be optional, None serializes as null, and null deserializes an Option to None.',
 ['inputs', 'programs'], 'all field values and all combinations of skip attributes, flattened fields included',
 'Tests try one or two structs.',
 ['deser-derive/src/ser.rs', 'deser/src/ser/impls.rs', 'deser/src/de/impls.rs'],
 [('skip logic', 'deser-derive/src/ser.rs: field_skip, optional_skip'), ('optionals', 'is_optional implementations, NullIgnoringSink')])
prop('C23', 'Flattening merges a nested struct both ways',
 'Serializing a struct with flattened fields yields the fields of the flattened structs in place, all of them, at the position of the flattened field and without a container of their own; flattening anything else is an error. '
 'When deserializing, a key not known to the outer struct is offered to each flattened struct in turn and stored by the first that knows it, and the flattened structs are finished before the outer one.',
 ['inputs', 'programs'], 'all structs with flattened fields and all inputs',
 'Tests flatten one or two structs with all keys present.',
 ['deser-derive/src/ser.rs', 'deser-derive/src/de.rs', 'deser/src/de/owned.rs'],
 [('nested emitter', 'deser-derive/src/ser.rs'), ('value_for_key chain', 'deser-derive/src/de.rs')])
prop('C24', 'Debug formatting terminates and renders each value once',
 'Formatting any serializable with the debug formatter terminates, including when the underlying writer fails (which is then reported as an error), and renders each event with its own value: atoms in their Debug form, maps as key-value pairs, sequences as lists, each element exactly once and in order.',
 ['inputs', 'fault_sequences'], 'all values, all failure points of the writer',
 'There is a single test with a writer that never fails.',
 ['deser-debug/src/lib.rs'], [('token walk', 'deser-debug/src/lib.rs: dump, Helper')])
prop('C25', 'State extensions are private to their type and live as long as the state',
 'An extension value requested from the serializer or deserializer state by type is created from Default on first use and is the same value on every later request for that type during the whole run; requests for other types never see, replace or reset it.',
 ['histories', 'programs'], 'all sequences of requests for any types',
 'Tests use a single extension type.',
 ['deser/src/extensions.rs', 'deser/src/ser/mod.rs', 'deser/src/de/mod.rs'],
 [('type map', 'deser/src/extensions.rs: Extensions, TypeKey')])
# ---- stated but not decided here
prop('C26', 'Floats read from JSON are the nearest representable value',
 'A JSON number that is not a 64 bit integer is read as the double closest to its decimal value, and a finite double written to JSON reads back as the same double.',
 ['inputs'], 'all decimal numerals and all doubles',
 'Tests compare a few numerals.',
 ['deser-json/src/de.rs', 'deser-json/src/ser.rs'], [('decimal to double', 'deser-json/src/de.rs: f64_from_parts')])
prop('C27', 'Values survive a round trip through JSON',
 'For every type that supports both directions, reading back what was written yields an equal value.',
 ['inputs', 'programs'], 'all values of all types', 'Tests round trip a few values.',
 ['deser-json/src', 'deser/src'], [('whole library', 'deser, deser-json')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')

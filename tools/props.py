import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,obs=None,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if obs: d['anchors']['observe_at']=obs
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
R='value/src/reader.rs';W='value/src/writer.rs';VV='value/src/values.rs';VM='value/src/macros.rs'
D='src/decode.rs';E='src/encode.rs';L='src/lib.rs';M='src/macros.rs'
p('C01','Strict decoding accepts only the one canonical encoding',
 'Whenever strict decoding of a byte string succeeds, under any nesting limit, encoding the decoded value reproduces exactly that byte string. Consequently no two different byte strings strictly decode to the same value, and no byte string with a non-minimal length head, unsorted or duplicate map keys, or trailing bytes is accepted.',
 ['inputs'],'all byte strings of any length and every nesting limit',
 'Tests list a few dozen accepted and rejected byte strings; the claim is about all byte strings, including keys that are themselves containers and heads at every length boundary.',
 [R,W,VV],[('minimal-head check','reader: read_variadic_length_integer'),('key order check','reader: read_map_content'),('trailing data check','reader: read_nested'),('inverse encoder','writer: encode_cbor / start_item')],['read, read_nested, write_nested'])
p('C02','Encoding then strictly decoding gives the value back',
 'For every value tree whose negative integers lie in CBOR range, if encoding succeeds then strictly decoding the output under the same nesting limit succeeds and yields the same tree with the entries of each map in canonical key order. A value whose maps are already in canonical order comes back identical, and encoding only appends to the output buffer.',
 ['inputs'],'all value trees (any depth, width, integer, string, map with any keys) and every nesting limit',
 'Tests encode some fixed values and compare fixed bytes; no test ranges over value trees, and none nests maps inside map keys.',
 [W,R,VV],[('encoder','writer: encode_cbor'),('decoder','reader: decode_complete_data_item')],['write, write_nested, read, read_nested'])
p('C03','Encoder output is canonical, deterministic and entry-order independent',
 'Every successful encoding uses the shortest head for every length and integer, and orders the entries of every map at every depth, including maps inside keys, by strictly increasing bytewise order of the encoded keys. Reordering the entries of any map in the value changes neither the bytes nor the outcome, and a map with two entries whose keys encode identically is refused with the duplicate-key error.',
 ['inputs'],'all value trees, all permutations of map entries',
 'Tests compare one sorted and one unsorted flat map and four flat duplicates; permutations at depth and container keys are not reached.',
 [W,VV],[('shortest head selection','writer: start_item'),('map sorting and duplicate check','writer: encode_cbor Map arm'),('value order','values: Ord for Value')],['write, write_nested, to_vec'])
p('C04','Decoding arbitrary bytes always returns, never panics or overflows',
 'Decoding any byte string in strict or lenient mode under any nesting limit, including negative ones, returns a value or an error without panicking, overflowing arithmetic, reading out of bounds, or looping forever. Every decoded string has exactly the length its head declares and is copied from the input at that place; a length larger than the remaining input is reported as incomplete data, never truncated.',
 ['inputs'],'all byte strings, both modes, all nesting limits, both 32- and 64-bit pointer widths',
 'Tests and fuzzing sample inputs; absence of panics and termination for all inputs and for lengths up to 2^64-1 cannot be sampled.',
 [R,'difffuzz/src/lib.rs'],[('bounds check','reader: read_bytes'),('depth check before recursion','reader: decode_complete_data_item'),('no preallocation','reader: read_array_content')],['read, read_nested, read_nested_non_strict'])
p('C05','Malformed input is refused with the error naming its first fault',
 'Strict decoding reads items left to right and refuses malformed input with the error class of the first fault met: reserved head forms, incomplete data, nesting too deep, invalid UTF-8, non-minimal heads, unordered or duplicate keys, unsupported simple values, floating point, and trailing bytes each have their own error. Input free of these faults is always accepted.',
 ['inputs'],'all byte strings and nesting limits; precedence among faults',
 'Tests check single-fault examples; the exact classification over all inputs, and completeness of acceptance, is universal.',
 [R],[('classification','reader: decode_complete_data_item, read_variadic_length_integer, decode_to_simple_value, read_map_content')],['read, read_nested'])
p('C06','Nesting limits are enforced exactly, on both sides',
 'With limit n, decoding and encoding refuse exactly the data whose arrays, maps or tags put some item more than n levels deep, reporting excess nesting, and never refuse shallower data for its nesting; without a limit nothing is refused for nesting. The default limit is 127 levels for untyped decoding and encoding, and 64 for typed decoding including the serde layer.',
 ['inputs','configurations'],'all value trees and byte strings, all limits from -128 to 127 and none',
 'Tests try three or four small structures at a handful of limits.',
 [R,W,L,'src/serde/mod.rs'],[('depth countdown','reader/writer: remaining_depth'),('limits','lib: MAX_NESTING_LEVEL, reader::read, writer::write')],['read, read_nested, write, write_nested, from_slice'])
p('C07','Lenient decoding extends strict decoding and maps floats to undefined',
 'Everything strict decoding accepts, lenient decoding accepts with the same value. Beyond that, lenient decoding takes non-minimal heads, unordered or repeated map keys (kept in input order), trailing bytes, and unknown simple values and floating-point numbers of any width and bit pattern (both read as undefined), while truncation, reserved heads, invalid UTF-8 and excess nesting are still refused with their usual errors.',
 ['inputs'],'all byte strings and nesting limits',
 'There are a handful of lenient tests, all with fixed byte strings.',
 [R,'difffuzz/src/lib.rs',L],[('non_strict flag','reader: Reader::new_non_strict and its uses')],['read_nested_non_strict, from_slice_non_strict'])
p('C08','Value ordering is total, agrees with equality, and is canonical byte order',
 'Comparing values is a total order: reflexive, antisymmetric, transitive, defined for every pair, and equal exactly when the values are structurally identical, with equality and partial comparison always agreeing with it. For values whose maps are in canonical order, it is the bytewise lexicographic order of their canonical encodings.',
 ['inputs'],'all pairs and triples of values',
 'Tests check about seventy hand-picked pairs; order laws quantify over all pairs and triples.',
 [VV,W],[('structural comparison','values: Ord for Value'),('derived simple order','values: SimpleValue')],['Value::cmp, PartialOrd, PartialEq'])
p('C09','Typed scalars convert exactly or fail, never wrap',
 'Encoding any integer, boolean, character or string of a supported scalar type yields the CBOR item denoting exactly that value (128-bit integers as minimal big-endian byte strings), and decoding it returns the original. Decoding an item into a scalar type returns exactly the number or text the item denotes when the type can hold it, otherwise an error: integer-size error for out-of-range integers and oversized big integers, type error for anything else; nothing is truncated or wrapped.',
 ['inputs'],'all values of every scalar type, all CBOR values',
 'Tests check a few values per type; boundaries of every width crossed with every source item are not enumerable.',
 [D,E,VV],[('checked conversions','decode: impl_uint / impl_int / u128 / char'),('widening casts','encode: impl_uint / impl_int / u128')],['Encode, Decode for scalars'])
p('C10','Typed containers round-trip',
 'For vectors, fixed arrays, tuples, options, ordered and hash maps and sets, built from element types that round-trip, encoding then decoding a value yields an equal value, with sequence order preserved, all map and set entries kept, and byte vectors and byte arrays carried as byte strings. The only values allowed to come back different are those containing an option whose present content itself encodes as null or undefined.',
 ['inputs'],'all supported container types, by induction on type structure, and all their values',
 'Tests round-trip a few small instances of some containers.',
 [D,E],[('element-wise conversion','encode/decode: Vec, arrays, tuples, Option, maps, sets')],['to_value, from_value, to_vec, from_slice'])
p('C11','Typed decoding refuses shape mismatches with an error, never a panic',
 'Decoding any CBOR value into any supported container or scalar type returns normally. A sequence, map, set or option is accepted exactly when the item has the matching kind and every element decodes; fixed arrays need exactly their length, tuples need at least their arity and report a missing element otherwise; all other items are refused, and the first failing element determines the error.',
 ['inputs'],'all CBOR values crossed with all supported types',
 'Tests never decode short arrays into tuples and try few mismatches.',
 [D,L],[('kind matching','decode: try_from_cbor_value implementations')],['from_value, from_slice'])
p('C12','Null and undefined decode to the type\'s default, exactly where allowed',
 'At top level, as a field value (the inner value of a transparent newtype included) and as an enum payload, null and undefined decode to the type\'s default: zero, false, empty string, empty container, absent option, zeroed byte array, null for dynamic values, a declared type\'s own default; types without a default (fixed non-byte arrays, types opted out) report a missing field. Elements inside containers are not defaulted: there null is a type error unless the element type itself represents null.',
 ['inputs'],'all supported types, null and undefined at every position',
 'Tests cover top-level defaults for a few types.',
 [D,'derive/src/decode.rs'],[('defaulting','decode: try_from_cbor_value_default, try_default')],['from_value, derived field decoding'])
p('C13','Derived codecs round-trip and use the declared keys and shape',
 'For every struct and enum that the derive macros accept, decoding an encoded value gives back the value (skipped fields becoming their default), for all field values that themselves round-trip. The encoding has the declared shape: maps keyed by field name or rename, arrays when requested or for tuple structs, bare inner value when transparent, and enum variants as bare key, discriminant, single-entry map, embedded or internally tagged map.',
 ['inputs','programs'],'all field values; type declarations using any combination of the supported attributes',
 'The derive tests use about thirty types with one or two values each.',
 ['derive/src/encode.rs','derive/src/decode.rs','derive/src/common.rs',M,D,E],[('generated encoder','derive::encode'),('generated decoder','derive::decode')],['derive(Encode), derive(Decode)'])
p('C14','Derived decoding is strict about fields, variants and shape',
 'Derived decoders refuse input that does not match the declaration: wrong kinds, unknown variant names and discriminants, absent fields whose type has no default, and, unless the declaration allows unknown fields, unknown or repeated map keys and surplus array elements. A declaration that allows unknown fields ignores unknown keys wherever they sort, and still decodes every known field; entry order in the input map never matters.',
 ['inputs','programs'],'all CBOR values; type declarations using the supported attributes',
 'Tests try a few unknown-field cases, always with the unknown key last.',
 ['derive/src/decode.rs',M],[('ordered field lookup','macros: destructure_cbor_map_peek_value_strict'),('residual check','derive decode: handle_unknown_fields')],['derive(Decode)'])
p('C15','Optional fields are omitted exactly when empty, and come back',
 'A field marked optional is left out of the encoded map exactly when its value is empty for its type (or its custom predicate says so) and otherwise encoded as usual; a field not marked optional is always present. Emptiness means zero, false, NUL character, empty string or collection, absent option, null or undefined dynamic value, or tuple of empties, so decoding the shortened map restores the omitted value.',
 ['inputs','programs'],'all field values; declarations mixing optional, custom predicates, skip and nesting',
 'Tests check a few optional fields with one empty and one non-empty value.',
 [E,'derive/src/encode.rs',D],[('emptiness','encode: is_empty, into_optional_cbor_value'),('omission','derive encode: optional handling')],['derive(Encode), Encode::into_optional_cbor_value'])
p('C16','Serde values round-trip through CBOR',
 'For every type with derived serde traits built from integers up to 64 bits, unsigned 128-bit integers in non-generic positions, booleans, characters, strings, byte buffers, options, sequences, tuples, maps, structs and all enum variant kinds in the default representation, serializing and deserializing gives an equal value, except for options whose present content itself encodes as null. Scalars, options, sequences and string-keyed maps encode to the same CBOR as the native traits; floating point is refused with an unsupported-type error, and tags are refused with an error, never approximated.',
 ['inputs','programs'],'all values of serde types composed of the supported constructs',
 'Tests round-trip about twenty fixed values.',
 ['src/serde/ser.rs','src/serde/de.rs','src/serde/mod.rs'],[('serializer','serde/ser'),('deserializer','serde/de')],['serde::to_vec, from_slice, to_value, from_value'])
p('C17','Serde integers are exact or refused, and bad input never panics',
 'Deserializing a CBOR integer through serde into any integer type gives exactly that integer or an error, including negative integers below the 64-bit range, which are never wrapped or reported as a different number. Deserializing any CBOR value into any supported serde type returns a value or an error without panicking, and mismatched kinds are refused.',
 ['inputs'],'all CBOR values crossed with all serde target types',
 'Tests use small integers and a few mismatches.',
 ['src/serde/de.rs','src/serde/error.rs'],[('number dispatch','serde/de: deserialize_any'),('error description','serde/error: unexpected')],['serde::from_value, serde::from_slice'])
p('C18','Map field extraction returns each key\'s value and skips the rest',
 'Given a map sorted by key and a list of requested keys in increasing order, the field-extraction helper returns for each requested key its value if present and nothing otherwise, regardless of how many other keys lie between. The strict variant does the same but reports an unknown-field error as soon as an unrequested key precedes the requested one, and neither loses or reorders remaining entries.',
 ['inputs'],'all sorted maps and all increasing key lists',
 'Tests use maps of a few integer and string keys.',
 [VM,M],[('lookup','macros: destructure_cbor_map_peek_value'),('strict lookup','src/macros: destructure_cbor_map_peek_value_strict')],['destructure_cbor_map!'])
p('C19','Value constructors and conversions denote exactly their argument',
 'Every conversion into a dynamic value and every constructor macro builds the item denoting its argument: integers keep value and sign class, strings and bytes keep content, arrays and maps keep the listed elements in order, optional-entry maps keep exactly the present entries, and booleans, null, undefined and tags map to their items. Simple values convert to and from their numeric codes 20 to 23 and no other code is accepted.',
 ['inputs'],'all arguments of the conversion functions; macro invocations in a stated catalogue',
 'Tests instantiate the macros on a few literals.',
 [VV,VM],[('conversions','values: From impls, IntoCborValue'),('constructor macros','value/src/macros.rs')],['Value::from, cbor_*! macros'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))

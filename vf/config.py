"""What each check claims, and what surrounds the proofs."""
COMMON_ASSUMPTIONS = [
    'the functions of std, prost, prost-types, serde and logos behave as documented where a contract is assumed for them',
    'extraction drops attributes, comments and visibility and applies only the listed rewrites; every other token of the function is verified as it stands in /repo',
    'Rust allocation succeeds; termination is proved for functions with a decreases clause or for-loops only',
]
V = 'deductive verification (Verus) of functions extracted from the source'
CLAIMED = {
    'P01': dict(technique=V, note='Both copies of the type table (Value, MapKey and packed lists, encode and length) are proved against one specification of the bytes, for every value of the field\'s type, every kind and cardinality. The contracts of prost::encoding and bytes::BufMut are assumed. The same through the public API, including unknown fields, is checked bounded.'),
    'P02': dict(technique=V, note='The bytes written for every value and message are proved to be the ones the encoding prescribes, decoding a record is proved to do what it prescribes, and that decoding what a message writes yields exactly the fields, extensions and unknown records it shows is a lemma over those contracts, with nested messages as induction hypothesis. Assumes the codecs of prost and that iteration visits every slot once. The same through the public API is checked bounded.'),
    'P03': dict(technique=V, note='Decoding one record of a message is proved, for every kind, cardinality, wire type and input, to combine with what the message holds as the encoding prescribes: the last scalar wins, messages merge, packed and unpacked records append, map entries are put in order with defaults for a missing key or value, oneof siblings are cleared, unknown records are kept. That decoding a concatenation is decoding the parts one after another, and that a packed list reads as an unpacked one, are lemmas over that. Messages nested in a field are the induction hypothesis of the lemmas. The codecs of prost are assumed (merge_loop is proved). Whole messages through the public API are checked bounded.'),
    'P18': dict(technique=V + '; bounded check of whole messages', note='The writer (every function of format.rs that writes a message) is proved to write exactly the tokens of one specification of the text of a message, for every message and every option, and the parser (every function of the grammar) to read them: that a message written with any options is read back as a message which holds exactly what was written, the same values under the same fields and extensions, lists, maps, groups, Any and nested messages included, is the contract of parse_text_format. The descriptors of the message are assumed to find their fields again by name, and its members to be as iteration yields them (P05, P06, P11). Integers, strings and bytes are proved down to the characters of their literals; that other tokens are lexed as they are written (logos), and that core reads back the decimal text of a float exactly, are assumed. An equal payload is encoded for an expanded Any (P01). The same through the public API is checked bounded.'),
    'P21': dict(technique=V + '; bounded check of whole files', note='The conversions from and to the messages of prost-types are proved field by field for all nine declaration types and their options; the nine visits which interpret uninterpreted options are proved to read and write exactly the options of the declaration at their path, against the options message of its kind, from its scope; replacing the options of a declaration is proved to change nothing else; adding and encoding a pool are proved to keep every other part of the files; and options() of every descriptor is proved to be the stored options, decoded against the pool. Assumed: the encoding and decoding that prost derives, derived Clone, that what was just encoded decodes again, and the order of visits (proved in traverse.rs). The value one option gives a field (set_field_value and the option_to_* functions) and the extension its name denotes from its scope (find_extension) are proved; the walk of set_option along a dotted option name is not under contract. Whole files with custom options of every kind, through the public API, are checked bounded.'),
    'P22': dict(technique=V + '; bounded check with threads', note='Every function of global.rs is proved to take the lock exactly once, and in that one critical section to do to the pool what the same operation does to any pool: a read copies it and leaves it as it is, an addition adds exactly the files it was given, keeps everything declared before and, if it fails, restores what was there; every section keeps the well-known types. With the operations ordered by the lock that is linearizability. The public functions that add files are proved down to build_files, which is proved in declare.rs. Assumed: the OnceLock and Mutex of std (mutual exclusion, the guard is held to the end of its scope, no poisoning), that the generated pool of the well-known types is accepted and holds them, that a pool between updates is well-formed, and that decoding and conversion of descriptors by prost depend on their argument alone. Threads on the real global pool are checked bounded.'),
    'P04': dict(technique=V, note='Reading and writing of unknown records of every wire type, groups at any depth included, are proved against one specification of the record format (reading undoes writing is a lemma over it), together with group::merge of prost for this type. The varint, key and payload codecs of prost are assumed. That a message keeps the order of its unknown records when it is decoded is part of the contract of merge_field; the same through the public API is checked bounded.'),
    'P05': dict(technique=V, note='Reading, presence, mutable access, storing, clearing and taking a field are proved against a map of slots, with frames: no other slot changes except members of the same oneof. Iteration is proved per slot. The contract of BTreeMap, and the accessors of DynamicMessage that only forward, are assumed; histories through the public API are checked bounded.'),
    'P06': dict(technique=V, note='Storing and mutable access are proved to clear exactly the other members of the oneof; that this keeps at most one member stored is a lemma over those contracts. Assumes that a descriptor lists as members of a oneof exactly the fields that name it. Histories of merges through the public API are checked bounded.'),
    'P07': dict(technique=V, note='Which values a field accepts, the default of a field, and every operation of DynamicMessage that forwards to it are proved against one recursive specification of validity, for every kind, cardinality and value. Descriptors are opaque. JSON and text input producing only valid values is checked bounded.'),
    'P08': dict(technique=V + '; bounded check of update histories', note='DescriptorPoolOffsets::new and rollback, build_files and build_files_deduped are proved: what a failed update added is removed from every table, from the names and from the lists of extensions kept in messages, and everything else is as before. Assumed: that the build phases only append to the tables, add names and append extensions (proved for the parts of them under contract), Arc::make_mut, HashMap and Vec. Histories of valid and invalid updates through the public API are checked bounded.'),
    'P09': dict(technique=V + '; bounded check of whole descriptor sets', note='Each rule is proved where it is decided, for every descriptor: a name declared twice, fields that clash in proto3, syntax, field, extension and enum numbers against the usable, reserved and extension ranges, duplicate numbers, names and JSON names, oneof indices. Each visit reports an error exactly when its rule is broken. The traversal of visit.rs is proved to visit everything declared exactly once, in a fixed order, with its full name, path and next free index. That the visits, called in that order, find the tables as their contracts require is argued, not mechanised, and so are the checks of options. Whole descriptor sets through the public API are checked bounded.'),
    'P11': dict(technique=V + '; bounded check of lookups', note='The visits that fill the tables of fields, enum values, services and extensions are proved to insert exactly the declared child under its number, name and JSON name, with the declared attributes; the traversal that calls them is proved to visit everything declared once; and the accessors of api.rs are proved to read those tables, so that they find exactly what was declared. Assumed: HashMap, BTreeMap, Vec and slice search of std. The same through the public API is checked bounded.'),
    'P10': dict(technique=V, note='The lookup of a name from a scope, the set of visible files, and the resolution of field types and method types are proved, for every table of definitions and imports, against a specification of scoping; that a simple name denotes the visible definition of the innermost scope, and a dotted name is looked up only in the innermost scope declaring its first part, are lemmas over it. Assumed: string primitives, HashMap and HashSet, the traversal of the files (visit) and the tables built before. The same through the public API is checked bounded.'),
    'P12': dict(technique=V, note='Every visitor method of the four integer types is proved, for every integer, double and text, to return exactly the denoted value or an error. Assumes that core parses integers and doubles correctly and the axioms of IEEE comparison and conversion that are listed; serde_json calling the method that fits the token is assumed. The same through the public API is checked bounded.'),
    'P13': dict(technique=V + '; bounded check of whole messages', note='Writing values of every kind, lists, maps, the members of a message and every well-known type, and every visitor and seed that reads them back, are proved against one specification of the JSON form, for every option. That what is read from the JSON of a message holds exactly its members with the same values is a lemma over those contracts (field_round, message_round, own_round, pv_round, any_round), with nested messages as induction hypothesis. Assumed: serde_json presents the document it was given; a written float is read as a double which rounds to it, except for the known finding; prost-types reads back the text of a Timestamp or Duration in range; a well-known message transcodes to its generated type and back (prost). Whole messages through the public API are checked bounded.'),
    'P14': dict(technique=V, note='Both conversions are proved equal to their specification for every string, and the specifications are proved inverse; the serializer of FieldMask and its visitor are proved to split, convert and join as specified, and that the text of a mask reads back as the mask is a lemma (mask_round). The same through the public API is checked bounded.'),
    'P15': dict(technique=V + '; bounded check of the text round trip', note='Acceptance by range and normal form of Duration and Timestamp, on output and input, is proved for every pair of seconds and nanos and every text. Parsing and printing of the text itself belong to prost-types and are assumed; they are checked bounded.'),
    'P16': dict(technique=V, note='The writer, every escape callback and the reader of string literals are proved for every byte string and every text; the round trip is a lemma over their contracts. Assumes that the lexers generated by logos take the longest match of the patterns in the source, which are compared on every run. The same through the public API is checked bounded.'),
    'P17': dict(technique=V, note='The 32 and 64-bit readers, the token handling and the literal callback are proved for every token stream: the exact value, or an error exactly when it is out of range. Assumes that from_str_radix of core and the lexer generated by logos (patterns compared on every run) are right. The same through the public API is checked bounded.'),
    'P19': dict(technique=V, note='parse_simple_value, parse_field_default_value, the unescaping of bytes defaults, and the visits of fields and extensions that store the default are proved, for every kind and text, to yield exactly the value the text denotes, or an error exactly when it denotes none, without panic. Assumes that the number and bool parsers of core read what they document. Generated texts through the public API are checked bounded.'),
    'P20': dict(technique=V, note='The derivation of JSON names is proved for every field name; resolve_field_json_name and the visit of fields are proved to report the explicit name or the derived one and to file the field under it (number, name and JSON name tables), and writing it back into the declaration at a path is proved to change nothing else. That JSON input and output use the name is checked bounded.'),
}
LEVEL = {p: 'proof' for p in ['P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P10', 'P12', 'P13', 'P14', 'P16', 'P17', 'P18', 'P19', 'P20', 'P22']}
for i in range(1, 25): LEVEL.setdefault(f'P{i:02}', 'other')
NOT_APPLICABLE = {
    'P23': 'Transcoding calls prost-generated encode and decode of arbitrary message types; no contract within reach relates those to each other.',
    'P24': 'Absence of panics over all decoders needs the whole call graph, including logos, serde_json and prost, under contract; only the functions under contract for the other properties are proved free of panics. The text-format parser has no recursion limit, so the property does not hold for the stack as stated.',
}
for i in range(1, 21):
    p = f'P{i:02}'
    if p not in CLAIMED: NOT_APPLICABLE[p] = 'not claimed yet: contracts for its functions are being written'
NOTES = {}
KANI = {}

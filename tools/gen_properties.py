#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

p("C01", "C interface survives hostile input: no memory error, no UB, clean failure",
  "For every sequence of C-interface calls with any ABI text, ABI binary, type name, JSON text, binary or hex data - well-formed, mutated or random, including null and empty ones - each call returns, and either succeeds or returns its failure value leaving a non-empty error message. "
  "No call reads or writes outside the buffers it was given, crashes, overflows the stack, leaks memory, or performs an operation that C++ leaves undefined.",
  ["inputs", "histories"], "all byte strings given as ABI, JSON, binary, hex or type name, in any order of calls on any number of contexts",
  "The tests feed a few dozen hand-written inputs; memory safety is over all byte strings. The test that uses this code is not even built in this environment.",
  ["src/abieos.cpp", "src/abieos.hpp", "src/abi.cpp", "include/eosio/from_json.hpp", "include/eosio/from_bin.hpp", "include/eosio/stream.hpp"],
  [("bounds checks of the input stream", "include/eosio/stream.hpp:input_stream"), ("recursion limits of 128 (data) and 32 (types)", "src/abieos.hpp, src/abi.cpp:get_type"), ("exception barrier", "src/abieos.cpp:handle_exceptions")],
  ["abieos_* functions of include/eosio/abieos.h"])

p("C02", "JSON to binary produces exactly the EOSIO wire encoding of the value",
  "For every valid ABI, every type of it and every value of that type, converting the value's JSON to binary yields exactly the bytes the EOSIO wire format prescribes (little-endian fixed-width scalars, LEB128 counts and tags, presence bytes, fields in declaration order with base fields first). "
  "JSON that does not denote a value of the type is rejected.",
  ["programs", "inputs"], "all ABIs (structs, bases, aliases, variants, arrays, optionals, every built-in type) and all JSON values",
  "Round-trip tests on fixed values cannot see an encoding that is wrong but self-consistent, and reach one hand-written ABI.",
  ["src/abieos.hpp", "src/abi.cpp", "include/eosio/to_bin.hpp", "include/eosio/varint.hpp"],
  [("per-type JSON-to-binary conversion driven by a state machine", "src/abieos.hpp:json_to_bin"), ("scalar encoding", "include/eosio/to_bin.hpp")],
  ["abieos_json_to_bin + abieos_get_bin_data/size/hex"])

p("C03", "Binary to JSON is faithful and lossless",
  "For every valid ABI, type and value, converting the value's wire encoding to JSON yields the JSON form of exactly that value, with members, elements, variant type names and nulls as declared, and converting that JSON back yields the original bytes (times to the millisecond, and any NaN as a NaN). "
  "Formatting a value never fails.",
  ["programs", "inputs"], "all ABIs and all wire encodings of values of their types",
  "Tests compare fixed strings for a few values per built-in; the guarantee is over all values and all shapes.",
  ["src/abieos.hpp", "src/abi.cpp", "include/eosio/to_json.hpp", "include/eosio/from_bin.hpp"],
  [("per-type binary-to-JSON conversion driven by a state machine", "src/abieos.hpp:bin_to_json"), ("scalar formatting", "include/eosio/to_json.hpp")],
  ["abieos_bin_to_json, abieos_hex_to_json"])

p("C04", "Order-preserving and reorderable JSON conversion agree",
  "For every type (whose structs have distinct member names) and every JSON value: whenever the strict conversion accepts a document, the reorderable conversion accepts it and produces identical bytes; and permuting the members of the objects of such a document never changes the reorderable result. "
  "A document missing a required member is rejected by both, and a document whose members are out of order is rejected by the strict conversion.",
  ["inputs", "programs"], "all ABIs, values, and permutations of object members",
  "The tests try a single swap of two fields; agreement is a relation between two independent implementations over all documents.",
  ["src/abieos.hpp", "src/abi.cpp"],
  [("streaming conversion", "src/abieos.hpp:json_to_bin(json_to_bin_state)"), ("conversion from a parsed tree", "src/abieos.hpp:json_to_bin(jvalue_to_bin_state)")],
  ["abieos_json_to_bin, abieos_json_to_bin_reorderable"])

p("C05", "The binary decoder accepts only complete, exact encodings",
  "For every type, the decoder rejects every proper prefix of a value's encoding (unless only trailing extension members are missing), every encoding followed by extra bytes, variant tags past the last alternative, over-long variable-length integers, and element counts or lengths larger than the data that follows. "
  "A rejected decode returns no result.",
  ["inputs", "programs"], "all prefixes, extensions and single-field corruptions of encodings of values of all types",
  "The tests check a couple of truncations by hand; the guarantee is about every cut point of every encoding.",
  ["src/abieos.hpp", "src/abieos.cpp", "include/eosio/from_bin.hpp", "include/eosio/stream.hpp"],
  [("availability check before each read", "include/eosio/stream.hpp:input_stream"), ("end-of-data check", "src/abieos.cpp:abieos_bin_to_json"), ("tag and varint checks", "include/eosio/from_bin.hpp")],
  ["abieos_bin_to_json, abieos_hex_to_json"])

p("C06", "ABI admission: exactly the well-formed ABIs load",
  "An ABI loads if and only if its version is a supported 1.x one, every type name its aliases, structs and variants use resolves (through aliases and the optional, array and extension suffixes) to a built-in or defined type, no type is unnamed or defined twice, bases are structs, suffixes are not stacked in a forbidden way, no alias names an extension, and no alias or base chain is cyclic or excessively deep. "
  "A rejected ABI leaves the context's loaded contracts unchanged.",
  ["programs", "inputs"], "all ABI definitions, with single and combined defects at any position, in any order of definition",
  "The tests list about fifteen malformed ABIs; admission is a predicate over all definitions and their order.",
  ["src/abi.cpp", "src/abieos.cpp", "src/abieos.hpp"],
  [("type lookup with nesting and depth checks", "src/abi.cpp:get_type"), ("resolution of aliases, bases, variants", "src/abi.cpp:resolve"), ("version check", "src/abieos.hpp:check_abi_version")],
  ["abieos_set_abi, abieos_set_abi_bin, abieos_set_abi_hex"])

p("C07", "The JSON, binary and hex forms of an ABI are interchangeable",
  "For every ABI definition, loading it as JSON, as its binary encoding or as hex of that binary gives contexts that behave identically for every type, action, table, JSON value and binary value. "
  "The definition read from JSON has exactly that binary encoding, and one read from binary is written back unchanged. Exporting the types of a loaded ABI and loading them again preserves the meaning of every type, including variant alternative names.",
  ["programs", "inputs"], "all ABI definitions, each compared across three loading paths and re-exported",
  "The tests load a few ABIs each way but compare nothing across them.",
  ["src/abieos.cpp", "src/abi.cpp", "include/eosio/abi.hpp"],
  [("reflected ABI definition types", "include/eosio/abi.hpp"), ("export of a loaded ABI", "src/abi.cpp:convert(abi, abi_def)")],
  ["abieos_set_abi*, eosio::convert, from_json/to_json/from_bin/to_bin of abi_def"])

p("C08", "Binary extensions may only be omitted as a suffix",
  "For a struct whose last members are binary extensions, JSON and binary that omit any number of trailing extension members (and nothing else) are accepted, produce exactly the encoding of the members present, and convert back to exactly those members. "
  "Omitting an extension while giving a later member is rejected, extensions are never optional where other data follows the struct, and optional members are always present as a presence byte. (An extension member whose encoding is empty counts as omitted.)",
  ["programs", "inputs"], "all structs with extension and optional members (also through bases, nesting and variants) and all subsets of members",
  "The tests use two structs with two or three extensions; the rule depends on position, nesting and what follows.",
  ["src/abieos.hpp"],
  [("extension permission passed down to the last member only", "src/abieos.hpp:json_to_bin/bin_to_json of objects"), ("skipped-extension tracking", "src/abieos.hpp")],
  ["abieos_json_to_bin*, abieos_bin_to_json"])

p("C09", "Compiled C++ types and ABI-described types convert identically",
  "For every built-in type and every JSON text or byte string, converting through the compiled C++ type and converting through the type of the same name in an ABI either both fail or produce the same bytes and the same JSON. "
  "An ABI derived from a reflected C++ struct (directly, or exported and loaded again) encodes values of that struct exactly as the compiled serialisation does, and prints and accepts the same.",
  ["inputs", "programs"], "all built-in types, containers and reflected structs with all JSON and binary inputs",
  "The tests compare native and dynamic conversion only for the values they list.",
  ["src/abieos.hpp", "include/eosio/from_json.hpp", "include/eosio/to_json.hpp", "include/eosio/abi.hpp"],
  [("shared scalar conversions", "include/eosio/from_json.hpp, to_bin.hpp"), ("type derivation", "include/eosio/abi.hpp:add_type")],
  ["from_json/to_json/from_bin/to_bin of C++ types vs. the C interface"])

p("C10", "Compiled C++ values round-trip through binary and JSON",
  "For every C++ value built from arithmetic types, strings, vectors, lists, deques, sets, maps, pairs, tuples, arrays, optionals, variants, enums and reflected structs, decoding its binary encoding gives an equal value and consumes exactly the bytes written, and for the types with a JSON form, parsing its compact or indented JSON gives an equal value. "
  "The bytes are those of the EOSIO wire format, and decoding any proper prefix reports an error.",
  ["inputs", "programs"], "all values of a family of nested container and struct types",
  "The tests round-trip fixed values of a few types and do not compile most container overloads.",
  ["include/eosio/to_bin.hpp", "include/eosio/from_bin.hpp", "include/eosio/to_json.hpp", "include/eosio/from_json.hpp", "include/eosio/reflection.hpp"],
  [("container encoders", "include/eosio/to_bin.hpp"), ("container decoders", "include/eosio/from_bin.hpp")],
  ["convert_to_bin, convert_from_bin, convert_to_json, from_json"])

p("C11", "Output streams agree, and bounded streams never overrun",
  "For every value, the size computed without writing equals the number of bytes a growing buffer receives, and a fixed buffer of at least that size receives the same bytes. "
  "A fixed buffer or input that is too small makes the operation report an error, with nothing written or read outside the buffer and the cursor never past its end.",
  ["inputs", "fault_sequences"], "all values and operation sequences, with every buffer size from zero to beyond the needed size",
  "Existing tests never serialise into a short buffer and never compare stream kinds.",
  ["include/eosio/stream.hpp", "include/eosio/to_bin.hpp", "include/eosio/to_json.hpp", "include/eosio/to_key.hpp"],
  [("overrun checks", "include/eosio/stream.hpp:fixed_buf_stream, input_stream"), ("size accounting", "include/eosio/stream.hpp:size_stream")],
  ["fixed_buf_stream, vector_stream, size_stream, input_stream"])

p("C12", "Binary keys sort exactly like the values they encode",
  "For any two values of the same key-able type, comparing their key encodings as unsigned bytes gives the same order as comparing the values, with equal keys only for equal values. "
  "This holds for all integers, booleans, enums, floating-point numbers (total order on non-NaN values), strings, sequences, maps, optionals, pairs, tuples, variants, reflected structs and their nesting.",
  ["inputs", "programs"], "all pairs of values of all nested key types",
  "Order preservation is a relation over all pairs; the one key test uses random values of a few types and is not built here.",
  ["include/eosio/to_key.hpp", "include/eosio/name.hpp", "include/eosio/float.hpp"],
  [("sign and byte-order transformation", "include/eosio/to_key.hpp"), ("zero escaping and terminators", "include/eosio/to_key.hpp")],
  ["convert_to_key"])

p("C13", "Names: text and 64-bit value correspond one to one, in the same order",
  "Every 64-bit value has a text of at most 13 characters from '.', '1'-'5', 'a'-'z' without trailing dots, and parsing that text gives the value back; every normalised name text parses to the value the EOSIO base-32 packing prescribes; names order as their values do. "
  "Strict parsing rejects texts that are too long or have characters outside the alphabet (or an out-of-range 13th character); lenient parsing never reads beyond the text; JSON names that are not normalised map to a fixed 64-bit hash of the text.",
  ["inputs"], "all 2^64 values and all texts",
  "Tests check a dozen names; the correspondence is over all values and strings and includes the partial 13th character.",
  ["include/eosio/name.hpp", "include/eosio/chain_conversions.hpp", "include/eosio/murmur.hpp", "tools/name.cpp"],
  [("base-32 packing", "include/eosio/chain_conversions.hpp:string_to_name, name_to_string"), ("strict parsing", "include/eosio/chain_conversions.hpp:string_to_name_strict"), ("hash fallback", "include/eosio/murmur.hpp")],
  ["string_to_name, string_to_name_strict, name_to_string, name, abieos_string_to_name, abieos_name_to_string, name2num/num2name"])

p("C14", "Asset, symbol and symbol-code text is exact",
  "Every asset, symbol and symbol code prints as the decimal text of its value (precision digits after the point, sign first, up to seven capital letters), and parsing that text gives the value back. "
  "Text whose amount does not fit 64 bits, whose precision does not fit its byte, or whose code is empty, too long or not capital letters is rejected rather than silently altered.",
  ["inputs"], "all amounts, precisions and codes, and all texts",
  "Tests use about fifteen texts; exactness and rejection are over all values, including the extremes of the 64-bit range.",
  ["include/eosio/chain_conversions.hpp", "include/eosio/symbol.hpp", "include/eosio/asset.hpp"],
  [("decimal parsing and printing", "include/eosio/chain_conversions.hpp:string_to_asset, asset_to_string, string_to_symbol, symbol_to_string")],
  ["asset_to_string, string_to_asset, string_to_symbol*, symbol and asset from_json/to_json"])

p("C15", "Asset arithmetic is exact or refused",
  "Adding, subtracting, negating, multiplying, dividing and comparing assets of the same symbol gives the mathematically exact result (division truncates toward zero), and the result is a valid asset whose magnitude is below 2^62. "
  "An operation with different symbols (or contracts), an out-of-range result, or division by zero reports an error and leaves its operands unchanged in value where no result is returned (extended assets of different contracts compare as unequal).",
  ["inputs", "histories"], "all pairs of valid assets and multipliers, and all sequences of operations",
  "No test exercises asset arithmetic at all.",
  ["include/eosio/asset.hpp", "include/eosio/symbol.hpp"],
  [("symbol equality and range checks", "include/eosio/asset.hpp")],
  ["operators of asset and extended_asset"])

p("C16", "Integers are converted exactly, and out-of-range text is rejected",
  "For each integer type from 8 to 128 bits (and the variable-length ones), JSON text denoting a decimal integer in the type's range - as a number or a string - is accepted and gives exactly that value, and prints back as the same digits; integers wider than 32 bits print in quotes. "
  "Any text outside the range or that is not a decimal integer is rejected.",
  ["inputs"], "all decimal texts, with emphasis on the boundaries of every width",
  "Tests try the boundaries of a few widths; the guarantee is over all digit strings.",
  ["include/eosio/from_json.hpp", "include/eosio/to_json.hpp", "include/eosio/varint.hpp"],
  [("checked digit accumulation", "include/eosio/from_json.hpp:from_json_int"), ("digit generation", "include/eosio/to_json.hpp:int_to_decimal")],
  ["abieos_json_to_bin, abieos_bin_to_json on integer types, from_json/to_json of integers"])

p("C17", "Floating-point numbers survive the trip through JSON bit for bit",
  "Every finite 32- or 64-bit floating-point value, subnormals and signed zeros included, prints as a JSON number that parses back to the same bits, and the infinities and NaN print as strings that parse back to infinities and NaN. "
  "Parsing any decimal text gives the correctly rounded value, and text that is not a number or overflows is rejected; 128-bit floats pass through as exact hex.",
  ["inputs"], "all bit patterns of both widths and all decimal texts",
  "Shortest-digit printing fails on rare bit patterns that a handful of test values cannot hit.",
  ["include/eosio/fpconv.c", "include/eosio/powers.h", "include/eosio/to_json.hpp", "include/eosio/from_json.hpp", "include/eosio/float.hpp"],
  [("shortest round-trip printing", "include/eosio/fpconv.c:fpconv_dtoa"), ("parsing with error detection", "include/eosio/from_json.hpp:from_json(float/double)")],
  ["abieos_json_to_bin, abieos_bin_to_json on float32/float64/float128, to_json, fpconv_dtoa"])

p("C18", "Times convert exactly between text and their binary counts",
  "Every time point (to the millisecond), second-resolution time point and block timestamp in the representable range prints as the ISO-8601 text of that UTC instant by the proleptic Gregorian calendar, and parsing that text gives the same instant (block timestamps truncated to half-second slots since 2000). "
  "Text denoting an instant outside the representable range, or that is not a date and time, is rejected rather than wrapped to another instant.",
  ["inputs"], "all instants in range, including month ends, leap years and range limits, and all texts",
  "Tests check ten instants; calendar arithmetic errors show on particular days only.",
  ["include/eosio/time.hpp", "include/eosio/chain_conversions.hpp"],
  [("civil calendar conversion", "include/eosio/chain_conversions.hpp"), ("slot and epoch conversion", "include/eosio/time.hpp")],
  ["time_point, time_point_sec, block_timestamp from_json/to_json and conversions between them"])

p("C19", "Key and signature text is checksummed and lossless",
  "Every public key, private key and signature of every curve type prints as its standard prefixed base-58 text with checksum, and parsing it gives the same key; legacy-format public keys and WIF private keys parse to the same key material. "
  "Changing, dropping or adding any character of such a text, or using another kind's prefix, makes parsing fail.",
  ["inputs"], "all keys and signatures of all kinds, and all single-character corruptions",
  "Tests use one or two keys of each kind and no corruption.",
  ["src/crypto.cpp", "include/eosio/crypto.hpp", "include/eosio/abieos_ripemd160.hpp"],
  [("base-58 and RIPEMD-160 checksum", "src/crypto.cpp:string_to_key, key_to_string")],
  ["public_key_to_string/_from_string, private_key_*, signature_*, and the ABI types"])

p("C20", "Hashes, base-58 and hex follow their definitions",
  "For every byte string, RIPEMD-160 gives the standard digest however the input is split into chunks, the 64-bit name hash gives the same fixed value for the same bytes on every call and build (the function already deployed), and base-58 and hex encode and decode as inverses matching the standard definitions. "
  "Text with a character outside the alphabet, or hex of odd length, is rejected.",
  ["inputs"], "all byte strings, all chunkings, all texts",
  "Tests exercise the digest only inside a few key conversions, with inputs of one length.",
  ["include/eosio/abieos_ripemd160.hpp", "include/eosio/murmur.hpp", "src/crypto.cpp", "include/eosio/from_json.hpp", "include/eosio/to_json.hpp", "include/eosio/bytes.hpp"],
  [("incremental compression", "include/eosio/abieos_ripemd160.hpp"), ("hash rounds and tail", "include/eosio/murmur.hpp"), ("radix conversion", "src/crypto.cpp")],
  ["ripemd160_*, murmur64, to_base58/from_base58, hex conversions"])

p("C21", "JSON output is always valid JSON with the exact text",
  "For every value - including strings holding quotes, backslashes, control characters, NULs, any Unicode or malformed UTF-8 - the JSON produced is valid UTF-8 JSON by an independent parser, denotes exactly the value (malformed bytes are replaced, nothing else is), and the indented form denotes the same document as the compact one. "
  "String input with any legal escape parses to exactly the denoted bytes.",
  ["inputs"], "all byte strings in string positions and all document shapes",
  "Tests check one escaped string; validity is over all byte sequences and nestings.",
  ["include/eosio/to_json.hpp", "include/eosio/from_json.hpp", "include/eosio/stream.hpp"],
  [("escaping and UTF-8 validation", "include/eosio/to_json.hpp:to_json(string_view)"), ("indentation", "include/eosio/stream.hpp:pretty_stream")],
  ["abieos_bin_to_json, to_json, format_json"])

p("C22", "Contexts are isolated and each call reports its own outcome",
  "In every history of calls on several contexts, the outcome of each call depends only on its arguments, the ABIs loaded in its own context, and (for reading results) the last successful JSON-to-binary conversion in that context; failed calls change no loaded ABI, and leave the binary result as it was or empty. "
  "Each returned result stays readable and unchanged until the next call on the same context that converts or formats; action and table type queries answer exactly what the loaded ABI declares, and calls on a null context return their failure value.",
  ["histories"], "all interleaved call histories over several contexts, contracts and ABIs, including failing calls",
  "The tests use one context in a straight line; isolation and staleness only show in mixed histories.",
  ["src/abieos.cpp", "include/eosio/abieos.h"],
  [("per-context result and error storage", "src/abieos.cpp:abieos_context_s"), ("exception barrier", "src/abieos.cpp:handle_exceptions")],
  ["the C interface"],
  [("contracts", "loaded ABI by contract name", "src/abieos.cpp:abieos_context_s"), ("result_bin / result_str / last_error", "last outcome", "src/abieos.cpp:abieos_context_s")])

p("C23", "Independent contexts may be used from different threads",
  "When each thread uses its own contexts (and its own values), every schedule is free of data races and every thread gets the results it would get running alone. "
  "Shared loaded ABIs and constants may be read by several threads at once.",
  ["schedules", "histories"], "all interleavings of threads that each use their own contexts",
  "No test starts a second thread.",
  ["src/abieos.cpp", "src/abi.cpp", "src/abieos.hpp", "include/eosio/check.hpp"],
  [("no mutable state outside a context", "src/abieos.cpp, src/abi.cpp")],
  ["the C interface, conversions of C++ types"])

p("C24", "Fixed-size byte strings and checksums preserve bytes and order",
  "A fixed-size byte string built from bytes or words gives back exactly those bytes or words in the same (big-endian word) layout, compares like its bytes, serialises to exactly its bytes, and prints as their hex; parsing hex of the exact length gives it back and any other length is rejected.",
  ["inputs"], "all byte contents for all supported sizes, including sizes that do not fill the last word",
  "No test covers sizes with padding or order; checksums are tested on one or two values.",
  ["include/eosio/fixed_bytes.hpp"],
  [("word packing with padding", "include/eosio/fixed_bytes.hpp"), ("lexicographic comparison", "include/eosio/fixed_bytes.hpp")],
  ["fixed_bytes, checksum160/256/512"])

p("C25", "Comparison of reflected values is a consistent total order",
  "For every reflected struct and built-in value type with comparison, equality holds exactly when all members are equal, ordering is lexicographic by member in declaration order (base first), and the six relational operators are mutually consistent, transitive and antisymmetric.",
  ["inputs"], "all pairs and triples of values, including ones that differ in only one member",
  "Tests compare almost no values; consistency is a relation over triples.",
  ["include/eosio/operators.hpp", "include/eosio/varint.hpp", "include/eosio/name.hpp", "include/eosio/symbol.hpp", "include/eosio/time.hpp", "include/eosio/asset.hpp"],
  [("member-wise comparison", "include/eosio/operators.hpp")],
  ["==, !=, <, <=, >, >= of reflected types"])

p("C26", "Reflection visits every member once, in order, under its own name",
  "Enumerating a reflected type yields every listed data member exactly once, base members first, in declaration order, with its own name and address (and every listed method likewise); by-name selection finds exactly the listed names. "
  "Values read and written through the enumeration are the object's own members.",
  ["programs", "inputs"], "all reflected types of the library and shapes with bases, methods, many members and private members",
  "The one built test reflects a single two-member type.",
  ["include/eosio/reflection.hpp", "include/eosio/for_each_field.hpp", "include/eosio/map_macro.h", "include/eosio/types.hpp"],
  [("reflection macro", "include/eosio/reflection.hpp"), ("field iteration", "include/eosio/for_each_field.hpp")],
  ["for_each_field, for_each_method, type names, JSON and binary member order"])

p("C27", "State-history protocol messages follow the published layout",
  "Every state-history request, result, delta and trace value encodes in the published wire layout and decodes back to an equal value; embedded opaque payloads keep their bytes and unpack to the value packed in them. "
  "Truncated messages and unknown variant tags are rejected.",
  ["inputs", "programs"], "all values of the protocol's message types and all truncations of their encodings",
  "No test builds or decodes a protocol message.",
  ["include/eosio/ship_protocol.hpp", "include/eosio/opaque.hpp", "include/eosio/chain_types.hpp"],
  [("reflected message structs and variants", "include/eosio/ship_protocol.hpp"), ("length-prefixed payloads", "include/eosio/opaque.hpp")],
  ["to_bin/from_bin/to_json of ship_protocol types"])

p("C28", "Conversion between structs maps members by name",
  "Converting a reflected struct to another copies each destination member from the source member of the same name, converting it recursively, and leaves the destination's other members untouched; a type that names another type as its serialized form (serialize_as) is decoded from that form and then converted. "
  "The source is never changed.",
  ["programs", "inputs"], "struct pairs sharing any subset of members in any order, with nested vectors, optionals and variants",
  "No test calls this conversion on structs.",
  ["include/eosio/convert.hpp", "include/eosio/for_each_field.hpp"],
  [("member matching by name", "include/eosio/convert.hpp")],
  ["eosio::convert"])

p("C29", "Conversions honour the caller's step callback and the nesting limit",
  "During conversion of data through an ABI, the caller's step callback is invoked at least once per array element, struct member or variant value processed, in all three directions, so that an exception it throws at any call stops the conversion and reaches the caller, and a callback that does nothing changes no result. "
  "Data nested more deeply than the fixed limit is rejected with an error, data within it is accepted, and stack use does not grow with data size.",
  ["inputs", "fault_sequences"], "all documents and binary values, with the callback throwing at any step, and nesting depths around and far beyond the limit",
  "The tests check one depth; no test uses the callback.",
  ["src/abieos.hpp", "src/abi.cpp", "include/eosio/abi.hpp"],
  [("callback at each state-machine step", "src/abieos.hpp"), ("stack depth check", "src/abieos.hpp:max_stack_size")],
  ["abi_type::json_to_bin, json_to_bin_reorderable, bin_to_json with a callback"])

p("C30", "Decoding uses memory in proportion to its input",
  "For every type in which each array element occupies at least one byte, decoding n bytes of binary, JSON or hex allocates at most a constant multiple of n (plus a constant), whatever lengths and counts the data claims, both for ABI-described and compiled C++ types.",
  ["inputs", "programs"], "all byte strings, in particular those claiming huge lengths, for all such types",
  "Tests never feed a hostile length, and a test that does would still pass while gigabytes are allocated.",
  ["include/eosio/from_bin.hpp", "include/eosio/stream.hpp", "src/abieos.hpp"],
  [("availability check before allocation", "include/eosio/from_bin.hpp"), ("incremental growth", "include/eosio/from_bin.hpp, src/abieos.hpp")],
  ["peak and total allocation during each call"])

p("C31", "Arithmetic, order and conversion of time values, counters and symbols are exact",
  "For all operands whose mathematical result is representable, adding, subtracting and scaling durations, time points and second-resolution times, converting between them and block timestamps, and incrementing counters gives exactly that result (conversion to a coarser unit drops the fraction), compound assignments change only their left operand, and comparisons follow the values. The slot after the last block slot is refused. A symbol gives back the code and precision it was made of, a code made from text has that text's letters and length, and exactly one to seven capital letters are a valid code.",
  ["inputs"], "all operands within the range of the result; all texts and 64-bit values for symbols and codes",
  "The operators are pure functions of 64-bit values, with edges at every unit boundary, at each type's limits and at overflow; tests compute a handful of sums.",
  ["include/eosio/time.hpp", "include/eosio/varint.hpp", "include/eosio/symbol.hpp"],
  [("time values and block slots", "include/eosio/time.hpp"), ("counters", "include/eosio/varint.hpp"), ("symbols and codes", "include/eosio/symbol.hpp")],
  ["result and operands of every operator, accept/refuse"])

p("C32", "A failed check reports its message, a passed one does nothing",
  "A check on a condition, stated with a string, a view, C text, a given number of characters or a numeric code, has no effect when the condition is true; when it is false it throws an exception derived from std::exception whose text is exactly the message given (up to a NUL; the decimal digits of a code) and stays readable after the caller's message is gone. "
  "Every error the JSON, stream and ABI layers can report has a text of its own kind, never empty and never that of no error.",
  ["inputs"], "all messages, lengths and codes, and every member of the library's error lists",
  "Every refusal in the library goes through these overloads; tests look at few messages and never at most overloads.",
  ["include/eosio/check.hpp", "include/eosio/from_json.hpp", "include/eosio/stream.hpp", "include/eosio/abi.hpp"],
  [("check overloads", "include/eosio/check.hpp"), ("error texts", "include/eosio/from_json.hpp, include/eosio/stream.hpp, include/eosio/abi.hpp")],
  ["eosio::check, exception type and text, convert_*_error"])

p("C33", "The JSON token stream yields a document's tokens exactly",
  "Reading a well-formed JSON document through the token stream yields its tokens in order, with strings and member names unescaped and numbers as written; peeking takes nothing, a request for another kind of token fails or answers no without taking anything, skipping a value takes exactly that value, and the end is reported exactly after the last token. "
  "A document that is cut short, followed by more text or malformed is never read to its end without an error.",
  ["inputs", "histories"], "all JSON documents, all damaged documents and all sequences of requests",
  "All JSON input of the library passes through the stream; tests see it only through a few conversions of well-formed values.",
  ["include/eosio/from_json.hpp"],
  [("token stream over the in-situ parser", "include/eosio/from_json.hpp:json_token_stream, from_json_skip_value")],
  ["json_token_stream requests, eosio::from_json_skip_value"])

p("C34", "The types of a loaded ABI describe its definition and stay usable",
  "After a definition has been loaded, asking for a type by name answers for exactly the names the definition admits (defined, built-in, and these with admissible suffixes) and fails for every other, however often and in whatever order names are asked for. What is answered describes the definition: kind, element type, members with those of the base first, alternatives as written, through aliases. "
  "Types once obtained stay valid and unchanged while others are asked for, after the definition they came from is gone and after the ABI has been moved. Converting from a stream takes exactly one value, so that values that follow one another can be read in turn.",
  ["inputs", "histories"], "all well-formed ABIs, all type names, all sequences of requests, all streams of values",
  "C++ users hold on to types and read several values from one stream; tests ask for a handful of types once and convert one value.",
  ["src/abi.cpp", "include/eosio/abi.hpp", "src/abieos.hpp"],
  [("type resolution", "src/abi.cpp:get_type, resolve, fill"), ("accessors", "include/eosio/abi.hpp:abi_type"), ("one value from a stream", "src/abieos.hpp:bin_to_json")],
  ["eosio::abi::get_type, abi_type::as_struct/as_variant/array_of/optional_of/extension_of, abi_type::bin_to_json/json_to_bin, abi::action_types/table_types"])

p("C35", "Running out of memory is a failed call, not damage",
  "When an allocation fails at any point of a call - once, or from that point on - the call of the C interface reports failure with an error text (or gives its ordinary result), no exception leaves it and the process goes on; a C++ conversion throws. "
  "Nothing leaks, the binary result of an earlier conversion stands while text is asked for, a definition is either loaded or not, and the same call made again undisturbed gives what it would have given without the failure, also into an object that the failed conversion had begun to fill.",
  ["inputs", "crash points"], "all calls, all points of allocation within them",
  "Hosts that bound memory rely on it; tests never see an allocation fail.",
  ["src/abieos.cpp", "src/abi.cpp", "src/abieos.hpp", "src/crypto.cpp", "include/eosio/from_bin.hpp", "include/eosio/from_json.hpp"],
  [("exceptions become failures", "src/abieos.cpp:handle_exceptions, set_error"), ("types made on demand", "src/abi.cpp:get_type"), ("containers filled", "include/eosio/from_bin.hpp:from_bin")],
  ["abieos_* functions, eosio::convert, from_bin, from_json, key text under failing operator new"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")

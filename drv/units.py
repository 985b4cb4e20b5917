"""Verification units (contract and specification files, functions the property is stated on) and the properties they decide."""
UNITS = {
    "encoder": {"contracts": ["encoder.vx"], "specs": ["prelude.rs", "value.rs", "abi.rs", "encoder.rs"], "required": ["encode"], "property": "C01"},
    "decoder": {"contracts": ["decoder.vx"], "specs": ["prelude.rs", "value.rs", "abi.rs", "decoder.rs"], "required": ["decode"], "property": "C04"},
    "decoder_safe": {"contracts": ["decoder_safe.vx"], "specs": ["prelude.rs", "decoder_safe.rs"], "required": ["decode"], "property": "C03", "strict": True,
                     "subst": {"vx_with_capacity": "vx_cap_new", "vx_repeat": "vx_cap_repeat", "vx_reserve": "vx_cap_reserve", "vx_resize": "vx_cap_resize"}},
    "token": {"contracts": ["token.vx"], "specs": ["prelude.rs", "value.rs", "abi.rs", "decoder.rs", "typing.rs"], "property": "C14",
              "required": ["Token::type_check", "Token::types_check", "Token::is_dynamic"]},
    "roundtrip": {"contracts": ["types_only.vx"], "specs": ["prelude.rs", "value.rs", "abi.rs", "decoder.rs", "roundtrip.rs"], "required": [], "property": "C02"},
    "signature": {"contracts": ["signature.vx"], "specs": ["prelude.rs", "text.rs", "names.rs", "sig.rs"], "property": "C06",
                  "required": ["short_signature", "long_signature", "Function::signature", "Event::signature", "Writer::write"]},
    "call": {"contracts": ["call.vx"], "specs": ["prelude.rs", "value.rs", "abi.rs", "decoder.rs", "typing.rs", "text.rs", "names.rs", "sig.rs"], "property": "C05",
             "required": ["Function::encode_input", "Function::decode_output", "Function::decode_input", "Constructor::encode_input"],
             "stubs": [("encoder.vx", ["encode"]), ("decoder.vx", ["decode"]), ("token.vx", ["Token::types_check"]), ("signature.vx", ["short_signature"])]},
    "reader": {"contracts": ["reader.vx"], "specs": ["prelude.rs", "text.rs", "names.rs", "textpos.rs", "reader.rs"], "property": "C08", "required": ["Reader::read"]},
    "names_rt": {"contracts": ["ptype_only.vx"], "specs": ["prelude.rs", "text.rs", "names.rs", "textpos.rs", "reader.rs", "names_rt.rs"], "property": "C07", "required": []},
    "tok_strict": {"contracts": ["tok.vx"], "specs": ["prelude.rs", "value.rs", "text.rs", "names.rs", "textpos.rs", "uint.rs", "tok.rs"], "property": "C09", "required": ["StrictTokenizer::tokenize"], "vars": {"TOK": "StrictTokenizer", "LEN": "false"}},
    "tok_lenient": {"contracts": ["tok.vx"], "specs": ["prelude.rs", "value.rs", "text.rs", "names.rs", "textpos.rs", "uint.rs", "tok.rs"], "property": "C09", "required": ["LenientTokenizer::tokenize"], "vars": {"TOK": "LenientTokenizer", "LEN": "true"}},
    "log": {"contracts": ["log.vx"], "specs": ["prelude.rs", "value.rs", "abi.rs", "decoder.rs", "text.rs", "names.rs", "sig.rs", "sel.rs", "log.rs"], "property": "C11", "required": ["Event::parse_log"],
            "stubs": [("decoder.vx", ["decode"]), ("signature.vx", ["Event::signature"])]},
    "filter": {"contracts": ["filter.vx"], "specs": ["prelude.rs", "value.rs", "abi.rs", "decoder.rs", "typing.rs", "text.rs", "names.rs", "sig.rs", "sel.rs", "filter.rs"], "property": "C12", "required": ["Event::filter"],
               "stubs": [("encoder.vx", ["encode"]), ("token.vx", ["Token::type_check"]), ("signature.vx", ["Event::signature"])]},
    "topics": {"contracts": ["topics.vx"], "specs": ["prelude.rs", "value.rs", "text.rs", "show.rs", "topics.rs"], "property": "C12", "required": ["TopicFilter::serialize", "<Topic<Hash> as Serialize>::serialize"]},
    "contract": {"contracts": ["contract.vx"], "specs": ["prelude.rs", "text.rs", "names.rs", "textpos.rs", "sig.rs", "map.rs", "contract.rs", "contract_out.rs"], "property": "C13",
                 "required": ["Contract::function", "Contract::event", "Contract::functions_by_name", "Contract::events_by_name", "Contract::functions", "Contract::events", "ContractVisitor::visit_seq", "Contract::serialize"]},
    "param": {"contracts": ["param.vx"], "specs": ["prelude.rs", "text.rs", "names.rs", "textpos.rs", "reader.rs", "names_rt.rs", "json.rs", "json_out.rs"], "property": "C15",
              "required": ["set_tuple_components", "ParamVisitor::visit_map", "EventParamVisitor::visit_map", "TupleParamVisitor::visit_map", "Param::serialize", "EventParam::serialize", "TupleParam::serialize", "SerializeableParam::serialize", "SerializeableParamVec::serialize"],
              "stubs": [("reader.vx", ["Reader::read"]), ("signature.vx", ["Writer::write_for_abi"])]},
    "show": {"contracts": ["show.vx"], "specs": ["prelude.rs", "value.rs", "text.rs", "show.rs"], "property": "C16", "required": ["<Token as Display>::fmt"]},
    "cli": {"contracts": ["cli.vx"], "property": "C16",
            "specs": ["prelude.rs", "value.rs", "abi.rs", "decoder.rs", "typing.rs", "text.rs", "names.rs", "textpos.rs", "reader.rs", "sig.rs", "sel.rs", "log.rs", "uint.rs", "tok.rs", "map.rs", "show.rs", "cli.rs"],
            "required": ["load_function", "load_event", "encode_input", "encode_params", "decode_call_output", "decode_params", "decode_log"], "subst": {"vx_anyhow": "vx_cli_error"},
            "stubs": [("reader.vx", ["Reader::read"]), ("tok.vx", ["%TOK%::tokenize"], {"TOK": "StrictTokenizer", "LEN": "false"}), ("tok.vx", ["%TOK%::tokenize"], {"TOK": "LenientTokenizer", "LEN": "true"}),
                      ("encoder.vx", ["encode"]), ("decoder.vx", ["decode"]), ("call.vx", ["Function::encode_input", "Function::decode_output"]),
                      ("signature.vx", ["Function::signature", "Event::signature"]), ("log.vx", ["Event::parse_log"]), ("contract.vx", ["Contract::functions_by_name", "Contract::events_by_name"])]},
}
N = {"quick": (300000, 60), "thorough": (20000000, 500)}
PROPS = {
    "C01": {"units": ["encoder"], "own": ["encoder"], "level": "proof", "cases": N, "search": 120, "assumed": ["std", "enc"]},
    "C02": {"units": ["encoder", "decoder", "roundtrip"], "own": ["roundtrip"], "level": "proof", "cases": N, "search": 120, "assumed": ["std", "enc", "dec", "lossy"]},
    "C03": {"units": ["decoder_safe"], "own": ["decoder_safe"], "level": "proof", "cases": N, "search": 120, "assumed": ["std", "dec", "zero"]},
    "C04": {"units": ["decoder"], "own": ["decoder"], "level": "proof", "cases": N, "search": 120, "assumed": ["std", "dec"]},
    "C05": {"units": ["encoder", "decoder", "token", "signature", "call"], "own": ["call"], "level": "proof", "cases": N, "search": 120, "assumed": ["std", "enc", "dec", "hash"]},
    "C06": {"units": ["signature"], "own": ["signature"], "level": "proof", "cases": N, "search": 120, "assumed": ["std", "text", "hash"]},
    "C07": {"units": ["signature", "reader", "names_rt"], "own": ["names_rt"], "level": "proof", "cases": N, "search": 120, "assumed": ["std", "text", "parse"]},
    "C08": {"units": ["reader"], "own": ["reader"], "level": "proof", "cases": N, "search": 120, "assumed": ["std", "text", "parse"]},
    "C09": {"units": ["tok_strict", "tok_lenient"], "own": ["tok_strict", "tok_lenient"], "fns": ["tokenize", "tokenize_array", "tokenize_struct", "tokenize_fixed_array"], "sibling": "C10",
            "level": "proof", "cases": N, "search": 120, "assumed": ["std", "text", "hex", "u256"]},
    "C10": {"units": ["tok_strict", "tok_lenient"], "own": ["tok_strict", "tok_lenient"], "fns": ["tokenize_address", "tokenize_string", "tokenize_bool", "tokenize_bytes", "tokenize_fixed_bytes", "tokenize_uint", "tokenize_int"], "sibling": "C09",
            "level": "proof", "cases": N, "search": 120, "assumed": ["std", "text", "hex", "u256"]},
    "C11": {"units": ["decoder", "signature", "log"], "own": ["log"], "level": "proof", "cases": N, "search": 120, "assumed": ["std", "dec", "text", "hash", "bytes32"]},
    "C12": {"units": ["encoder", "token", "signature", "filter", "topics"], "own": ["filter", "topics"], "level": "proof", "cases": N, "search": 120, "assumed": ["std", "enc", "text", "hash", "bytes32", "topics"]},
    "C13": {"units": ["contract"], "own": ["contract"], "level": "proof", "cases": {"quick": (30000, 60), "thorough": (2000000, 500)}, "search": 120, "assumed": ["std", "text", "map", "serde"]},
    "C14": {"units": ["token"], "own": ["token"], "level": "proof", "cases": N, "search": 120, "assumed": ["std"]},
    "C16": {"units": ["encoder", "decoder", "token", "signature", "call", "reader", "tok_strict", "tok_lenient", "log", "contract", "show", "cli"], "own": ["show", "cli"], "level": "proof", "cli": True,
            "cases": {"quick": (2500, 60), "thorough": (200000, 500)}, "search": 120, "assumed": ["std", "enc", "dec", "text", "parse", "hex", "u256", "hash", "bytes32", "map", "cli"]},
    "C15": {"units": ["reader", "signature", "param"], "own": ["param"], "level": "proof", "cases": {"quick": (60000, 60), "thorough": (5000000, 500)}, "search": 120, "assumed": ["std", "text", "parse", "json"]},
}
ASSUMED = {
    "std": ["contracts of Vec, slice, Option, Result, iterator and String functions in spec/prelude.rs and vstd are assumed", "the derived PartialEq and Clone of Token and ParamType are structural", "allocation never fails", "nesting depth does not exhaust the stack"],
    "enc": ["the encoding is shorter than 2^32 bytes and arrays have fewer than 2^32 elements (precondition)", "Uint::to_big_endian / Into<[u8; 32]> yield the 32 big-endian bytes (ethereum-types)"],
    "dec": ["a byte slice is at most isize::MAX bytes long (guaranteed by Rust)", "H160::from / U256::from([u8; 32]) keep the bytes in big-endian order (ethereum-types)", "String::from_utf8_lossy is a function of the bytes"],
    "lossy": ["String::from_utf8_lossy returns the text itself for the UTF-8 bytes of a text"],
    "text": ["contracts of str, String, char and format! functions in spec/text.rs are assumed (UTF-8 byte positions of characters, slicing at character boundaries, join, decimal text of numbers)"],
    "hash": ["Keccak-256 (tiny-keccak, sha3) is an uninterpreted function of the hashed bytes with 32 bytes of output"],
    "parse": ["usize::from_str accepts an optional + and at least one ASCII digit with a value of at most usize::MAX"],
    "hex": ["hex::decode accepts exactly the texts of an even number of hexadecimal digits and gives their bytes"],
    "u256": ["U256 arithmetic, comparison and from_dec_str (ethereum-types, uint) are those of the numbers below 2^256, with a panic on overflow (precondition)"],
    "bytes32": ["bytes<M> has M <= 32: what a wider type gives as a topic is outside the claim"],
    "map": ["HashMap get, entry, insert and values are those of a map from texts (spec/map.rs); values() visits every key once, in an arbitrary order"],
    "serde": ["serde and serde_json hand the entries of the JSON list to visit_seq in order, one next_element each, and the derived Deserialize of Operation, Function, Event and Constructor (with util::sanitize_name for the names) is an uninterpreted function of the entry", "the derived Default of Contract is empty", "an entry written through a derived Serialize is read back by the derived Deserialize of Operation as the variant with the same serde name and the same content (the parameters in it: C15)", "writing to memory does not fail"],
    "json": ["serde and serde_json hand the fields of an object to visit_map in order, call visit_str for a type and visit_map for every component, and call the serialize functions of the parts of what is written; their own Deserialize and Serialize of String, bool, Vec and IgnoredAny are as in spec/json.rs and spec/json_out.rs", "writing to memory does not fail", "the deserialize functions that only name the visitor are not under contract"],
    "cli": ["structopt turns the command line into the value of Opt that its attributes describe (pairs of a type and a value for encode params)", "File::open and Contract::load give what the file at the path holds, with no empty list of overloads (proved for the visitor in C13)",
            "H256::from_str is a function of the text; hex::encode, {:x} of U256 and H160 and itertools' tuples are as documented (spec/show.rs, spec/cli.rs); str::replace of a space is a function of the text", "the recursion of Token's Display through format! ends, and formatting does not fail", "values beyond the inputs of the function are dropped by the tool: outside the claim", "main prints what execute returns"],
    "topics": ["serde and serde_json write a serde_json::Value, a list, a text and null as such; {:x} of H256 gives its 64 digits", "indexing a topic beyond its values panics, as indexing does (precondition)"],
    "zero": ["array elements take room: types with zero-size array elements are outside the memory claim"],
}
NOTES = {
    "C01": "encode and every function below it proved equal to the layout of the ABI specification, for all value lists whose encoding is below 2^32 bytes",
    "C02": "theorem over the proved contracts of encode and decode: decoding an encoding returns the values, for all valid types",
    "C03": "decode and every function below it proved free of panics, overflow and out-of-range access, terminating, reserving no room on the word of a length",
    "C04": "decode and every function below it proved equal to the reading of the ABI layout, errors included, for all types and bytes",
    "C05": "encode_input, decode_input and decode_output of Function and encode_input of Constructor proved against the contracts of encode, decode, types_check and short_signature, which are proved in their own units",
    "C06": "short_signature, long_signature, Function::signature, Event::signature and Writer proved equal to the hash of the canonical text, for all names and types",
    "C07": "theorem over the proved contracts of Writer::write and Reader::read: reading the written name returns the type, for all types",
    "C08": "Reader::read proved equal to the grammar of type names, errors included, free of panics and terminating, for all texts",
    "C09": "tokenize, tokenize_array, tokenize_struct and tokenize_fixed_array of both tokenizers (the trait's default methods instantiated for each) proved equal to the splitting at top-level commas, for all types and texts; theorems: a returned value is of the requested type, a list that is read is balanced",
    "C10": "the scalar functions of both tokenizers proved equal to the hexadecimal, decimal and two's complement reading, for all texts",
    "C11": "Event::parse_log (with indexed_params and convert_topic_param_type inlined) proved against the contracts of decode and Event::signature, which are proved in their own units, for all events, topics and data",
    "C12": "Event::filter and its nested encode_in_place, convert_token and convert_topic proved against the contracts of encode, type_check and Event::signature, for all events and raw filters; the Serialize functions of TopicFilter and Topic<Hash>, Topic::map, is_any, index and the From conversions proved for all topics",
    "C13": "ContractVisitor::visit_seq, the look-ups, the iterators, the cutting of names and Contract::serialize proved for all lists of entries; theorems: iterating yields each entry exactly once, and what is written is read as the same contract",
    "C14": "type_check, types_check, is_dynamic and the into_ functions proved equal to the typing relation for all values and types",
    "C16": "load_function, load_event, parse_tokens, encode_input, encode_params, decode_call_output, decode_params, decode_log, hash_signature and execute of the command line and the Display of Token proved against the contracts of the library functions they call, which are proved in their own units, for all files, names and values",
    "C15": "visit_map of ParamVisitor, EventParamVisitor and TupleParamVisitor, ParamTypeVisitor, set_tuple_components, inner_tuple(_mut) and the serialize functions proved for all objects and parameters: what is read is what the fields describe, and what is written is read back as the same parameter",
}
_todo = "contracts under construction"
NA = {"C%02d" % i: _todo for i in range(1, 18)}
NA["C17"] = "the property quantifies over programs generated by a procedural macro (token streams); a deductive verifier for Rust functions cannot state contracts about the meaning of generated text"
for _p in PROPS:
    NA.pop(_p, None)

D = {}
D["C01"] = """E1 `c_write`: `bin_write_integer` (generic over Into<i64>) appends exactly `enc_int(v)`, a spec function written from the bin_prot documentation (0..127 one byte;
ff/fe/fd/fc with 1/2/4/8 little-endian bytes), returns its length, leaves earlier bytes alone. `c_ser`: `serialize_i8 … serialize_u64` go through it; lemma `lemma_u64_as_i64`.
E3: all 16-bit values, +-3 around every power of two, random 64-bit values through `to_writer` against an independent encoder."""
D["C02"] = """E1 `c_read`: `bin_read_integer::<T>` returns exactly `dec_int` of the stream for every byte string (value, bytes consumed, or the class of error), for any T given FromPrimitive's contract;
lemma `int_roundtrip`: dec_int(enc_int(v) + rest) = (v, rest) for all i64. `c_de`: `deserialize_i8 … u64`, `lemma_i64_as_u64`. E3: all 1- and 2-byte payloads of every lead byte times every target type."""
D["C03"] = """E1: `bin_write_nat0` = `enc_nat0`, `bin_read_nat0` = `dec_nat0`, lemma `nat0_roundtrip` for all u64; `serialize_seq/str` and `deserialize_seq` prefix exactly that. E3: boundary sizes and all short inputs."""
D["C04"] = """E1: each `bin_write_*`/`bin_read_*` scalar and each `(de)serialize_*` entry point against its byte-level specification (one byte forms, option tag, float = to_bits little-endian). The bit
conversion itself is uninterpreted; E3 checks NaN payloads, signed zeros and random bit patterns on the compiled crate and all 256 tag bytes."""
D["C05"] = """E1: `bin_read_bytes` returns exactly the announced bytes or an error, `bin_read_string` the UTF-8 decoding of them (std decoder uninterpreted: equal bytes give equal strings, error iff invalid), `serialize_str/bytes`; lemma
`bytes_roundtrip`. E3: real UTF-8, truncations, invalid sequences."""
D["C06"] = """E1 `c_ser`/`c_de`: every method of `Serializer` and of the six compound serializers appends exactly its prefix plus what the parts append, for *every* Serialize implementation (the trait's spec function `emits()` is abstract); every
method of `Deserializer`, `SeqAccess`, `Enum`, `PolyvarEnum` hands the visitor exactly the stream after its tag and passes the visitor's result on. Variant numbers above 255 are errors. Derive-generated code is assumed to call these in field order; E3 runs
derived types and random dynamic type trees against an independent encoder."""
D["C07"] = """E1: the safety obligations (overflow, index, callee preconditions, `vx_panic` unreachable, termination of every loop and recursion) of all functions in `c_read`, `c_de` and (under any layout, unsupported rules included) the loose decoder, `c_value`; SeqAccess promises no size for announced lengths. E3 (bounded): random and mutated bytes
into many types and layouts with a counting allocator, checks peak memory against input length."""
D["C08"] = """E1: the codec contracts are proved over a model of `Write` whose `write()` may accept any prefix and whose every call may fail, and of `Read` that may fail anywhere; Ok implies that all bytes went out. E3: sinks/sources that short-write, short-read, interrupt or fail at every position."""
D["C09"] = """E1: `from_reader_strict` returns Ok(v) iff decoding succeeds with v and the source is at its end (BufReader's `fill_buf` contract: empty means end of input; Interrupted retried; any error surfaces). E3: trailing lengths around 8 KiB, interrupted and failing readers."""
D["C10"] = """E1 `c_hash`: the loop of `caml_hash_variant` equals the 223-ary evaluation mod 2^31 (then sign-extended) on the labels whose computation stays in u32; tag write/read are inverse (`tag_roundtrip`); `write_variant_index_or_tag` picks tag or one-byte index by the
enum's name; `PolyvarEnum::variant_seed` finds the first label with the tag whatever stands before it and names the unknown tag. E3: known OCaml hashes, random labels, enums with non-ASCII labels. Known finding: section 5."""
D["C11"] = """E1 `c_value`: the traversal (`BinProtRuleIterator::next/push/push_n`, `into_iter`) against a stack semantics (`visit`, `popped`), `deserialize_loose` and `deserialize_any` for **every** serde visitor (`loose`: what the visitor is told, in
which order, with which bytes and which rest of the layout), the loose SeqAccess/MapAccess/VariantAccess/EnumAccess, `ValueVisitor` (all methods a layout can reach), `Value::deserialize`, `with_layout`; lemma `visit_is_ld`/`loose_is_vdec`: all of that together equals the structural
definition `ld(rule, path, bytes)`, so `decode_with_layout` gives exactly the value the layout assigns to the bytes, and an error exactly when there is none (truncated, malformed, or a rule that is not supported). No layout is excluded. `c_valser`: `Value::serialize` (and `nat0::serialize`) writes `e(value)`, over the
contracts of every Serializer method; lemma `lossless`: for every rule and every value conforming to it, `ld(rule, path, e(value) + rest)` is that value with `rest` left. All layouts, values, nestings and lengths; no bound. Recursion through Value is by contract (partial correctness, `vx_tie_*`
prove the assumed contracts). Assumed: derived Clone copies, the variant description EnumData survives its own to_writer/from_reader, serde's definitions of next_element/next_entry/variant and of Vec/i64/f64 Serialize, f64 bits invert. Only E3: agreement with typed decoding (random layouts and values written by an independent encoder, decoded both ways and re-encoded)."""
D["C12"] = """E1 `c_layout`: `TryFrom<ListTaggedEnum>` for BinProtRule, Polyvar and RuleRef against tables `plain`/`unary`/`binary` (the documented tags by number of arguments): Ok exactly for a known tag whose arguments parse, and then that rule with those arguments, for every tag text and every argument. Assumed: serde_json::from_value is a function of the sub-value; the derived Deserialize of the records and of ListTaggedEnum (E3). E3: random rule trees printed by an independent JSON writer, parsed by the real code and compared; mutated texts must be rejected or agree."""
D["C13"] = """E1 `c_versioned`: every function and impl of versioned/src/lib.rs for all types and all version numbers: `new`, `default`, `from` at depth 1-4 equal w1..w4 (the declared versions, outermost last), `(T,)::from` gives the content; the macros of macros.rs are expanded by vx for types whose conversions are uninterpreted functions, so the result must be the composition. The serde derive on `Versioned` is E3 only: encode/decode at depth 3 with eight version quadruples, every truncation."""
D["C14"] = """E1 `c_autofrom`: rustc expands the derive on eleven fixture types (`concrete/vr/src/afx.rs`: named, unnamed, enum; every field kind: plain, same type, Vec, Option, Box, their std:: paths, tuple, array, nested, String; shuffled target declarations; two targets) on every run, and Verus proves each of the generated `from` bodies (10 per type and target) equal to the intended conversion for every value. `c_vecmap` proves the iterator chain the derive uses for vectors. Bounded over types: the generator itself (syn/quote code that builds token streams) is out of the verifier's reach. E3 `vr`: 73 generated types."""
D["C15"] = """E1 `c_index`: the four `Index::index_into` impls, `ops::Index::index` and `Value::inner` return exactly the addressed component (spec: a direct walk). E3: random values and keys."""
D["C16"] = """E1 `c_merkle`: representation invariant `inv` (every cached inner hash that is present equals the recursive definition `th` over the current leaves; leaf metadata matches the current height) established by `new`/`default`, preserved by `add`, `add_batch`,
`clear_dirty_hashes`, `calculate_hash_if_needed`, `root`, `get_proof`; `root()` returns `th` (or `raise` for fixed heights) for every hasher and merger (uninterpreted functions of node metadata). Lemmas th_frame, full/anc: caches outside the
changed paths stay valid. Histories are covered by the invariant: every operation, from every reachable state. E3 `mk`: random histories with order-sensitive hashes and the shipped Poseidon mergers over a stand-in sponge."""
D["C17"] = """E1: `DefaultMerkleProof::root_hash` = fold over the true siblings, None exactly when malformed; `verify` compares it; `get_proof` returns the sibling path; lemma `proof_verifies` (completeness) and `proof_is_sound` (with an injective merger an accepted proof pins leaf and index). E3: every single and many double mutations of proofs."""
D["C18"] = """E1: `depth`, `height`, `MerkleTreeNodeMetadata::new`, `calculate_height`, `calculate_node_count`, `calculate_parent_index` against the recursive definitions (lvl, p2), uniqueness of the height (`height_unique`). E3: around every power of two."""
D["C19"] = """E1: `MerklePath::to_proof` for every path (index, sibling order and indices, errors), `has_left_child`; lemmas prow/path tie it to `root_hash`. E3: random paths and the JSON form."""
D["C20"] = """E1 `c_chain`: `push` (iff next height, otherwise unchanged, no overflow at the maximum) and every accessor, both for the trait `ProtocolStateHeader` in general and its two implementations. E3 `cn`."""
D["C21"] = """E1: `select_secure_chain` loop invariant over the candidates (result is the current chain or a candidate seen so far, and the fold of the preference), `select_longer_chain` = lexicographic (length, VRF digest, state hash), `is_short_range` = the documented predicate; lemma preference_is_strict. Order of digests and field elements uninterpreted. E3 `cn`: random chains against an independent implementation of the rules."""
D["C22"] = """E1: `relative_min_window_density` equals the recursive specification (clear sub-windows one by one, cap, sum, min) for every input, no overflow. E3 `cn`: random and extreme slots."""
D["C24"] = """E1 `c_roinput`: the view of a `ChunkedROInput` is (fields, packed with widths). Each append equals the model's append for every argument, `into_fields` equals a recursive packing specification (loop invariant: what is packed plus the packing of the rest is the whole), the shift never leaves the field, `fields_inj` proves that the packing loses nothing. E3 `bs`: random chunks with widths at the block edges against big-integer packing written separately."""
D["C23"] = """E1 `c_roi_state`: for every type below the protocol state, `to_roinput` and `to_chunked_roinput` equal a layout specification (a chain of fields, numbers with widths, bits) for every value, loops by invariants over the lists; `state_hash_fp`/`state_hash` equal the (uninterpreted) sponge of that input under the right kind and domain, as 32 bytes; lemmas `body_input_inj`, `state_input_inj`, `rinj_*` recover every part from the input. Assumed: ROInput appends, sponge is a function of (kind, domain, input), SHA-256 likewise, field bytes. Sound but not covered: hash bytes not below the order (the code panics). E3 `bs`: random states against layouts written separately, exact fields and packed elements, sponge stand-in that mixes everything."""
D["C25"] = """E1 `c_roi_acct`: as C23 for Account, Permissions, AuthRequired, Timing, TokenPermissions, TokenSymbol, the zkApp defaults and the optional-key wrappers; lemma `account_input_inj`. The proof found AuthRequired::Both hashed as Proof (fixed). E3 `bs`."""
D["C26"] = """E1 `c_roi_cmd`: SignedCommandPayload::to_roinput and domain_string for every payload; lemmas `command_input_inj`, `domains_differ`. E3 `bs`: random payloads against a separate layout."""
D["C27"] = """E1 `c_json`: the ten from_graphql_json implementations and the four that impl_from_json_value_for_hash! writes, each against a specification naming the key of every field (`good`: when the document is accepted; `is`: what it holds). serde_json::Value, str::parse, base58 hashes and addresses are stand-ins with abstract contracts. E3 `bs`: documents with a different random value under every key, members in random order, then one member missing, of another kind or malformed. Found: incrementNonce was read from editState (fixed)."""
D["C28"] = """E1 `c_text`: Amount::from_str and Display, DecimalJson, U32Json, U64Json, CharJson, the base58 types (both generic ones, memo, signature, VRF output), FieldElementJson's hex and the memo constructors and readers, each against a specification of the text as a sequence of characters (`amount_of`, `full`, `short`, `held`, `bare`, `memo_of`), then lemmas: every amount text written denotes the amount (`amount_round_trip`), a base58 text reads under its own version byte and no other (`hash_reads`, `kinds_differ`), hex and memos read back (`hex_reads`, `memo_reads`). str::parse, splitting and trimming, base58, hex and bin-prot are stand-ins with contracts. E3 `bs`: six groups (amounts, hashes, hex, memos, characters, tagged enums) with boundary values, malformed texts and texts of other kinds against a second reader. Found and fixed: panics on short hex and short memos, amounts that overflowed or took longer fractions, characters above 255, empty arrays. Open: ByteVecJson writes a JSON string that is no UTF-8 (finding, probe case `bytevec`)."""
# what catches which seeded change (filled in from the runs)
SEEN = {}

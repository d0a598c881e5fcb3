BP = "protocol/bin-prot/src/"
P = [
 dict(id="C01", title="Every integer is written in its one canonical bin_prot encoding",
  statement="Serialising an integer of any supported width writes exactly the canonical bin_prot encoding of its value: one byte for 0..127, otherwise the code byte of the shortest signed form that holds it (ff, fe, fd, fc) followed by that many little-endian bytes. The reported length equals the number of bytes appended, nothing already written is disturbed, and u64 values are written as the i64 with the same bits.",
  over=["inputs"], all="every value of i8, i16, i32, i64, u16, u32, u64, whatever was written before",
  why="The tests compare a few dozen byte strings; the class boundaries over 2^64 values are not enumerable by tests.",
  files=[BP + "write_ext.rs", BP + "ser.rs", BP + "consts.rs"], mech=[("bin_write_integer", BP + "write_ext.rs"), ("serialize_i8..u64", BP + "ser.rs")], observe=["to_writer", "WriteBinProtExt"],
  note="bin_write_integer and the eight serde entry points are proved equal to the spec function enc_int for every input (unbounded); byteorder/std::io::Write contracts are assumed. E3 repeats it on the compiled crate, exhaustively on all 16-bit values and around all boundaries."),
 dict(id="C02", title="Integer decoding inverts encoding and rejects what does not fit",
  statement="For every value v of every integer type, decoding the encoding of v followed by anything yields v and leaves exactly what followed. Decoding accepts any width class, returns the value the bytes denote when the target type can hold it and reports an overflow otherwise (u64 takes the bits of the 64-bit form), and a lead byte that is no integer code is an error; nothing is ever truncated or sign-confused silently.",
  over=["inputs"], all="every byte string and every integer target type",
  why="Needs all lead bytes times all payloads times all target types; the tests use listed vectors of valid encodings.",
  files=[BP + "read_ext.rs", BP + "de.rs"], mech=[("bin_read_integer", BP + "read_ext.rs"), ("deserialize_i8..u64", BP + "de.rs")], observe=["from_reader", "ReadBinProtExt"],
  note="bin_read_integer is proved to compute dec_int for every byte string, and int_roundtrip proves dec_int inverts enc_int on all of i64; num_traits::FromPrimitive and byteorder are assumed exact. E3 covers all one- and two-byte payloads on the compiled crate."),
 dict(id="C03", title="Sizes (Nat0) are encoded canonically and decoded exactly",
  statement="A length is written as the canonical Nat0 encoding: one byte below 128, then fe, fd or fc with 2, 4 or 8 little-endian bytes for the smallest class that holds it unsigned. Decoding it yields the same number for every value up to 2^64-1, reports an overflow when the target cannot hold it, and rejects every byte that is not a Nat0 code, ff included.",
  over=["inputs"], all="every length up to 2^64-1 and every byte string",
  why="Boundaries at 2^16 and 2^32 elements cannot be reached by building collections in tests.",
  files=[BP + "write_ext.rs", BP + "read_ext.rs"], mech=[("bin_write_nat0", BP + "write_ext.rs"), ("bin_read_nat0", BP + "read_ext.rs")], observe=["to_writer", "from_reader"],
  note="Both directions are proved against enc_nat0/dec_nat0 for all u64 and the inverse lemma nat0_roundtrip closes the loop; dependencies' contracts assumed."),
 dict(id="C04", title="Unit, bool, char, byte, float and option have one exact byte form",
  statement="Unit is one zero byte; bool, char and u8 are one byte; floats are their IEEE bits little-endian, NaN payloads and signed zeros included; None is 0 and Some is 1 followed by the content. Decoding returns exactly the value written, any other tag byte is an error, and a char that does not fit one byte is an error and writes nothing.",
  over=["inputs"], all="every value of these types and every byte",
  why="The tests sample a few values and one or two bad bytes.",
  files=[BP + "write_ext.rs", BP + "read_ext.rs", BP + "ser.rs", BP + "de.rs"], mech=[("bin_write_bool/unit/char/float32/float64", BP + "write_ext.rs"), ("deserialize_bool/char/option/f32/f64", BP + "de.rs")], observe=["to_writer", "from_reader"],
  note="Every entry point is proved against its byte-level spec for all inputs; f32/f64 bit conversion (to_bits) is an uninterpreted function shared by both sides, its bit-exactness is checked by E3 on the compiled crate."),
 dict(id="C05", title="Strings are length-prefixed bytes and never silently altered",
  statement="A string is written as the Nat0 length in bytes followed by its UTF-8 bytes and decodes to the identical string leaving exactly what followed. Decoding fails when fewer bytes remain than announced or the bytes are not UTF-8; it never truncates, pads or substitutes.",
  over=["inputs"], all="every string and every byte string offered as an encoded string",
  why="Multi-byte characters, length classes and invalid sequences form an unbounded space.",
  files=[BP + "read_ext.rs", BP + "ser.rs", BP + "de.rs"], mech=[("bin_read_string, bin_read_bytes", BP + "read_ext.rs"), ("serialize_str", BP + "ser.rs")], observe=["to_writer", "from_reader"],
  note="Proved for every byte string relative to std's UTF-8 decoder (uninterpreted); E3 checks with the real one."),
 dict(id="C06", title="Composite values: the encoding is the concatenation and round-trips",
  statement="For every type built from scalars, options, sequences, tuples, structs, newtypes and enums, the encoding is the in-order concatenation of the parts (sequences prefixed by their Nat0 count, enum values by their variant byte) and decoding it returns an equal value and consumes exactly those bytes. A variant number above 255 is an error, never a wrapped byte.",
  over=["inputs", "programs"], all="every type of this grammar and every value of it, at any nesting depth",
  why="Tests cover a handful of concrete types; the composition law is over all types.",
  files=[BP + "ser.rs", BP + "de.rs"], mech=[("ser::Serializer impl and the six compound impls", BP + "ser.rs"), ("de::Deserializer impl, SeqAccess, Enum", BP + "de.rs")], observe=["to_writer", "from_reader"],
  note="Each serde entry point is proved to append exactly tag/count plus the parts' encodings, and each decoder entry point to hand the visitor exactly the bytes after its tag, for every Serialize/Visitor implementation (parametric); the round trip over the whole type grammar is a lemma over these contracts. serde's generated code is assumed to call them in field order; E3 runs random dynamic types and derived ones."),
 dict(id="C07", title="Hostile bytes never panic, hang or over-allocate",
  statement="Decoding any byte string into any supported type, or along any layout, ends with a value or an error: no panic, no arithmetic overflow, no endless loop, and memory proportional to the bytes actually supplied rather than to a length the input merely announces.",
  over=["inputs"], all="every byte string, every type whose elements occupy at least one byte, and every layout (rules that cannot be decoded included)",
  why="The property is about adversarial inputs; tests feed valid ones.",
  files=[BP + "read_ext.rs", BP + "de.rs", BP + "loose_deserializer.rs", BP + "value/mod.rs"], mech=[("bin_read_bytes reads through take(len)", BP + "read_ext.rs"), ("SeqAccess::size_hint promises nothing for untrusted lengths", BP + "de.rs")], observe=["from_reader", "Deserializer::with_layout"],
  note="Overflow, bounds, unwrap and termination obligations of every extracted decoding function are discharged for all inputs, and each sequence is handed out without a size promise; memory use itself is measured by E3 with a counting allocator (bounded)."),
 dict(id="C08", title="Success means complete: short writes, split reads and I/O errors",
  statement="Whatever a sink or source does (accept or deliver fewer bytes than asked, be interrupted, or fail), encoding returns Ok only if every byte was delivered in order and decoding behaves exactly as if the bytes had arrived in one piece. A permanent I/O error surfaces as an error and is never taken for data or for end of input.",
  over=["inputs", "fault_sequences"], all="every sequence of short writes, short reads, interruptions and errors",
  why="All tests use Vec and slices, which never short-write or fail.",
  files=[BP + "write_ext.rs", BP + "read_ext.rs", BP + "ser.rs", BP + "de.rs"], mech=[("write_all / read_exact on every path", BP + "write_ext.rs"), ("from_reader_strict's end test", BP + "de.rs")], observe=["to_writer", "from_reader", "from_reader_strict"],
  note="The Verus model of Write lets write() accept any prefix and any call fail; the Read model may fail at any point; all codec contracts are proved over those models. E3 enumerates short writes/reads, Interrupted and errors on the compiled crate."),
 dict(id="C09", title="Strict decoding accepts exactly the fully consumed encodings",
  statement="Strict decoding returns a value if and only if the input is a complete encoding of it with nothing behind it: one or more trailing bytes always give the not-fully-consumed error, and a failing or interrupted source never passes for the end of input. Non-strict decoding returns the same value and ignores what follows.",
  over=["inputs", "fault_sequences"], all="every input, trailing data of any length and every reader behaviour",
  why="Buffer boundaries (8 KiB), trailing lengths and failing readers are unbounded; one test has one trailing byte.",
  files=[BP + "de.rs"], mech=[("from_reader_strict", BP + "de.rs")], observe=["from_reader_strict"],
  note="from_reader_strict is proved for every reader and every Deserialize implementation (iff); std::io::BufReader's contract is assumed."),
 dict(id="C10", title="Polymorphic variants: OCaml hash, tag and variant resolution agree",
  statement="A polymorphic variant is written as the four-byte tag derived from the OCaml hash of its label followed by its content, and decodes to the variant with that hash, wherever it stands in the type and whatever non-ASCII labels precede it. An unknown tag is an error that names it, and an enum with a plain name uses its one-byte index instead.",
  over=["inputs", "programs"], all="every label whose hash computation stays below 2^31, every tag, every list of variants up to 256",
  why="Tests use two labels and two-variant enums.",
  files=[BP + "polyvar/caml_hash_variant.rs", BP + "ser.rs", BP + "de.rs", BP + "write_ext.rs", BP + "read_ext.rs"], mech=[("caml_hash_variant", BP + "polyvar/caml_hash_variant.rs"), ("write_variant_index_or_tag", BP + "ser.rs"), ("PolyvarEnum::variant_seed", BP + "de.rs")], observe=["to_writer", "from_reader", "caml_hash_variant"],
  note="The hash loop is proved equal to OCaml's 223-ary evaluation modulo 2^31 on its domain, tag write/read to be inverse, and variant_seed to pick the first ASCII label with that hash. Labels whose hash overflows are a recorded known finding."),
 dict(id="C11", title="Layout-driven decoding is lossless and agrees with typed decoding",
  statement="Decoding, along a layout, bytes that an encoder wrote for that layout gives a value whose structure follows the layout (names, variant labels and order included), and encoding that value again gives back exactly those bytes. It agrees with typed decoding of the same shape; truncated or malformed input, and a layout rule that cannot be decoded, is an error.",
  over=["inputs", "configurations"], all="every layout and every byte string",
  why="The tests use a few shipped layouts with one block each.",
  files=[BP + "loose_deserializer.rs", BP + "value/mod.rs", BP + "value/ser.rs", BP + "value/layout/traverse.rs"], mech=[("deserialize_any along the layout", BP + "loose_deserializer.rs"), ("BranchingIterator", BP + "value/layout/traverse.rs"), ("Serialize for Value", BP + "value/ser.rs")], observe=["Deserializer::with_layout", "to_writer"],
  note="Proved for every layout: the loose decoder and Value's visitor compute the structural decoding of the layout, Value::serialize writes the value's bytes, and decoding those gives the value back. Agreement with typed decoding is explored on the compiled crate (bounded)."),
 dict(id="C12", title="Layout files are read faithfully or rejected",
  statement="Parsing a layout description yields exactly the structure it describes (rules, field and variant names, order, indices, nested references): no two different descriptions are confused. A description that is not of the documented form is an error, never a partial or guessed layout.",
  over=["inputs"], all="every JSON text",
  why="Tests parse three files.",
  files=[BP + "value/layout/mod.rs", BP + "value/layout/list_tagged_enum.rs"], mech=[("TryFrom<ListTaggedEnum> for BinProtRule", BP + "value/layout/mod.rs")], observe=["serde_json::from_str::<Layout>"],
  note="The three conversions from tagged lists (rules, polymorphic variants, references) are proved: accepted exactly when the tag with that number of arguments is one of the documented ones and its arguments parse, and then the rule of that tag holding those arguments. The parsing serde derives for the records is bounded: random rule trees printed by an independent writer, parsed by the real code and compared; mutated texts must fail or agree."),
 dict(id="C13", title="Version wrappers carry the declared version and nothing else changes",
  statement="Wrapping a value (constructor, default, conversion, at every depth from one to four) records exactly the versions the type declares, outermost first on the wire and before the content; unwrapping gives the content back unchanged. A decoded wrapper keeps the versions that were read. The conversion macros are the composition of the conversions they name.",
  over=["inputs"], all="every content, every version number from 0 to 65535, depths one to four",
  why="The tests build one wrapper of one level.",
  files=["protocol/versioned/src/lib.rs", "protocol/versioned/src/macros.rs"], mech=[("Versioned and its From impls", "protocol/versioned/src/lib.rs"), ("conversion macros", "protocol/versioned/src/macros.rs")], observe=["Versioned::new", "From/Into", "to_writer/from_reader"],
  note="new, default, inner, version and every From impl are proved against the wrapping they denote, for every type and every version (const generics); the macros are expanded for types with arbitrary conversions. The derived (de)serialisation is compared on the compiled crate (bounded)."),
 dict(id="C14", title="AutoFrom converts field for field, variant for variant, both ways",
  statement="A type that derives AutoFrom converts to and from each target so that every field and every variant goes to its namesake (its position for tuples), whatever order the target declares them in; elements of vectors keep number and order, options and boxes keep their shape; nothing is lost, swapped, defaulted or duplicated, also through up to four version wrappers.",
  over=["inputs", "configurations"], all="every value of every type the derive accepts",
  why="The tests convert a handful of fixed types, mostly with distinct field types.",
  files=["protocol/serialization-types-macros/src/auto_from.rs", "protocol/serialization-types-macros/src/lib.rs"], mech=[("code generation for structs and enums", "protocol/serialization-types-macros/src/auto_from.rs")], observe=["the generated From impls"],
  note="The text the macro generates on this run (rustc's expansion) for eleven fixture types covering every shape is proved equal to the intended conversion for every value; bounded over types. Seventy-odd further generated types run through the compiled code."),
 dict(id="C15", title="Value indexing reaches exactly the addressed component",
  statement="Indexing a decoded value by position or by field name, and unwrapping options, returns exactly the component at that place, and asking for something that is not there never yields some other component.",
  over=["inputs"], all="every value and every index or key",
  why="Tests index four small values.",
  files=[BP + "value/index.rs"], mech=[("Index impls", BP + "value/index.rs"), ("Value::inner, unwrap_name", BP + "value/index.rs")], observe=["Value[...]"],
  note="index_into (trait and its four impls), ops::Index::index and Value::inner are proved to return the addressed component, and nothing else, for every value and key; a panic counts as not yielding a component. E3 compares random values and keys with a direct walk."),
]
MK = "merkle/src/"
P += [
 dict(id="C16", title="A merkle root depends on the leaves alone, not on how they were added",
  statement="After any sequence of adding single leaves or batches, asking for roots and asking for proofs, the count is the number of leaves added, and the root is the root of the complete tree over exactly those leaves in that order: what was cached earlier never shows. A fixed-height tree has the root of its leaves lifted to that height with empty right halves. With the shipped Poseidon mergers this is the tree filled up with empty accounts.",
  over=["inputs", "histories"], all="every history of add, add_batch, root and get_proof, every hasher and merger, trees up to 2^60 leaves",
  why="Cache invalidation depends on the whole history; the tests grow one tree along one path with a sum as hash, which hides order.",
  files=[MK + "tree_impl.rs", MK + "tree.rs", MK + "merger_poseidon.rs"], mech=[("calculate_hash_if_needed, clear_dirty_hashes", MK + "tree_impl.rs"), ("add_batch", MK + "tree_impl.rs"), ("merge_poseidon_hash_*", MK + "merger_poseidon.rs")], observe=["MerkleTree::root", "MerkleTree::add_batch"],
  note="The cache invariant is proved to be kept by every operation and root() to return the recursive definition th/raise, for every hasher and merger (uninterpreted). Poseidon itself is outside: E3 runs the shipped mergers over a stand-in sponge."),
 dict(id="C17", title="A merkle proof verifies exactly when it proves its leaf at its index",
  statement="The proof a tree hands out for any leaf verifies against that tree's root. A proof whose index, item, sibling hashes or sibling positions were changed, reordered, shortened or extended verifies only if it still hashes, along the true siblings of its index, to that root; a malformed proof is rejected and never panics.",
  over=["inputs", "histories"], all="every tree, every leaf, every proof object built from the public fields",
  why="Tests verify genuine proofs of two trees and no forged one.",
  files=[MK + "proof.rs", MK + "tree_impl.rs"], mech=[("DefaultMerkleProof::root_hash, get_ordered_siblings", MK + "proof.rs"), ("get_proof", MK + "tree_impl.rs")], observe=["MinaMerkleTree::get_proof", "MerkleProof::verify"],
  note="root_hash is proved to return the fold over the siblings exactly for well formed proofs; lemma proof_verifies: get_proof's result folds to the root; lemma proof_is_sound: with a collision-free merger a verifying proof pins the leaf at that index. For fixed heights above the stored tree hashes must depend on node height only (all shipped ones do)."),
 dict(id="C18", title="Merkle geometry is exact: depth, height and node counts",
  statement="The depth of node i is the number of parent steps to the root, its height the tree height minus that, and a tree of n leaves has the smallest height whose bottom level holds n leaves, exactly, for every index and every count, without rounding.",
  over=["inputs"], all="every node index up to 2^64-1 and every leaf count",
  why="Rounding errors show only near large powers of two, which no test reaches.",
  files=[MK + "metadata.rs", MK + "tree_impl.rs"], mech=[("depth, height", MK + "metadata.rs"), ("calculate_height, calculate_node_count, calculate_parent_index", MK + "tree_impl.rs")], observe=["MerkleTreeNodeMetadata::new", "MerkleTree::height"],
  note="All five functions are proved against the recursive definitions for every input in range; leading_zeros and pow contracts are assumed."),
 dict(id="C19", title="A merkle path from the API becomes the proof of exactly that leaf",
  statement="Converting a left/right path of n nodes gives the proof of the leaf reached by following the path from the root, with the siblings in leaf-to-root order at their true indices, for every n from 1 to 63; it verifies against the root the path leads to and no other. A node with both or neither side, an empty path or one of 64 nodes or more is an error, never a panic.",
  over=["inputs"], all="every path",
  why="Tests convert two paths of 20 nodes.",
  files=[MK + "path.rs"], mech=[("MerklePath::to_proof, MerklePathNode::has_left_child", MK + "path.rs")], observe=["MerklePath::to_proof"],
  note="to_proof is proved for every path; the JSON form is checked by E3 with a stand-in for the field element type."),
]
CN = "consensus/src/"
P += [
 dict(id="C20", title="A chain grows only by the next height and its accessors read its top",
  statement="Pushing a block succeeds exactly when the chain is empty or the block's height is one more than the height of its last block; otherwise it is an invalid-height error and the chain is unchanged. So the heights of a chain built by pushing are always consecutive, at any height, without panicking. The accessors (top, genesis block, consensus state, global slot, epoch slot, length, state hash) report the last (first) block, or nothing for an empty chain.",
  over=["inputs", "histories"], all="every sequence of pushes, every height and every block content",
  why="Tests push two or three blocks of small heights.",
  files=[CN + "common.rs"], mech=[("ProtocolStateChain::push", CN + "common.rs")], observe=["ProtocolStateChain::push", "ProtocolStateChain::epoch_slot"],
  note="push and every accessor are proved for every block type that implements ProtocolStateHeader."),
 dict(id="C21", title="Fork choice takes the chain the selection rules prefer",
  statement="Chain selection looks at each candidate in turn. In a short-range fork, and on equal relative densities, the longer chain wins, then the greater VRF digest, then the greater state hash, and on a full tie the current chain stays. In a long-range fork the chain with the greater relative minimum window density wins. A candidate with a sub-window density above the sub-window size, or the wrong number of sub-windows, never wins a long-range fork. The fork range follows the epochs and lock checkpoints as documented, in either orientation. The outcome is the current chain or one of the candidates, and no block content makes it panic.",
  over=["inputs", "histories"], all="every current chain and every list of candidates",
  why="The rules have many branches and extremes of the counters; tests run a few hand-made pairs.",
  files=[CN + "common.rs"], mech=[("ChainSelection for ProtocolStateChain", CN + "common.rs")], observe=["ChainSelection::select_secure_chain", "ChainSelection::is_short_range", "ChainSelection::select_longer_chain"],
  note="The order of digests and field elements is uninterpreted in the proof."),
 dict(id="C22", title="The relative minimum window density is exact and never overflows",
  statement="Before the grace period ends the relative minimum window density of a chain is its own minimum window density. After that it is the smaller of that and the sum of its sub-window densities after clearing, one by one from the sub-window after its own, one sub-window for each slot from its own up to the later chain's, at most all. A missing sub-window is an error. Every slot number and density gives the exact result without overflow.",
  over=["inputs"], all="every pair of slots, every list of densities and minimum densities",
  why="Tests compute it for a few slots of one block each.",
  files=[CN + "common.rs"], mech=[("relative_min_window_density", CN + "common.rs")], observe=["ChainSelection::relative_min_window_density"],
  note="The function is proved equal to a recursive specification for every input; sums that exceed u32 are capped, which the minimum hides."),
]
PS = "proof-systems-shim/src/"
P += [
 dict(id="C24", title="Packing a random-oracle input keeps every part of it",
  statement="A chunked random-oracle input is a list of field elements and a list of packed elements with widths. Each append adds exactly its value at the end: a u32, u64 or boolean as one element of 32, 64 or 1 bits, bytes as one-bit elements from the least significant bit of the first byte on, another input as its parts in order. Turning it into field elements gives the field elements, then the packed elements in order, each shifted in below the ones before it for as long as fewer than 255 bits are used. So inputs of the same shape whose elements are within their widths give the same field elements only when they are equal. bits_to_fp is an error exactly for more than 255 bits or a number not below the order. None of it panics for elements within their widths.",
  over=["inputs"], all="every sequence of appends, every element, every width up to 254",
  why="One lost or overlapping bit makes two states hash alike; tests hash a few fixed structures.",
  files=[PS + "roinput.rs"], mech=[("ChunkedROInput", PS + "roinput.rs"), ("From<ChunkedROInput> for ROInput", PS + "roinput.rs")], observe=["ChunkedROInput::into_fields", "ChunkedROInput::append", "ChunkedROInput::bits_to_fp"],
  note="Every function of ChunkedROInput is proved, with the injectivity of packing as a lemma; the prime field, the big integer shift and the bit vector have assumed contracts. E3 compiles the real file against stand-ins for ark_ff, mina_hasher and bitvec."),
]
BS = "base/src/"; HS = "crypto/src/hash/"
P += [
 dict(id="C23", title="A state hash covers every part of the protocol state, in the documented layout",
  statement="The input hashed for a protocol state body is its constants, genesis state hash, blockchain state and consensus state, each laid out field by field in protocol order with its full width, under the domain CodaProtoStateBody; a protocol state is hashed as the previous state hash and the hash of its body under CodaProtoState, legacy and Berkeley forms each with its own sponge. The state hash is that hash, in its 32 bytes. So two well-formed states with the same number of sub-windows and equal oracle inputs are equal in every part hashed: no field is skipped, narrowed, merged with another or dependent on anything else. Building an input never panics on hashes below the field order.",
  over=["inputs"], all="every protocol state, legacy and Berkeley, every list of sub-window densities and every VRF output",
  why="Tests compare the hash of a handful of fixed states; two states that collide are not among them.",
  files=[BS + "protocol_state.rs", BS + "consensus_state.rs", BS + "blockchain_state.rs", BS + "epoch_data.rs", BS + "numbers.rs", HS + "types.rs"], mech=[("Hashable/ToChunkedROInput for ProtocolState and its parts", BS + "protocol_state.rs")], observe=["ProtocolState::state_hash", "ProtocolState::to_roinput"],
  note="Every to_roinput/to_chunked_roinput below the protocol state is proved equal to a layout specification and the layouts are proved injective (lists of equal length, VRF outputs of at most 253 bits). Poseidon and SHA-256 are uninterpreted functions; hash bytes below the field order are a precondition (others panic). E3 builds the real crates against stand-ins."),
 dict(id="C25", title="An account hash covers every part of the account",
  statement="The input hashed for an account is, in this order, the zkApp URI and zkApp hashes, the permissions, timing, voting-for state, delegate, receipt chain hash, nonce, balance, token symbol, token permissions, token id and public key, under the domain CodaAccount. Each permission is the three bits constant, signature necessary, signature sufficient, different for each of the six levels. So two accounts with equal inputs agree on all of these; only the zkApp parts (hashed as the default), slot numbers above 32 bits and the bytes after the sixth of a token symbol are outside the input, and no delegate counts as the empty key.",
  over=["inputs"], all="every account",
  why="Tests hash three fixed accounts; a permission level or a timing field that is not covered is invisible in them.",
  files=[BS + "account/mod.rs", BS + "account/permissions.rs", BS + "account/timing.rs", BS + "account/zkapp.rs", BS + "common.rs"], mech=[("ToChunkedROInput for Account", BS + "account/mod.rs"), ("ToChunkedROInput for AuthRequired", BS + "account/permissions.rs")], observe=["Account::to_roinput"],
  note="Layout and injectivity are proved for the Berkeley account. The legacy account hashes only its token id and balance (marked unfinished in the code) and is not claimed."),
 dict(id="C26", title="What is signed determines the whole command",
  statement="The input signed for a command payload holds the fee payer, source and receiver keys, the fee, fee token, nonce, expiry slot, memo, the kind of command, and for payments the token and amount (for delegations token 1 and amount 0), each at full width in protocol order; the domain depends on the network alone and differs between networks. So two payloads with memos of equal length and the same input are the same payload: a signature for one command is never for another.",
  over=["inputs"], all="every payload, both kinds, both networks",
  why="Tests sign a handful of payments; delegation payloads and single-bit differences are not compared.",
  files=[BS + "user_commands/signed_command/mod.rs", BS + "user_commands/payment.rs", BS + "user_commands/memo.rs"], mech=[("Hashable for SignedCommandPayload", BS + "user_commands/signed_command/mod.rs")], observe=["SignedCommandPayload::to_roinput", "SignedCommandPayload::domain_string"],
  note="Proved for every payload: the input equals the layout specification, and command_input_inj recovers every field from it. The signature scheme itself is a dependency."),
 dict(id="C27", title="Blocks and accounts read from GraphQL JSON take every field from its own key",
  statement="Reading an account, its permissions and timing, epoch data, consensus state, blockchain state or a whole protocol state from a GraphQL document puts in every field the value stored under that field's own key (its number, hash, key, flag or permission), and nothing else decides it. A document whose required member is missing, of another kind, out of range or malformed is refused with an error; an absent delegate or timing reads as no delegate and untimed. It never panics.",
  over=["inputs"], all="every JSON document, every subset of members present, every value under each key",
  why="Tests read one document per type in which many members have the same value, so two swapped keys pass; malformed members are not tried.",
  files=[BS + "account/permissions.rs", BS + "account/timing.rs", BS + "account/mod.rs", BS + "epoch_data.rs", BS + "consensus_state.rs", BS + "blockchain_state.rs", BS + "protocol_state.rs", BS + "from_graphql_json.rs"], mech=[("FromGraphQLJson for Permissions", BS + "account/permissions.rs"), ("FromGraphQLJson for ConsensusState", BS + "consensus_state.rs")], observe=["FromGraphQLJson::from_graphql_json"],
  note="Proved for every document against a specification written key by key; the text of a number, hash or key is abstract (how it is parsed is a dependency or C28), serde_json::Value is a stand-in with the same indexing contract."),
 dict(id="C28", title="Text forms of amounts, hashes, hex, memos and signatures denote one value",
  statement="An amount text is accepted exactly when it is a decimal integer, optionally with a point and at most nine further digits, whose value in nanomina fits 64 bits, and reads as that value; every amount is shown with nine fractional digits and written in JSON in a form that reads back as the same amount. A base58 text is read as a hash, memo, signature or VRF output of a kind only if its checksum is right and its version byte is that kind's, and then yields the bytes it holds; what is written for a value reads back as it, and under no other kind. A field element's hex text is 64 digits, with or without a 0x or \\x prefix. A memo made from a text of at most 32 bytes yields that text again, a longer one is refused. A character is one of code at most 255; the tagged JSON arrays of enums and options read back as the value written. Reading any text answers with a value or an error and never panics.",
  over=["inputs"], all="every amount, every hash, key, memo and signature, every text and JSON value given to a reader",
  why="Tests read a handful of well-formed texts; boundary amounts, over-long fractions, other kinds' version bytes, short hex and empty arrays are not tried.",
  files=["base/src/numbers.rs", "base/src/user_commands/memo.rs", "protocol/serialization-types/src/common.rs", "protocol/serialization-types/src/field_and_curve_elements.rs", "protocol/serialization-types/src/signatures.rs", "protocol/serialization-types/src/consensus_state.rs", "protocol/serialization-types/src/staged_ledger_diff.rs", "protocol/serialization-types/src/macros.rs", "protocol/serialization-types/src/version_bytes.rs", "crypto/src/hash/types.rs", "crypto/src/hex/mod.rs"], mech=[("Amount::from_str", "base/src/numbers.rs"), ("Base58EncodableType::from_base58", "protocol/serialization-types/src/common.rs")], observe=["FromStr and Display for Amount", "Serialize and Deserialize of the *Json types", "from_base58 and to_base58_string", "SignedCommandMemo::try_from_text and to_text"],
  note="Proved for every text: the amount grammar and its round trip, the integer and character forms, base58 with every version byte, hex and memos, over abstract str::parse, base58 and hex contracts. Tagged enums and options (a macro over serde) are exercised by E3 only. Known finding: ByteVecJson writes bytes that are no UTF-8."),
]
NA = {}

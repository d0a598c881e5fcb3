"""What each property is decided by."""
PROBES = {
    "probe": {"dir": "{verif}/concrete/probe", "bin": "probe"},
    "mk": {"prepare": "concrete/prepare.py", "dir": "{build}/mk_src", "bin": "mk", "env": {"RUSTFLAGS": "--cap-lints warn"}},
    "cn": {"prepare": "concrete/prepare.py", "dir": "{build}/cn_src", "bin": "cn", "env": {"RUSTFLAGS": "--cap-lints warn"}},
    "bs": {"prepare": "concrete/prepare.py", "dir": "{build}/bs_src", "bin": "bs", "env": {"RUSTFLAGS": "--cap-lints warn"}},
    "vr": {"dir": "{verif}/concrete/vr", "bin": "vr", "lite": "C14"},
}
# units over text that rustc expands from /repo's macros on every run
EXPAND = {"c_autofrom": {"dir": "{verif}/concrete/vr", "bin": "afx", "features": "expand", "out": "af.rs"}}
TRUSTED = [
    "Verus 0.2026.09.13 and the Z3 it ships; rustc 1.70 for the compiled crate",
    "tools/vx: the extractor that copies the functions out of /repo on every run (its rewrites are listed above)",
    "contracts assumed on std, byteorder, num_traits and serde (the external_body items above)",
]
ASSUMPTIONS = [
    "64-bit usize",
    "the contracts assumed on dependencies hold; E3 exercises the same functions with the real dependencies",
]
# a pattern is matched against Owner::name and against name; a trailing !s counts only failed safety obligations
# (overflow, bounds, callee preconditions, termination)
INTS = "(i8|i16|i32|i64|u16|u32|u64)"
PROPS = {
    "C01": {"units": {"c_write": ["bin_write_integer", "le.*", "lemma.*"], "c_ser": [f"serialize_{INTS}", "bin_write_integer", "lemma_u64_as_i64"], "c_iser": ["integer::serialize", "bin_write_integer"]}, "probes": ["probe"]},
    "C02": {"units": {"c_read": ["bin_read_integer", "int_roundtrip", "unle.*", "pow256.*"], "c_de": [f"deserialize_{INTS}", "bin_read_integer", "lemma_i64_as_u64", "int_roundtrip"], "c_ide": ["integer::deserialize", "IntegerVis.*", "bin_read_integer", "Cursor::new"]}, "probes": ["probe"]},
    "C03": {"units": {"c_write": ["bin_write_nat0", "le.*"], "c_read": ["bin_read_nat0", "nat0_roundtrip", "unle.*", "pow256.*"], "c_ser": ["serialize_seq", "serialize_str"], "c_de": ["deserialize_seq"], "c_iser": ["nat0::serialize", "bin_write_nat0"], "c_ide": ["nat0::deserialize", "Nat0Vis.*", "bin_read_nat0", "Cursor::new"]}, "probes": ["probe"]},
    "C04": {"units": {"c_write": ["bin_write_(unit|bool|char|float32|float64|option.*|u8)"], "c_read": ["bin_read_(unit|bool|char)"],
                      "c_ser": ["serialize_(bool|u8|f32|f64|char|none|some|unit|unit_struct)"], "c_de": ["deserialize_(bool|u8|f32|f64|char|option|unit|unit_struct)"]}, "probes": ["probe"]},
    "C05": {"units": {"c_read": ["bin_read_(string|bytes)", "bytes_roundtrip"], "c_ser": ["serialize_(str|bytes)"], "c_de": ["deserialize_(str|string)"]}, "probes": ["probe"]},
    "C06": {"units": {"c_ser": [".*"], "c_de": [".*"]}, "probes": ["probe"]},
    "C07": {"units": {"c_read": [".*!s"], "c_value": [".*!s"], "c_de": [".*!s", "SeqAccess::.*", "(visit|deserialize)_(seq|tuple.*|struct.*)"]}, "probes": ["probe"]},
    "C08": {"units": {"c_write": [".*"], "c_read": [".*"], "c_ser": ["write", "write_byte", "write_variant_index_or_tag"]}, "probes": ["probe"]},
    "C09": {"units": {"c_de": ["from_reader.*", "Deserializer::from_reader"]}, "probes": ["probe"], "scale": 400},
    "C10": {"units": {"c_hash": [".*"], "c_write": ["bin_write_polyvar_tag", "bin_write_variant_index"], "c_read": ["bin_read_polyvar_tag", "bin_read_variant_index", "tag_roundtrip", "lemma_tag_bits"],
                      "c_ser": ["write_variant_index_or_tag", "check_variant_index", "serialize_.*_variant"], "c_de": ["deserialize_enum", "PolyvarEnum::.*"]}, "probes": ["probe"]},
    "C11": {"units": {"c_value": ["(?!bin_read_).*"], "c_valser": ["ValSer::.*", "vx_.*", "serialize", "nat0_serialize", "lossless.*", "chars_written", "e_drop_last", "e|e_.*", "conf.*", "sv.*", "cat.*"]}, "probes": ["probe"]},
    "C12": {"units": {"c_layout": [".*"]}, "probes": ["probe"]},
    "C16": {"units": {"c_merkle": ["calculate_hash_if_needed", "clear_dirty_hashes", "add_batch", "MerkleTree::add", "MinaMerkleTree::(new|default|root|count|height|add_batch)", ".*fixed_height", "full.*", "th_frame", "gained_trans", "set_.*", "batch_same", "anc.*"]}, "probes": ["mk"]},
    "C17": {"units": {"c_merkle": ["DefaultMerkleProof::.*", "MerkleProof::verify", "get_ordered_siblings", "get_parent_index", "get_proof", "fold.*", "proof_.*", "parity", "up_row", "row_zero", "lvl.*"]}, "probes": ["mk"]},
    "C18": {"units": {"c_merkle": ["MerkleTreeNodeMetadata::.*", "depth", "height", "calculate_(height|node_count|parent_index)", "MinaMerkleTree::height", "p2.*", "lvl.*", "height_unique", "ht_is"]}, "probes": ["mk"]},
    "C19": {"units": {"c_merkle": ["to_proof", "has_left_child", "path_.*", "prow.*", "DefaultMerkleProof::new"]}, "probes": ["mk"]},
    "C20": {"units": {"c_chain": ["push", "top", "genesis_block", "consensus_state", "global_slot", "epoch_slot", "length", "state_hash", "state_hash_fp", "get_height", "last_vrf_hash_digest", "ProtocolStateHeader::.*"]}, "probes": ["cn"]},
    "C21": {"units": {"c_chain": ["select_.*", "is_short_range", "config", "mainnet", "sub_window_densities", "after_.*", "preference_is_strict", "epoch_slot", "consensus_state", "last_vrf_hash_digest", "state_hash", "relative_min_window_density"]}, "probes": ["cn"]},
    "C22": {"units": {"c_chain": ["relative_min_window_density", "config", "mainnet", "consensus_state", "emptied_.*", "gone_step", "total_.*", "min_window_density", "sub_window_densities"]}, "probes": ["cn"]},
    "C13": {"units": {"c_versioned": [".*"]}, "probes": ["vr"]},
    "C14": {"units": {"c_autofrom": [".*"], "c_vecmap": [".*"]}, "probes": ["vr"],
            "trusted": ["c_autofrom: the types converted are the ten fixture types of concrete/vr/src/afx.rs (every shape the derive distinguishes); other types only through E3's fixtures"]},
    "C24": {"units": {"c_roinput": [".*"]}, "probes": ["bs"]},
    "C23": {"units": {"c_roi_state": [".*"]}, "probes": ["bs"]},
    "C25": {"units": {"c_roi_acct": [".*"]}, "probes": ["bs"]},
    "C26": {"units": {"c_roi_cmd": [".*"]}, "probes": ["bs"]},
    "C27": {"units": {"c_json": [".*"]}, "probes": ["bs"]},
    "C28": {"units": {"c_text": [".*"]}, "probes": ["bs"]},
    "C15": {"units": {"c_index": [".*"]}, "probes": ["probe"]},
}

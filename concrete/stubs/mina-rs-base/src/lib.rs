//! stand-in: the types fork choice reads, with the fields and derives of the real ones
pub mod numbers {
    #[derive(Clone, Eq, PartialEq, PartialOrd, Debug, Copy, Default)] pub struct Length(pub u32);
    impl From<u32> for Length { fn from(x: u32) -> Self { Length(x) } }
    #[derive(Copy, Clone, Eq, PartialEq, Debug, Default)] pub struct GlobalSlotNumber(pub u32);
    impl GlobalSlotNumber { pub const MAX: Self = Self(u32::MAX); }
    impl From<u32> for GlobalSlotNumber { fn from(x: u32) -> Self { GlobalSlotNumber(x) } }
    #[derive(Copy, Clone, Eq, PartialEq, Debug, Default)] pub struct Amount(pub u64);
    #[derive(Clone, Eq, PartialEq, Debug, Default)] pub struct BlockTime(pub u64);
    #[derive(Clone, Eq, PartialEq, PartialOrd, Debug, Copy, Default)] pub struct Delta(pub u32);
}
pub mod global_slot { #[derive(Clone, Default, Eq, PartialEq, Debug)] pub struct GlobalSlot { pub slot_number: crate::numbers::GlobalSlotNumber, pub slots_per_epoch: crate::numbers::Length } }
pub mod epoch_data {
    #[derive(Clone, Default, Eq, PartialEq, Debug)] pub struct StateHash(pub u64);
    #[derive(Clone, Default, Eq, PartialEq, Debug)] pub struct EpochData { pub start_checkpoint: StateHash, pub lock_checkpoint: StateHash, pub epoch_length: crate::numbers::Length }
}
pub mod consensus_state {
    use crate::{epoch_data::*, global_slot::*, numbers::*};
    #[derive(Clone, Default, Eq, PartialEq, Debug, PartialOrd)] pub struct VrfOutputTruncated(pub Vec<u8>);
    impl VrfOutputTruncated {
        /// 32 bytes; the real one is blake2b, here the order of digests is chosen by the content
        pub fn digest(&self) -> Vec<u8> { let mut v: Vec<u8> = self.0.iter().map(|b| b.reverse_bits()).collect(); v.resize(32, 0); v }
    }
    #[derive(Clone, Debug, Eq, PartialEq, Default)]
    pub struct ConsensusState {
        pub blockchain_length: Length, pub epoch_count: Length, pub min_window_density: Length, pub sub_window_densities: Vec<Length>,
        pub last_vrf_output: VrfOutputTruncated, pub total_currency: Amount, pub curr_global_slot: GlobalSlot, pub global_slot_since_genesis: GlobalSlotNumber,
        pub staking_epoch_data: EpochData, pub next_epoch_data: EpochData, pub has_ancestor_in_same_checkpoint_window: bool, pub supercharge_coinbase: bool,
    }
    impl ConsensusState { pub fn sub_window_densities(&self) -> Vec<u32> { self.sub_window_densities.iter().map(|i| i.0).collect() } }
}
pub mod protocol_state {
    use crate::{consensus_state::*, numbers::*};
    use proof_systems::mina_hasher::Fp;
    #[derive(Clone, Debug, Eq, PartialEq, Default)] pub struct ProtocolConstants { pub k: Length, pub slots_per_epoch: Length, pub slots_per_sub_window: Length, pub delta: Length, pub genesis_state_timestamp: BlockTime }
    pub trait ProtocolStateHeader {
        fn get_height(&self) -> Length;
        fn min_window_density(&self) -> Length;
        fn sub_window_densities(&self) -> &Vec<Length>;
        fn consensus_state(&self) -> &ConsensusState;
        fn constants(&self) -> &ProtocolConstants;
        fn state_hash_fp(&self) -> Fp;
    }
}
pub mod types { pub use crate::{consensus_state::*, epoch_data::*, global_slot::*, numbers::*, protocol_state::*}; }

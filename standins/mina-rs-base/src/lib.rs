//! The block header types that mina-consensus uses.
pub mod numbers {
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Debug, Default)]
    pub struct Length(pub u32);
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
    pub struct GlobalSlotNumber(pub u32);
    #[derive(Clone, PartialEq, Eq, Debug, Default)]
    pub struct BlockTime(pub u64);
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
    pub struct Amount(pub u64);
}

pub mod global_slot {
    use crate::numbers::*;
    #[derive(Clone, Default, Eq, PartialEq, Debug)]
    pub struct GlobalSlot {
        pub slot_number: GlobalSlotNumber,
        pub slots_per_epoch: Length,
    }
}

pub mod epoch_data {
    use crate::numbers::*;
    /// Opaque hashes, compared only.
    #[derive(Clone, Default, Eq, PartialEq, Debug)]
    pub struct StateHash(pub u64);
    #[derive(Clone, Default, Eq, PartialEq, Debug)]
    pub struct LedgerHash(pub u64);
    #[derive(Clone, Default, Eq, PartialEq, Debug)]
    pub struct EpochSeed(pub u64);
    #[derive(Clone, Default, Eq, PartialEq, Debug)]
    pub struct EpochLedger {
        pub hash: LedgerHash,
        pub total_currency: Amount,
    }
    #[derive(Clone, Default, Eq, PartialEq, Debug)]
    pub struct EpochData {
        pub ledger: EpochLedger,
        pub seed: EpochSeed,
        pub start_checkpoint: StateHash,
        pub lock_checkpoint: StateHash,
        pub epoch_length: Length,
    }
}

pub mod consensus_state {
    use crate::{epoch_data::*, global_slot::*, numbers::*};

    extern "Rust" {
        fn opaque_digest(v: &[u8]) -> Vec<u8>;
    }

    #[derive(Clone, Default, Eq, PartialEq, Debug, PartialOrd)]
    pub struct VrfOutputTruncated(pub Vec<u8>);
    impl VrfOutputTruncated {
        pub fn digest(&self) -> Vec<u8> {
            unsafe { opaque_digest(&self.0) }
        }
    }

    #[derive(Clone, Default, Eq, PartialEq, Debug)]
    pub struct CompressedPubKey(pub u64);

    #[derive(Clone, Debug, Eq, PartialEq, Default)]
    pub struct ConsensusState {
        pub blockchain_length: Length,
        pub epoch_count: Length,
        pub min_window_density: Length,
        pub sub_window_densities: Vec<Length>,
        pub last_vrf_output: VrfOutputTruncated,
        pub total_currency: Amount,
        pub curr_global_slot: GlobalSlot,
        pub global_slot_since_genesis: GlobalSlotNumber,
        pub staking_epoch_data: EpochData,
        pub next_epoch_data: EpochData,
        pub has_ancestor_in_same_checkpoint_window: bool,
        pub block_stake_winner: CompressedPubKey,
        pub block_creator: CompressedPubKey,
        pub coinbase_receiver: CompressedPubKey,
        pub supercharge_coinbase: bool,
    }

    impl ConsensusState {
        pub fn sub_window_densities(&self) -> Vec<u32> {
            self.sub_window_densities.iter().map(|i| i.0).collect()
        }
    }
}

pub mod protocol_state {
    use crate::{consensus_state::*, numbers::*};
    use proof_systems::mina_hasher::Fp;

    #[derive(Clone, PartialEq, Eq, Debug, Default)]
    pub struct ProtocolConstants {
        pub k: Length,
        pub slots_per_epoch: Length,
        pub slots_per_sub_window: Length,
        pub delta: Length,
        pub genesis_state_timestamp: BlockTime,
    }

    pub trait ProtocolStateHeader {
        fn get_height(&self) -> Length;
        fn min_window_density(&self) -> Length;
        fn sub_window_densities(&self) -> &Vec<Length>;
        fn consensus_state(&self) -> &ConsensusState;
        fn constants(&self) -> &ProtocolConstants;
        fn state_hash_fp(&self) -> Fp;
    }
}

pub mod types {
    pub use crate::{consensus_state::*, epoch_data::*, global_slot::*, numbers::*, protocol_state::*};
}

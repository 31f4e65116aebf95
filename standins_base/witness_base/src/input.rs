//! What every type contributes to the hashes, in the legacy and in the chunked form, and the domain of the hash.
use mina_crypto::hash::*;
use mina_rs_base::account::*;
use mina_rs_base::types::{timing, *};
use proof_systems::mina_hasher::{Fp, Hashable, ROInput};
use proof_systems::mina_signer::{CompressedPubKey, NetworkId};
use proof_systems::{ChunkedROInput, ToChunkedROInput};

macro_rules! legacy { ($($f:ident $t:ty;)*) => { $(
    pub fn $f(v: &$t) -> ROInput { v.to_roinput() }
)* } }
macro_rules! chunked { ($($f:ident $t:ty;)*) => { $(
    pub fn $f(v: &$t) -> ChunkedROInput { v.to_chunked_roinput() }
)* } }
macro_rules! domain { ($($f:ident $t:ty;)*) => { $(
    pub fn $f() -> Option<String> { <$t as Hashable>::domain_string(()) }
)* } }

legacy! {
    l_state_hash StateHash;
    l_ledger_hash LedgerHash;
    l_chain_hash ChainHash;
    l_coinbase_hash CoinBaseHash;
    l_epoch_seed EpochSeed;
    l_staged_ledger_hash StagedLedgerHash;
    l_non_snark NonSnarkStagedLedgerHash;
    l_blockchain_state BlockchainStateLegacy;
    l_vrf_output VrfOutputTruncated;
    l_consensus_state ConsensusState;
    l_epoch_ledger EpochLedger;
    l_epoch_data EpochData;
    l_global_slot GlobalSlot;
    l_token_id TokenId;
    l_length Length;
    l_amount Amount;
    l_account_nonce AccountNonce;
    l_slot_number GlobalSlotNumber;
    l_block_time BlockTime;
    l_protocol_constants ProtocolConstants;
    l_protocol_state ProtocolStateLegacy;
    l_protocol_state_body ProtocolStateBodyLegacy;
    l_command SignedCommandPayload;
}
chunked! {
    c_state_hash StateHash;
    c_ledger_hash LedgerHash;
    c_chain_hash ChainHash;
    c_coinbase_hash CoinBaseHash;
    c_epoch_seed EpochSeed;
    c_field Field;
    c_staged_ledger_hash StagedLedgerHash;
    c_non_snark NonSnarkStagedLedgerHash;
    c_blockchain_state BlockchainState;
    c_body_reference BodyReference;
    c_registers BlockchainStateRegisters;
    c_local_state BlockchainStateRegistersLocalState;
    c_vrf_output VrfOutputTruncated;
    c_consensus_state ConsensusState;
    c_epoch_ledger EpochLedger;
    c_epoch_data EpochData;
    c_global_slot GlobalSlot;
    c_token_id TokenId;
    c_length Length;
    c_amount Amount;
    c_signed_amount SignedAmount;
    c_account_nonce AccountNonce;
    c_slot_number GlobalSlotNumber;
    c_index MinaIndex;
    c_block_time BlockTime;
    c_protocol_constants ProtocolConstants;
    c_protocol_state_body ProtocolStateBody;
    c_protocol_state ProtocolState;
    c_account Account;
    c_timed timing::TimedData;
    c_timing Timing;
    c_auth AuthRequired;
    c_permissions Permissions;
    c_token_permissions TokenPermissions;
    c_token_symbol TokenSymbol;
}
domain! {
    d_account Account;
    d_protocol_state ProtocolState;
    d_protocol_state_body ProtocolStateBody;
    d_protocol_state_legacy ProtocolStateLegacy;
    d_protocol_state_body_legacy ProtocolStateBodyLegacy;
}
pub fn d_command(n: NetworkId) -> Option<String> { <SignedCommandPayload as Hashable>::domain_string(n) }
pub fn l_account(v: &Account) -> ROInput { v.to_roinput() }
pub fn l_body(v: &ProtocolStateBody) -> ROInput { v.to_roinput() }
pub fn l_state(v: &ProtocolState) -> ROInput { v.to_roinput() }
pub fn c_key(v: &CompressedPubKey) -> ChunkedROInput { CompressedPubKeyHashableWrapper(v).to_chunked_roinput() }
pub fn c_key_opt(v: &Option<CompressedPubKey>) -> ChunkedROInput { CompressedPubKeyOptionHashableWrapper(v).to_chunked_roinput() }
pub fn h_legacy_fp(v: &ProtocolStateLegacy) -> Fp { v.state_hash_fp() }
pub fn h_legacy(v: &ProtocolStateLegacy) -> StateHash { v.state_hash() }
pub fn h_fp(v: &ProtocolState) -> Fp { v.state_hash_fp() }
pub fn h(v: &ProtocolState) -> StateHash { v.state_hash() }

/// The chunked input itself
pub fn p_bool(i: ChunkedROInput, v: bool) -> ChunkedROInput { i.append_bool(v) }
pub fn p_u32(i: ChunkedROInput, v: u32) -> ChunkedROInput { i.append_u32(v) }
pub fn p_u64(i: ChunkedROInput, v: u64) -> ChunkedROInput { i.append_u64(v) }
pub fn p_bytes(i: ChunkedROInput, v: [u8; 3]) -> ChunkedROInput { i.append_bytes(&v) }
pub fn p_chunked(i: ChunkedROInput, v: &Amount) -> ChunkedROInput { i.append_chunked(v) }
pub fn p_field(i: ChunkedROInput, v: Fp) -> ChunkedROInput { i.append_field(v) }
pub fn p_packed(i: ChunkedROInput, v: Fp, n: u32) -> ChunkedROInput { i.append_packed(v, n) }
pub fn p_append(i: ChunkedROInput, v: ChunkedROInput) -> ChunkedROInput { i.append(v) }
fn packed(f: Vec<Fp>, p: Vec<(Fp, u32)>) -> Vec<Fp> { ChunkedROInput { fields: f, packed: p }.into_fields() }
pub fn p_fields_0(f: Vec<Fp>) -> Vec<Fp> { packed(f, vec![]) }
pub fn p_fields_1(f: Vec<Fp>, a: Fp, m: u8) -> Vec<Fp> { packed(f, vec![(a, m as u32)]) }
pub fn p_fields_2(f: Vec<Fp>, a: Fp, m: u8, b: Fp, n: u8) -> Vec<Fp> { packed(f, vec![(a, m as u32), (b, n as u32)]) }
pub fn p_fields_3(f: Vec<Fp>, a: Fp, m: u8, b: Fp, n: u8, c: Fp, o: u8) -> Vec<Fp> { packed(f, vec![(a, m as u32), (b, n as u32), (c, o as u32)]) }
pub fn p_fields_4(f: Vec<Fp>, a: Fp, m: u8, b: Fp, n: u8, c: Fp, o: u8, d: Fp, p: u8) -> Vec<Fp> {
    packed(f, vec![(a, m as u32), (b, n as u32), (c, o as u32), (d, p as u32)])
}
pub fn p_roinput(i: ChunkedROInput) -> ROInput { i.into() }

//! Text forms: writing to and reading from a text, with a serializer that keeps the string it is given and a deserializer that holds one.
use mina_serialization_types::common::{CoinBaseStackDataV1Json, CoinBaseStackHashV1Json, DecimalJson, U32Json, U64Json};
use mina_serialization_types::json::*;
use serde::de::Visitor;
use serde::ser::Impossible;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

#[derive(Debug)]
pub struct TErr;
impl std::fmt::Display for TErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("text")
    }
}
impl std::error::Error for TErr {}
impl serde::ser::Error for TErr {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        TErr
    }
}
impl serde::de::Error for TErr {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        TErr
    }
}

pub struct TextSer;
macro_rules! no { ($($m:ident $t:ty;)*) => { $( fn $m(self, _: $t) -> Result<String, TErr> { Err(TErr) } )* } }
impl Serializer for TextSer {
    type Ok = String;
    type Error = TErr;
    type SerializeSeq = Impossible<String, TErr>;
    type SerializeTuple = Impossible<String, TErr>;
    type SerializeTupleStruct = Impossible<String, TErr>;
    type SerializeTupleVariant = Impossible<String, TErr>;
    type SerializeMap = Impossible<String, TErr>;
    type SerializeStruct = Impossible<String, TErr>;
    type SerializeStructVariant = Impossible<String, TErr>;
    fn serialize_str(self, v: &str) -> Result<String, TErr> {
        Ok(v.to_owned())
    }
    no! { serialize_bool bool; serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64; serialize_u8 u8; serialize_u16 u16;
    serialize_u32 u32; serialize_u64 u64; serialize_f32 f32; serialize_f64 f64; serialize_char char; serialize_bytes &[u8];
    serialize_unit_struct &'static str; }
    fn serialize_none(self) -> Result<String, TErr> {
        Err(TErr)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<String, TErr> {
        Err(TErr)
    }
    fn serialize_unit(self) -> Result<String, TErr> {
        Err(TErr)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<String, TErr> {
        Err(TErr)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<String, TErr> {
        Err(TErr)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, TErr> {
        Err(TErr)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, TErr> {
        Err(TErr)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeSeq, TErr> {
        Err(TErr)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeSeq, TErr> {
        Err(TErr)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeSeq, TErr> {
        Err(TErr)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeSeq, TErr> {
        Err(TErr)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeSeq, TErr> {
        Err(TErr)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeSeq, TErr> {
        Err(TErr)
    }
}

pub struct TextDe(pub String);
impl<'de> Deserializer<'de> for TextDe {
    type Error = TErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TErr> {
        v.visit_string(self.0)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
    unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

/// a serializer that keeps the JSON value it is given
pub struct ValueSer;
macro_rules! nov { ($($m:ident $t:ty;)*) => { $( fn $m(self, _: $t) -> Result<serde_json::Value, TErr> { Err(TErr) } )* } }
pub trait Kept {
    fn kept(&self) -> serde_json::Value;
}
extern "Rust" {
    fn opaque_as_value(p: *const ()) -> serde_json::Value;
    fn opaque_value_of() -> serde_json::Value;
}
impl Serializer for ValueSer {
    type Ok = serde_json::Value;
    type Error = TErr;
    type SerializeSeq = Impossible<serde_json::Value, TErr>;
    type SerializeTuple = Impossible<serde_json::Value, TErr>;
    type SerializeTupleStruct = Impossible<serde_json::Value, TErr>;
    type SerializeTupleVariant = Impossible<serde_json::Value, TErr>;
    type SerializeMap = Impossible<serde_json::Value, TErr>;
    type SerializeStruct = Impossible<serde_json::Value, TErr>;
    type SerializeStructVariant = Impossible<serde_json::Value, TErr>;
    nov! { serialize_bool bool; serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64; serialize_u8 u8; serialize_u16 u16;
    serialize_u32 u32; serialize_u64 u64; serialize_f32 f32; serialize_f64 f64; serialize_char char; serialize_bytes &[u8];
    serialize_unit_struct &'static str; serialize_str &str; }
    fn serialize_none(self) -> Result<serde_json::Value, TErr> {
        Err(TErr)
    }
    /// only a JSON value is handed to it
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<serde_json::Value, TErr> {
        Ok(unsafe { opaque_as_value(v as *const T as *const ()) })
    }
    fn serialize_unit(self) -> Result<serde_json::Value, TErr> {
        Err(TErr)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<serde_json::Value, TErr> {
        Err(TErr)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<serde_json::Value, TErr> {
        Err(TErr)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<serde_json::Value, TErr> {
        Err(TErr)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, TErr> {
        Err(TErr)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeSeq, TErr> {
        Err(TErr)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeSeq, TErr> {
        Err(TErr)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeSeq, TErr> {
        Err(TErr)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeSeq, TErr> {
        Err(TErr)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeSeq, TErr> {
        Err(TErr)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeSeq, TErr> {
        Err(TErr)
    }
}

/// a deserializer that holds a JSON value
pub struct ValueDe(pub serde_json::Value);
impl<'de> Deserializer<'de> for ValueDe {
    type Error = TErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TErr> {
        self.0.deserialize_any(v).map_err(|_| TErr)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
    unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

macro_rules! text { ($($w:ident $r:ident $b:ident $t:ty;)*) => { $(
    pub fn $w(v: &$t) -> Result<String, TErr> { v.serialize(TextSer) }
    pub fn $r(s: String) -> Result<$t, TErr> { <$t>::deserialize(TextDe(s)) }
    pub fn $b(v: &$t) -> Result<$t, TErr> { <$t>::deserialize(TextDe(v.serialize(TextSer)?)) }
)* } }
text! {
    w_u32 r_u32 b_u32 U32Json;
    w_u64 r_u64 b_u64 U64Json;
    w_decimal r_decimal b_decimal DecimalJson;
    w_char r_char b_char CharJson;
    w_bytes r_bytes b_bytes ByteVecJson;
    w_ledger_hash r_ledger_hash b_ledger_hash LedgerHashV1Json;
    w_coinbase_hash r_coinbase_hash b_coinbase_hash CoinBaseHashV1Json;
    w_epoch_seed r_epoch_seed b_epoch_seed EpochSeedHashV1Json;
    w_state_hash r_state_hash b_state_hash StateHashV1Json;
    w_body_hash r_body_hash b_body_hash StateBodyHashV1Json;
    w_stack_data r_stack_data b_stack_data CoinBaseStackDataV1Json;
    w_stack_hash r_stack_hash b_stack_hash CoinBaseStackHashV1Json;
    w_vrf_hash r_vrf_hash b_vrf_hash VrfOutputHashV1Json;
    w_aux r_aux b_aux AuxHashJson;
    w_pending_aux r_pending_aux b_pending_aux PendingCoinbaseAuxHashJson;
    w_vrf64 r_vrf64 b_vrf64 VrfOutputTruncatedBase64Json;
    w_vrf58 r_vrf58 b_vrf58 VrfOutputTruncatedBase58Json;
    w_field r_field b_field FieldElementJson;
    w_key r_key b_key PublicKeyJson;
    w_signature r_signature b_signature SignatureJson;
    w_memo r_memo b_memo SignedCommandMemoJson;
    w_proof r_proof b_proof ProtocolStateProofBase64Json;
}

macro_rules! listed { ($($w:ident $r:ident $t:ty;)*) => { $(
    pub fn $w(v: &$t) -> Result<serde_json::Value, TErr> { v.serialize(ValueSer) }
    pub fn $r(s: serde_json::Value) -> Result<$t, TErr> { <$t>::deserialize(ValueDe(s)) }
)* } }
listed! {
    wl_one_or_two rl_one_or_two OneORTwoJson;
    wl_sgn rl_sgn SgnTypeJson;
    wl_command rl_command UserCommandJson;
    wl_body rl_body SignedCommandPayloadBodyJson;
    wl_delegation rl_delegation StakeDelegationJson;
    wl_status rl_status TransactionStatusJson;
    wl_coinbase rl_coinbase CoinBaseJson;
    wl_balance rl_balance InternalCommandBalanceDataJson;
    wl_shifted rl_shifted ShiftedValueJson;
    wl_point rl_point ECPointJson;
    wl_challenge rl_challenge BulletproofPreChallengeJson;
}

pub fn fmt_amount(v: &mina_rs_base::numbers::Amount, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(v, f)
}
pub fn parse_amount(s: &str) -> Result<mina_rs_base::numbers::Amount, mina_rs_base::numbers::ParseAmountError> {
    <mina_rs_base::numbers::Amount as std::str::FromStr>::from_str(s)
}
pub fn memo_of(s: &[u8]) -> Result<mina_rs_base::user_commands::SignedCommandMemo, mina_rs_base::user_commands::memo::SignedCommandMemoError> {
    mina_rs_base::user_commands::SignedCommandMemo::try_from_text(s)
}
pub fn memo_text(m: &mina_rs_base::user_commands::SignedCommandMemo) -> String {
    m.to_text()
}
pub fn memo_back(s: &[u8]) -> Option<String> {
    mina_rs_base::user_commands::SignedCommandMemo::try_from_text(s).ok().map(|m| m.to_text())
}

macro_rules! strconv { ($($s:ident $d:ident $t:ty;)*) => { $(
    pub fn $s(s: &str) -> Result<$t, serde_json::Error> { <$t as std::str::FromStr>::from_str(s) }
    pub fn $d(v: &$t, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(v, f) }
)* } }
strconv! {
    s_body_hash d_body_hash mina_crypto::hash::StateBodyHash;
    s_state_hash d_state_hash mina_crypto::hash::StateHash;
    s_ledger_hash d_ledger_hash mina_crypto::hash::LedgerHash;
    s_chain_hash d_chain_hash mina_crypto::hash::ChainHash;
    s_coinbase_hash d_coinbase_hash mina_crypto::hash::CoinBaseHash;
    s_epoch_seed d_epoch_seed mina_crypto::hash::EpochSeed;
    s_aux d_aux mina_crypto::hash::AuxHash;
    s_pending_aux d_pending_aux mina_crypto::hash::PendingCoinbaseAuxHash;
    s_vrf_hash d_vrf_hash mina_crypto::hash::VrfOutputHash;
    s_vrf64 d_vrf64 mina_rs_base::consensus_state::VrfOutputTruncated;
    s_memo d_memo mina_rs_base::user_commands::SignedCommandMemo;
    s_char d_char mina_rs_base::numbers::Char;
    s_point d_point mina_serialization_types::signatures::CompressedCurvePoint;
}
pub fn s_vrf58(s: &str) -> anyhow::Result<mina_rs_base::consensus_state::VrfOutputTruncated> {
    mina_rs_base::consensus_state::VrfOutputTruncated::from_base58_str(s)
}
pub fn d_vrf58(v: &mina_rs_base::consensus_state::VrfOutputTruncated) -> anyhow::Result<String> {
    v.to_base58_string()
}
macro_rules! value { ($($n:ident $t:ty;)*) => { $( pub fn $n(v: &serde_json::Value) -> anyhow::Result<$t> { <$t>::try_from(v) } )* } }
value! {
    v_ledger_hash mina_crypto::hash::LedgerHash;
    v_coinbase_hash mina_crypto::hash::CoinBaseHash;
    v_aux mina_crypto::hash::AuxHash;
    v_pending_aux mina_crypto::hash::PendingCoinbaseAuxHash;
}
macro_rules! graphql { ($($n:ident $t:ty;)*) => { $( pub fn $n(json: &serde_json::Value) -> anyhow::Result<$t> {
    <$t as mina_rs_base::from_graphql_json::FromGraphQLJson>::from_graphql_json(json)
} )* } }
graphql! {
    g_account mina_rs_base::account::Account;
    g_permissions mina_rs_base::account::permissions::Permissions;
    g_timing mina_rs_base::account::timing::Timing;
    g_timed mina_rs_base::account::timing::TimedData;
    g_epoch_ledger mina_rs_base::epoch_data::EpochLedger;
    g_epoch_data mina_rs_base::epoch_data::EpochData;
    g_blockchain mina_rs_base::blockchain_state::BlockchainState;
    g_consensus mina_rs_base::consensus_state::ConsensusState;
    g_body mina_rs_base::protocol_state::ProtocolStateBody;
    g_state mina_rs_base::protocol_state::ProtocolState;
}

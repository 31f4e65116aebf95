//! Entry points of the analysis of the wire types: writing and reading every top level message.
use bin_prot::error::Error;
use bin_prot::{from_reader, to_writer};
use mina_serialization_types::{unversioned, v1};
use std::io::{Read, Write};

macro_rules! message { ($($w:ident $r:ident $t:ty;)*) => { $(
    pub fn $w<W: Write>(w: &mut W, v: &$t) -> Result<(), Error> { to_writer(w, v) }
    pub fn $r<R: Read>(r: R) -> Result<$t, Error> { from_reader(r) }
)* } }

message! {
    w_external_transition r_external_transition v1::ExternalTransitionV1;
    w_protocol_state r_protocol_state v1::ProtocolStateV1;
    w_snark_work r_snark_work v1::TransactionSnarkWorkV1;
    w_account_v0 r_account_v0 unversioned::AccountV0;
    w_account_v1 r_account_v1 v1::AccountV1;
}

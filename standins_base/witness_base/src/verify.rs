//! The verification of commands, diffs and blocks in any context, and the signing of commands.
use mina_rs_base::types::*;
use mina_rs_base::verifiable::Verifiable;
use mina_rs_base::user_commands::*;
use proof_systems::mina_signer::{Keypair, NetworkId, PubKey, Signature, Signer};

pub struct Any;
extern "Rust" {
    fn opaque_valid(sig: &Signature, public: &PubKey, input: &SignedCommandPayload) -> bool;
    fn opaque_signed(kp: &Keypair, input: &SignedCommandPayload) -> Signature;
}
impl Signer<SignedCommandPayload> for Any {
    fn sign(&mut self, kp: &Keypair, input: &SignedCommandPayload) -> Signature {
        unsafe { opaque_signed(kp, input) }
    }
    fn verify(&mut self, sig: &Signature, public: &PubKey, input: &SignedCommandPayload) -> bool {
        unsafe { opaque_valid(sig, public, input) }
    }
}

pub fn command(v: &SignedCommand, c: &mut Any) -> bool {
    v.verify(c)
}
pub fn user_command(v: &UserCommand, c: &mut Any) -> bool {
    v.verify(c)
}
pub fn pre_diff(v: &StagedLedgerPreDiff, c: &mut Any) -> bool {
    v.verify(c)
}
pub fn diff(v: &StagedLedgerDiff, c: &mut Any) -> bool {
    v.verify(c)
}
pub fn block(v: &ExternalTransition, c: &mut Any) -> bool {
    v.verify(c)
}
pub fn sign(p: SignedCommandPayload, k: Keypair, n: NetworkId) -> SignedCommand {
    SignedCommand::from_payload(p, k, n)
}
pub fn sign_into(p: SignedCommandPayload, k: Keypair, n: NetworkId) -> SignedCommand {
    p.into_signed_command(k, n)
}

use mina_rs_base::user_commands::signed_command::builder::SignedTransferCommandBuilder as B;
use proof_systems::mina_signer::CompressedPubKey as Key;

fn new(from: Key, to: Key, amount: u64, fee: u64, nonce: u32) -> B {
    B::new(from, to, amount, fee, nonce)
}
pub fn built(from: Key, to: Key, amount: u64, fee: u64, nonce: u32) -> SignedCommandPayload {
    new(from, to, amount, fee, nonce).build()
}
pub fn built_token(from: Key, to: Key, amount: u64, fee: u64, nonce: u32, x: u64) -> SignedCommandPayload {
    new(from, to, amount, fee, nonce).transfer_token(x).build()
}
pub fn built_fee_token(from: Key, to: Key, amount: u64, fee: u64, nonce: u32, x: u64) -> SignedCommandPayload {
    new(from, to, amount, fee, nonce).fee_token(x).build()
}
pub fn built_payer(from: Key, to: Key, amount: u64, fee: u64, nonce: u32, x: Key) -> SignedCommandPayload {
    new(from, to, amount, fee, nonce).fee_payer(x).build()
}
pub fn built_memo(from: Key, to: Key, amount: u64, fee: u64, nonce: u32, x: SignedCommandMemo) -> SignedCommandPayload {
    new(from, to, amount, fee, nonce).memo(x).build()
}
pub fn built_until(from: Key, to: Key, amount: u64, fee: u64, nonce: u32, x: u32) -> SignedCommandPayload {
    new(from, to, amount, fee, nonce).valid_until(x).build()
}
pub fn built_all(from: Key, to: Key, amount: u64, fee: u64, nonce: u32, t: u64, f: u64, k: Key, m: SignedCommandMemo, u: u32) -> SignedCommandPayload {
    new(from, to, amount, fee, nonce).memo(m).valid_until(u).transfer_token(t).fee_payer(k).fee_token(f).build()
}

//! Entry points of the analysis of wallets. Every `pub fn` is a root; nothing here is ever executed.
use mina_secrets::secret_box::*;

pub fn parse(s: &str) -> Result<SecretBox, Error> {
    SecretBox::try_from(s)
}
pub fn open(s: &str, password: &[u8]) -> Result<Vec<u8>, Error> {
    SecretBox::try_from(s)?.get_private_key_bytes(password)
}
pub fn keypair(s: &str, password: &[u8]) -> Result<Keypair, Error> {
    SecretBox::try_from(s)?.get_keypair(password)
}
pub fn rewrite(s: &str) -> Result<String, Error> {
    SecretBox::try_from(s)?.try_into()
}

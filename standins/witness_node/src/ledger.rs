use mina_merkle::*;
use proof_systems::mina_hasher::{Fp, Hashable, ROInput};
use proof_systems::FpJson;

#[derive(Clone)]
pub struct Item(pub u64, pub u64);
impl Hashable for Item {
    type D = ();
    fn to_roinput(&self) -> ROInput {
        ROInput::new().append_field(Fp(self.0)).append_field(Fp(self.1))
    }
    fn domain_string(_: ()) -> Option<String> {
        Some("item".to_string())
    }
}

pub fn merge_legacy(l: Option<Fp>, r: Option<Fp>, index: usize, height: u32) -> Option<Fp> {
    MinaPoseidonMerkleMergerLegacy::merge([l, r], MerkleTreeNodeMetadata::new(index, height))
}
pub fn merge_kimchi(l: Option<Fp>, r: Option<Fp>, index: usize, height: u32) -> Option<Fp> {
    MinaPoseidonMerkleMerger::merge([l, r], MerkleTreeNodeMetadata::new(index, height))
}
/// both kinds of tree in one program, one after the other
pub fn merge_both(l: Option<Fp>, r: Option<Fp>, index: usize, height: u32) -> (Option<Fp>, Option<Fp>, Option<Fp>) {
    (merge_legacy(l, r, index, height), merge_kimchi(l, r, index, height), merge_legacy(l, r, index, height))
}
pub fn leaf_legacy(a: u64, b: u64, index: usize, height: u32) -> Fp {
    MinaPoseidonMerkleHasherLegacy::hash(&Item(a, b), MerkleTreeNodeMetadata::new(index, height))
}
pub fn leaf_kimchi(a: u64, b: u64, index: usize, height: u32) -> Fp {
    MinaPoseidonMerkleHasher::hash(&Item(a, b), MerkleTreeNodeMetadata::new(index, height))
}

pub struct Leaf;
impl MerkleHasher for Leaf {
    type Item = u64;
    type Hash = Fp;
    fn hash(item: &u64, _: MerkleTreeNodeMetadata) -> Fp {
        Fp(*item)
    }
}
pub fn path(nodes: Vec<(Option<u64>, Option<u64>)>, item: u64) -> Option<(usize, u64, Vec<usize>, Vec<Option<Fp>>)> {
    let f = |x: Option<u64>| x.map(|x| FpJson(Fp(x)));
    let path = MerklePath(nodes.into_iter().map(|(left, right)| MerklePathNode { left: f(left), right: f(right) }).collect());
    let p: DefaultMerkleProof<u64, Fp, Leaf, MinaPoseidonMerkleMerger> = path.to_proof(item).ok()?;
    Some((p.index, p.item, p.peer_indices, p.peer_hashes))
}

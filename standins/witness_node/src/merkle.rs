use mina_merkle::*;
use proof_systems::mina_hasher::Fp;

extern "Rust" {
    fn opaque_leaf(item: u64, depth: u32, height: u32) -> u64;
    fn opaque_merge(left: Option<u64>, right: Option<u64>, depth: u32, height: u32) -> Option<u64>;
}

pub struct Leaf;
impl MerkleHasher for Leaf {
    type Item = u64;
    type Hash = u64;
    fn hash(item: &u64, m: MerkleTreeNodeMetadata) -> u64 {
        unsafe { opaque_leaf(*item, m.depth(), m.height()) }
    }
}
pub struct Merge;
impl MerkleMerger for Merge {
    type Hash = u64;
    fn merge(h: [Option<u64>; 2], m: MerkleTreeNodeMetadata) -> Option<u64> {
        let [l, r] = h;
        unsafe { opaque_merge(l, r, m.depth(), m.height()) }
    }
}

pub type Proof = DefaultMerkleProof<u64, u64, Leaf, Merge>;

pub fn metadata(index: usize, height: u32) -> (u32, u32) {
    let m = MerkleTreeNodeMetadata::new(index, height);
    (m.depth(), m.height())
}
pub fn merge_legacy(l: Option<Fp>, r: Option<Fp>, index: usize, height: u32) -> Option<Fp> {
    MinaPoseidonMerkleMergerLegacy::merge([l, r], MerkleTreeNodeMetadata::new(index, height))
}
pub fn merge_kimchi(l: Option<Fp>, r: Option<Fp>, index: usize, height: u32) -> Option<Fp> {
    MinaPoseidonMerkleMerger::merge([l, r], MerkleTreeNodeMetadata::new(index, height))
}

fn proof(index: usize, item: u64, peer_indices: Vec<usize>, peer_hashes: Vec<Option<u64>>) -> Proof {
    DefaultMerkleProof {
        index,
        item,
        peer_indices,
        peer_hashes,
        _hasher: Default::default(),
        _merger: Default::default(),
    }
}
pub fn root_hash_0(index: usize, item: u64) -> Result<u64, MerkleProofError> {
    proof(index, item, vec![], vec![]).root_hash()
}
pub fn root_hash_1(index: usize, item: u64, i0: usize, h0: Option<u64>) -> Result<u64, MerkleProofError> {
    proof(index, item, vec![i0], vec![h0]).root_hash()
}
pub fn verify_1(index: usize, item: u64, i0: usize, h0: Option<u64>, root: u64) -> bool {
    proof(index, item, vec![i0], vec![h0]).verify(&root)
}
pub fn root_hash_2(index: usize, item: u64, i0: usize, h0: Option<u64>, i1: usize, h1: Option<u64>) -> Result<u64, MerkleProofError> {
    proof(index, item, vec![i0, i1], vec![h0, h1]).root_hash()
}
pub fn verify_2(index: usize, item: u64, i0: usize, h0: Option<u64>, i1: usize, h1: Option<u64>, root: u64) -> bool {
    proof(index, item, vec![i0, i1], vec![h0, h1]).verify(&root)
}
pub fn root_hash_3(index: usize, item: u64, i0: usize, h0: Option<u64>, i1: usize, h1: Option<u64>, i2: usize, h2: Option<u64>) -> Result<u64, MerkleProofError> {
    proof(index, item, vec![i0, i1, i2], vec![h0, h1, h2]).root_hash()
}
pub fn verify_3(index: usize, item: u64, i0: usize, h0: Option<u64>, i1: usize, h1: Option<u64>, i2: usize, h2: Option<u64>, root: u64) -> bool {
    proof(index, item, vec![i0, i1, i2], vec![h0, h1, h2]).verify(&root)
}
pub fn root_hash_4(index: usize, item: u64, i0: usize, h0: Option<u64>, i1: usize, h1: Option<u64>, i2: usize, h2: Option<u64>, i3: usize, h3: Option<u64>) -> Result<u64, MerkleProofError> {
    proof(index, item, vec![i0, i1, i2, i3], vec![h0, h1, h2, h3]).root_hash()
}
pub fn root_hash_5(index: usize, item: u64, i0: usize, h0: Option<u64>, i1: usize, h1: Option<u64>, i2: usize, h2: Option<u64>, i3: usize, h3: Option<u64>, i4: usize, h4: Option<u64>) -> Result<u64, MerkleProofError> {
    proof(index, item, vec![i0, i1, i2, i3, i4], vec![h0, h1, h2, h3, h4]).root_hash()
}
pub fn uneven_2_1(index: usize, item: u64, i0: usize, i1: usize, h0: Option<u64>) -> Result<u64, MerkleProofError> {
    proof(index, item, vec![i0, i1], vec![h0]).root_hash()
}
pub fn uneven_1_2(index: usize, item: u64, i0: usize, h0: Option<u64>, h1: Option<u64>) -> Result<u64, MerkleProofError> {
    proof(index, item, vec![i0], vec![h0, h1]).root_hash()
}
pub fn uneven_3_2(index: usize, item: u64, i0: usize, i1: usize, i2: usize, h0: Option<u64>, h1: Option<u64>) -> Result<u64, MerkleProofError> {
    proof(index, item, vec![i0, i1, i2], vec![h0, h1]).root_hash()
}
pub fn deep_20_first(item: u64, pi: [usize; 20], ph: [Option<u64>; 20]) -> Result<u64, MerkleProofError> {
    proof(1048575, item, pi.to_vec(), ph.to_vec()).root_hash()
}
pub fn deep_20_last(item: u64, pi: [usize; 20], ph: [Option<u64>; 20]) -> Result<u64, MerkleProofError> {
    proof(2097150, item, pi.to_vec(), ph.to_vec()).root_hash()
}
pub fn deep_20_mixed(item: u64, pi: [usize; 20], ph: [Option<u64>; 20]) -> Result<u64, MerkleProofError> {
    proof(1418660, item, pi.to_vec(), ph.to_vec()).root_hash()
}
pub fn deep_29_last(item: u64, pi: [usize; 29], ph: [Option<u64>; 29]) -> Result<u64, MerkleProofError> {
    proof(1073741822, item, pi.to_vec(), ph.to_vec()).root_hash()
}
pub fn deep_35_ledger(item: u64, pi: [usize; 35], ph: [Option<u64>; 35]) -> Result<u64, MerkleProofError> {
    proof(39246456712, item, pi.to_vec(), ph.to_vec()).root_hash()
}
pub fn deep_35_last(item: u64, pi: [usize; 35], ph: [Option<u64>; 35]) -> Result<u64, MerkleProofError> {
    proof(68719476734, item, pi.to_vec(), ph.to_vec()).root_hash()
}
pub fn deep_63_last(item: u64, pi: [usize; 63], ph: [Option<u64>; 63]) -> Result<u64, MerkleProofError> {
    proof(18446744073709551614, item, pi.to_vec(), ph.to_vec()).root_hash()
}
pub fn deep_63_first(item: u64, pi: [usize; 63], ph: [Option<u64>; 63]) -> Result<u64, MerkleProofError> {
    proof(9223372036854775807, item, pi.to_vec(), ph.to_vec()).root_hash()
}

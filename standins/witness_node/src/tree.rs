use mina_merkle::*;

extern "Rust" {
    fn opaque_item(item: u64) -> u64;
    fn opaque_node(left: Option<u64>, right: Option<u64>, height: u32) -> u64;
}

pub struct Leaf;
impl MerkleHasher for Leaf {
    type Item = u64;
    type Hash = u64;
    fn hash(item: &u64, _: MerkleTreeNodeMetadata) -> u64 {
        unsafe { opaque_item(*item) }
    }
}
/// has a hash for every node, as the Poseidon mergers do
pub struct Total;
impl MerkleMerger for Total {
    type Hash = u64;
    fn merge(h: [Option<u64>; 2], m: MerkleTreeNodeMetadata) -> Option<u64> {
        let [l, r] = h;
        Some(unsafe { opaque_node(l, r, m.height()) })
    }
}
/// has none for a node without items below it
pub struct Partial;
impl MerkleMerger for Partial {
    type Hash = u64;
    fn merge(h: [Option<u64>; 2], m: MerkleTreeNodeMetadata) -> Option<u64> {
        match h {
            [None, None] => None,
            [l, r] => Some(unsafe { opaque_node(l, r, m.height()) }),
        }
    }
}

type Var<M> = MinaMerkleTree<u64, u64, Leaf, M, VariableHeightMode>;
type Fix<M> = MinaMerkleTree<u64, u64, Leaf, M, FixedHeightMode>;

/// items in three batches; the root is asked for in between or not
fn grow<T: MerkleTree<Item = u64, Hash = u64>>(t: &mut T, a: Vec<u64>, b: Vec<u64>, c: Vec<u64>, ask: bool) -> (Option<u64>, Option<u64>, Option<u64>, usize, u32) {
    t.add_batch(a);
    let x = if ask { t.root() } else { None };
    t.add_batch(b);
    let y = if ask { t.root() } else { None };
    t.add_batch(c);
    (x, y, t.root(), t.count(), t.height())
}
pub fn var_total(a: Vec<u64>, b: Vec<u64>, c: Vec<u64>, ask: bool) -> (Option<u64>, Option<u64>, Option<u64>, usize, u32) {
    grow(&mut Var::<Total>::new(), a, b, c, ask)
}
pub fn var_partial(a: Vec<u64>, b: Vec<u64>, c: Vec<u64>, ask: bool) -> (Option<u64>, Option<u64>, Option<u64>, usize, u32) {
    grow(&mut Var::<Partial>::new(), a, b, c, ask)
}
pub fn fix_total(height: u32, a: Vec<u64>, b: Vec<u64>, c: Vec<u64>, ask: bool) -> (Option<u64>, Option<u64>, Option<u64>, usize, u32) {
    grow(&mut Fix::<Total>::new(height), a, b, c, ask)
}
pub fn fix_partial(height: u32, a: Vec<u64>, b: Vec<u64>, c: Vec<u64>, ask: bool) -> (Option<u64>, Option<u64>, Option<u64>, usize, u32) {
    grow(&mut Fix::<Partial>::new(height), a, b, c, ask)
}

type Parts = Option<(usize, u64, Vec<usize>, Vec<Option<u64>>)>;
fn parts<M: MerkleMerger<Hash = u64>>(p: Option<DefaultMerkleProof<u64, u64, Leaf, M>>) -> Parts {
    p.map(|p| (p.index, p.item, p.peer_indices, p.peer_hashes))
}
pub fn proof_var_total(a: Vec<u64>, b: Vec<u64>, ask: bool, at: usize) -> Parts {
    let mut t = Var::<Total>::new();
    t.add_batch(a);
    if ask {
        t.root();
    }
    t.add_batch(b);
    parts(t.get_proof(at))
}
pub fn proof_var_partial(a: Vec<u64>, b: Vec<u64>, ask: bool, at: usize) -> Parts {
    let mut t = Var::<Partial>::new();
    t.add_batch(a);
    if ask {
        t.root();
    }
    t.add_batch(b);
    parts(t.get_proof(at))
}
pub fn proof_fix_total(height: u32, a: Vec<u64>, b: Vec<u64>, ask: bool, at: usize) -> Parts {
    let mut t = Fix::<Total>::new(height);
    t.add_batch(a);
    if ask {
        t.root();
    }
    t.add_batch(b);
    parts(t.get_proof(at))
}
pub fn proof_fix_partial(height: u32, a: Vec<u64>, b: Vec<u64>, ask: bool, at: usize) -> Parts {
    let mut t = Fix::<Partial>::new(height);
    t.add_batch(a);
    if ask {
        t.root();
    }
    t.add_batch(b);
    parts(t.get_proof(at))
}
pub fn with_capacity(n: usize, a: Vec<u64>) -> Option<u64> {
    let mut t = Var::<Total>::with_capacity(n);
    t.add_batch(a);
    t.root()
}

@module binary::hash
@items
use crate::vx_deps::*;
pub type H32 = [u8; 32];
/// SHA-256(0x01 || l || r)
pub open spec fn hnode(l: H32, r: H32) -> H32 { sha256(seq![1u8] + l@ + r@) }
/// SHA-256(0x00 || data)
pub open spec fn hleaf(d: Seq<u8>) -> H32 { sha256(seq![0u8] + d) }
/// the combining operation of the tree
pub open spec fn hop() -> crate::lem_mmr::Op<H32> { |l: H32, r: H32| hnode(l, r) }
/// SHA-256 of the empty string
pub open spec fn hempty() -> H32 { sha256(Seq::empty()) }
@fn empty_sum
@ret r
@spec
    ensures *r == hempty()
@tail t
@at end
    proof {
        broadcast use crate::common::axiom_sha256_empty;
        assert(*t =~= hempty());
    }
@fn node_sum
@ret r
@spec
    ensures r == sha256(seq![1u8] + lhs_data@ + rhs_data@)
@at end
    proof { assert(Seq::<u8>::empty() + seq![1u8] =~= seq![1u8]); }
@fn leaf_sum
@ret r
@spec
    ensures r == hleaf(data@)
@at end
    proof { assert(Seq::<u8>::empty() + seq![0u8] =~= seq![0u8]); }

@module binary::node
@items
use crate::lem_pos::*;
use crate::binary::hash::{hnode, hleaf};
@fn Node::new
@ret r
@spec
    ensures r.position == position, r.hash == hash
@fn Node::create_leaf
@ret r
@spec
    requires index < 0x8000_0000_0000_0000
    ensures r.position.0 == 2 * index, r.hash == hleaf(data@)
@fn Node::create_node
@ret r
@spec
    requires left_child.position.0 < 0x8000_0000_0000_0000, hof(left_child.position.0) <= 62
    ensures
        r.position.0 == pidx(hof(left_child.position.0) + 1, kof(left_child.position.0) / 2),
        r.hash == hnode(left_child.hash, right_child.hash),
@fn Node::position
@ret r
@spec
    ensures r == self.position
@fn Node::key
@ret r
@spec
    ensures r == self.position.0
@fn Node::hash
@ret r
@spec
    ensures *r == self.hash
@fn Node@AsRef<Node>::as_ref
@ret r
@spec
    ensures *r == *self

@module binary::primitive
@trait PrimitiveView
    spec fn pv_position(&self) -> Position;
    spec fn pv_hash(&self) -> Bytes32;
@fn PrimitiveView::position
@ret r
@spec
    ensures r == self.pv_position()
@fn PrimitiveView::hash
@ret r
@spec
    ensures *r == self.pv_hash()
@impl Primitive@PrimitiveView
    open spec fn pv_position(&self) -> Position { Position(self.0) }
    open spec fn pv_hash(&self) -> Bytes32 { self.1 }
@items
impl vstd::std_specs::convert::FromSpecImpl<&Node> for (u64, Bytes32) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &Node) -> Self { (v.position.0, v.hash) }
}
impl vstd::std_specs::convert::FromSpecImpl<(u64, Bytes32)> for Node {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: (u64, Bytes32)) -> Self { Node { position: Position(v.0), hash: v.1 } }
}
@fn Primitive@From<&Node>::from
@ret r
@spec
    ensures r == (node.position.0, node.hash)
@fn Node@From<Primitive>::from
@ret r
@spec
    ensures r.position.0 == primitive.0, r.hash == primitive.1

@module binary::merkle_tree
@item MerkleTreeError
impl<StorageError> vstd::std_specs::convert::FromSpecImpl<StorageError> for MerkleTreeError<StorageError> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: StorageError) -> Self { MerkleTreeError::<StorageError>::StorageError(v) }
}
@items
use crate::lem_pos::*;
use crate::lem_mmr::*;
use crate::vx_deps::*;
use crate::binary::hash::{H32, hnode, hleaf, hop, hempty};
use crate::common::position::pos_of;
use crate::common::position_path::{hk, hk_ppos, ppos, ppairs, small};
use vstd::arithmetic::power2::pow2;
broadcast use {crate::vx_deps::stored_as_same, crate::vx_deps::question_from};

/// trees of up to 2^62 - 2 leaves
pub open spec fn max_leaves() -> nat { 0x3fff_ffff_ffff_fffe }
pub type Entry = (u64, H32);
pub type SMap = Map<u64, Entry>;
/// the storage key of node (h, k)
pub open spec fn key_of(h: nat, k: nat) -> u64 { pidx(h, k) as u64 }
/// the Merkle hash of the subtree at (h, k) in the tree of the leaf hashes s
pub open spec fn bnh(h: nat, k: nat, s: Seq<H32>) -> H32 { nh(h, k, s, hop()) }
/// the entry of node (h, k) has the given hash
pub open spec fn holds(m: SMap, h: nat, k: nat, v: H32) -> bool {
    m.contains_key(key_of(h, k)) && m[key_of(h, k)] == (key_of(h, k), v)
}
/// every complete subtree of the leaves s is stored
pub open spec fn stored(m: SMap, s: Seq<H32>) -> bool {
    forall|h: nat, k: nat| #![trigger complete(h, k, s.len())] complete(h, k, s.len()) ==> holds(m, h, k, bnh(h, k, s))
}
/// the leaf hashes in storage
pub open spec fn leaf_hashes(m: SMap, n: nat) -> Seq<H32> { Seq::new(n, |i: int| m[(2 * i) as u64].1) }
/// the root of the tree of the leaf hashes s
pub open spec fn broot(s: Seq<H32>) -> H32 { if s.len() == 0 { hempty() } else { mth(s, hop()) } }
/// x is the key of a subtree completed by leaf n
pub open spec fn newly(x: u64, n: nat) -> bool { complete(hof(x), kof(x), n + 1) && !complete(hof(x), kof(x), n) }
/// only keys of subtrees completed by leaf n differ
pub open spec fn kept(a: SMap, b: SMap, n: nat) -> bool {
    forall|x: u64| #![trigger b.contains_key(x)] #![trigger b[x]] !newly(x, n) ==> a.contains_key(x) == b.contains_key(x) && a[x] == b[x]
}

/// the nodes of a list of subtrees
pub open spec fn lst(o: Option<Box<Subtree<Node>>>) -> Seq<Node>
    decreases o
{ match o { None => Seq::empty(), Some(b) => seq![b.node] + lst(b.next) } }
pub open spec fn sub(t: Subtree<Node>) -> Seq<Node> { seq![t.node] + lst(t.next) }
pub open spec fn node_of(q: HK, s: Seq<H32>) -> Node { Node { position: pos_of(q.0, q.1), hash: bnh(q.0, q.1, s) } }
pub open spec fn nodes_of(l: Seq<HK>, s: Seq<H32>) -> Seq<Node> { Seq::new(l.len(), |i: int| node_of(l[i], s)) }
/// the node that storage holds for (h, k)
pub open spec fn node_at(m: SMap, q: HK) -> Node { Node { position: Position(m[key_of(q.0, q.1)].0), hash: m[key_of(q.0, q.1)].1 } }
pub open spec fn nodes_at(m: SMap, l: Seq<HK>) -> Seq<Node> { Seq::new(l.len(), |i: int| node_at(m, l[i])) }

pub proof fn key_ok(h: nat, k: nat, n: nat)
    requires pvalid(h, k, n), n <= 0x3fff_ffff_ffff_ffff
    ensures
        key_of(h, k) == pidx(h, k), hof(key_of(h, k)) == h, kof(key_of(h, k)) == k,
        key_of(h, k) <= 2 * n - 2, h <= 62, key_of(h, k) < 0x7fff_ffff_ffff_ffff,
        pos_of(h, k).0 == key_of(h, k),
{
    pvalid_idx(h, k, n);
    pidx_nonneg(h, k);
    not_complete_is_part(h, k, n);
    hof_pidx(key_of(h, k), h, k);
    hk_ppos(pos_of(h, k));
}

pub proof fn key_inj(h: nat, k: nat, h2: nat, k2: nat, n: nat)
    requires pvalid(h, k, n), pvalid(h2, k2, n), n <= 0x3fff_ffff_ffff_ffff, key_of(h, k) == key_of(h2, k2)
    ensures h == h2, k == k2
{ key_ok(h, k, n); key_ok(h2, k2, n); }

pub proof fn complete_mono(h: nat, k: nat, a: nat, b: nat)
    requires complete(h, k, a), a <= b
    ensures complete(h, k, b)
{}

/// an empty tree has no complete subtrees
pub proof fn none_complete()
    ensures forall|h: nat, k: nat| #![trigger complete(h, k, 0)] !complete(h, k, 0),
        forall|s: Seq<H32>| #![trigger nodes_of(pkl(0, 0), s)] nodes_of(pkl(0, 0), s) == Seq::<Node>::empty(),
{
    assert forall|h: nat, k: nat| #![trigger complete(h, k, 0)] !complete(h, k, 0) by { pow2_pos(h); }
    assert forall|s: Seq<H32>| #![trigger nodes_of(pkl(0, 0), s)] nodes_of(pkl(0, 0), s) == Seq::<Node>::empty() by {
        assert(nodes_of(pkl(0, 0), s) =~= Seq::<Node>::empty());
    }
}

pub proof fn newly_eq(h: nat, k: nat, n: nat)
    requires complete(h, k, n + 1), !complete(h, k, n)
    ensures (k + 1) * pow2(h) == n + 1
{
    let p = pow2(h);
    assert((k + 1) * p == k * p + p) by (nonlinear_arith);
}

pub proof fn new_node(j: nat, m: nat, n: nat)
    requires (m + 1) * pow2(j) == n + 1
    ensures complete(j, m, n + 1), !complete(j, m, n)
{
    let p = pow2(j);
    assert((m + 1) * p == m * p + p) by (nonlinear_arith);
}

/// subtrees completed by the same leaf: at most one per height, and none above
/// one with an even offset
pub proof fn new_only(h: nat, k: nat, j: nat, m: nat, n: nat)
    requires complete(h, k, n + 1), !complete(h, k, n), (m + 1) * pow2(j) == n + 1
    ensures h == j ==> k == m, m % 2 == 0 ==> h <= j
{
    newly_eq(h, k, n);
    pow2_pos(h);
    pow2_pos(j);
    if h == j {
        let p = pow2(h);
        assert(k == m) by (nonlinear_arith) requires (k + 1) * p == (m + 1) * p, p > 0;
    }
    if h > j && m % 2 == 0 {
        let d = (h - j - 1) as nat;
        pow2_add(j + 1, d);
        pow2_step(j);
        let p = pow2(j);
        let q = pow2(d);
        let a = (k + 1) * q;
        assert(pow2(h) == (2 * p) * q);
        assert((k + 1) * ((2 * p) * q) == (2 * a) * p) by (nonlinear_arith) requires a == (k + 1) * q;
        assert(2 * a == m + 1) by (nonlinear_arith) requires (2 * a) * p == (m + 1) * p, p > 0;
    }
}

/// all complete subtrees are stored, but for those completed by leaf n that are higher than j
pub open spec fn stored_but(m: SMap, s: Seq<H32>, n: nat, j: nat) -> bool {
    forall|h: nat, k: nat| #![trigger complete(h, k, n + 1)] complete(h, k, n + 1) && (complete(h, k, n) || h <= j) ==> holds(m, h, k, bnh(h, k, s))
}

/// the list of subtrees while leaf n is being joined: it has been joined up to (j, m)
pub open spec fn joining(l: Seq<Node>, j: nat, m: nat, s: Seq<H32>) -> bool {
    &&& (m + 1) * pow2(j) == s.len()
    &&& l == seq![node_of((j, m), s)] + nodes_of(pkl(j, m), s)
}

/// looking at the first two subtrees
pub proof fn join_look(l: Seq<Node>, j: nat, m: nat, s: Seq<H32>)
    requires joining(l, j, m, s), 1 <= s.len() <= 0x3fff_ffff_ffff_ffff
    ensures
        l.len() >= 1,
        hof(l[0].position.0) == j, kof(l[0].position.0) == m, l[0].position.0 < 0x7fff_ffff_ffff_ffff, j <= 62,
        l[0] == node_of((j, m), s),
        (l.len() > 1 && hof(l[1].position.0) == j) == (m % 2 == 1),
        m % 2 == 1 ==> l.len() > 1 && l[1] == node_of((j, (m - 1) as nat), s) && kof(l[1].position.0) == m - 1
            && l[1].position.0 < 0x7fff_ffff_ffff_ffff,
{
    let n = (s.len() - 1) as nat;
    new_node(j, m, n);
    complete_valid(j, m, s.len());
    key_ok(j, m, s.len());
    let p = pkl(j, m);
    assert(l[0] == node_of((j, m), s));
    if p.len() > 0 {
        pkl_elems(j, m, 0);
        let q = p[0];
        assert(l[1] == node_of(q, s));
        pow2_pos(j);
        let w = pow2(j);
        assert(m * w + w == (m + 1) * w) by (nonlinear_arith);
        complete_mono(q.0, q.1, m * w, s.len());
        complete_valid(q.0, q.1, s.len());
        key_ok(q.0, q.1, s.len());
    }
}

/// joining the first two subtrees
pub proof fn join_step(l: Seq<Node>, j: nat, m: nat, s: Seq<H32>)
    requires joining(l, j, m, s), 1 <= s.len() <= 0x3fff_ffff_ffff_ffff, m % 2 == 1
    ensures
        hnode(bnh(j, (m - 1) as nat, s), bnh(j, m, s)) == bnh(j + 1, m / 2, s),
        joining(seq![node_of((j + 1, m / 2), s)] + l.skip(2), j + 1, m / 2, s),
        complete(j + 1, m / 2, s.len()), !complete(j + 1, m / 2, (s.len() - 1) as nat),
        key_of(j + 1, m / 2) == pidx(j + 1, m / 2), hof(key_of(j + 1, m / 2)) == j + 1, kof(key_of(j + 1, m / 2)) == m / 2,
{
    let n = (s.len() - 1) as nat;
    let q = m / 2;
    let p = pow2(j);
    new_node(j, m, n);
    pow2_step(j);
    assert((q + 1) * (2 * p) == (m + 1) * p) by (nonlinear_arith) requires m == 2 * q + 1;
    new_node(j + 1, q, n);
    complete_valid(j, m, s.len());
    complete_valid(j + 1, q, s.len());
    key_ok(j + 1, q, s.len());
    assert(m == 2 * q + 1);
    assert(l.skip(2) =~= nodes_of(pkl(j + 1, q), s));
}

/// nothing left to join: the list is the list of peaks
pub proof fn join_done(l: Seq<Node>, m0: SMap, j: nat, m: nat, s: Seq<H32>)
    requires joining(l, j, m, s), 1 <= s.len() <= 0x3fff_ffff_ffff_ffff, m % 2 == 0, stored_but(m0, s, (s.len() - 1) as nat, j)
    ensures l == nodes_of(pkl(0, s.len()), s), stored(m0, s)
{
    let n = (s.len() - 1) as nat;
    pkl_scale(0, m + 1, j);
    assert((m + 1) % 2 == 1 && (m + 1) / 2 == m / 2);
    assert(pkl(j, m + 1) == seq![(j, m)] + pkl(j + 1, m / 2));
    if m == 0 { assert(pkl(j + 1, 0) =~= pkl(j, 0)); }
    assert(l =~= nodes_of(seq![(j, m)] + pkl(j, m), s));
    assert forall|h: nat, k: nat| #![trigger complete(h, k, s.len())] complete(h, k, s.len()) implies holds(m0, h, k, bnh(h, k, s)) by {
        assert(complete(h, k, n + 1));
        if !complete(h, k, n) { new_only(h, k, j, m, n); }
    }
}

/// storing the joined node
pub proof fn join_store(m0: SMap, m1: SMap, j: nat, m: nat, s: Seq<H32>)
    requires
        1 <= s.len() <= 0x3fff_ffff_ffff_ffff, (m + 1) * pow2(j + 1) == s.len(),
        stored_but(m0, s, (s.len() - 1) as nat, j),
        m1 == m0.insert(key_of(j + 1, m), (key_of(j + 1, m), bnh(j + 1, m, s))),
    ensures stored_but(m1, s, (s.len() - 1) as nat, j + 1), newly(key_of(j + 1, m), (s.len() - 1) as nat),
{
    let n = (s.len() - 1) as nat;
    new_node(j + 1, m, n);
    complete_valid(j + 1, m, s.len());
    key_ok(j + 1, m, s.len());
    assert forall|h: nat, k: nat| #![trigger complete(h, k, n + 1)] complete(h, k, n + 1) && (complete(h, k, n) || h <= j + 1) implies holds(m1, h, k, bnh(h, k, s)) by {
        complete_valid(h, k, s.len());
        if key_of(h, k) == key_of(j + 1, m) {
            key_inj(h, k, j + 1, m, s.len());
        } else if !complete(h, k, n) && h == j + 1 {
            new_only(h, k, j + 1, m, n);
        }
    }
}

/// the stored leaves are the leaves
pub proof fn stored_leaves(m: SMap, s: Seq<H32>)
    requires stored(m, s), s.len() <= 0x3fff_ffff_ffff_ffff
    ensures leaf_hashes(m, s.len()) == s
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] leaf_hashes(m, s.len())[i] == s[i] by {
        pow2_63();
        assert(i * 1 == i);
        assert(first_leaf(0, i as nat) == i);
        assert(complete(0, i as nat, s.len()));
        assert(pidx(0, i as nat) == 2 * i) by (nonlinear_arith) requires pow2(0) == 1, pidx(0, i as nat) == (2 * i + 1) * pow2(0) - 1;
    }
    assert(leaf_hashes(m, s.len()) =~= s);
}

/// storing leaf n
pub proof fn leaf_store(m0: SMap, m1: SMap, s: Seq<H32>, v: H32)
    requires
        s.len() < max_leaves(), stored(m0, s),
        m1 == m0.insert((2 * s.len()) as u64, ((2 * s.len()) as u64, v)),
    ensures
        stored_but(m1, s.push(v), s.len(), 0),
        newly((2 * s.len()) as u64, s.len()),
        nodes_of(pkl(0, s.len()), s) == nodes_of(pkl(0, s.len()), s.push(v)),
        joining(seq![Node { position: Position((2 * s.len()) as u64), hash: v }] + nodes_of(pkl(0, s.len()), s), 0, s.len(), s.push(v)),
        leaf_hashes(m1, s.len() + 1) == s.push(v),
{
    let n = s.len();
    let t = s.push(v);
    pow2_63();
    assert((n + 1) * pow2(0) == n + 1) by (nonlinear_arith) requires pow2(0) == 1;
    new_node(0, n, n);
    complete_valid(0, n, n + 1);
    key_ok(0, n, n + 1);
    assert(pidx(0, n) == 2 * n) by (nonlinear_arith) requires pow2(0) == 1, pidx(0, n) == (2 * n + 1) * pow2(0) - 1;
    assert(bnh(0, n, t) == v);
    assert forall|h: nat, k: nat| #![trigger complete(h, k, n + 1)] complete(h, k, n + 1) && (complete(h, k, n) || h <= 0) implies holds(m1, h, k, bnh(h, k, t)) by {
        complete_valid(h, k, n + 1);
        if key_of(h, k) == key_of(0, n) {
            key_inj(h, k, 0, n, n + 1);
        } else {
            if !complete(h, k, n) { new_only(h, k, 0, n, n); }
            assert(complete(h, k, s.len()));
            nh_prefix(h, k, s, t, hop());
        }
    }
    assert forall|i: int| 0 <= i < pkl(0, n).len() implies node_of(#[trigger] pkl(0, n)[i], s) == node_of(pkl(0, n)[i], t) by {
        pkl_elems(0, n, i);
        assert(n * pow2(0) == n) by (nonlinear_arith) requires pow2(0) == 1;
        nh_prefix(pkl(0, n)[i].0, pkl(0, n)[i].1, s, t, hop());
    }
    assert(nodes_of(pkl(0, n), s) =~= nodes_of(pkl(0, n), t));
    stored_leaves(m0, s);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] leaf_hashes(m1, n + 1)[i] == t[i] by {
        if i < n { assert(leaf_hashes(m0, n)[i] == s[i]); }
    }
    assert(leaf_hashes(m1, n + 1) =~= t);
}

impl<TableType, StorageType, StorageError> MerkleTree<TableType, StorageType>
where
    TableType: Mappable<Key = u64, SetValue = Primitive, GetValue = Primitive>,
    StorageType: StorageInspect<TableType, Error = StorageError>,
{
    /// the leaf hashes of the tree
    pub open spec fn leaves(&self) -> Seq<H32> { leaf_hashes(self.storage.smap(), self.leaves_count as nat) }
    /// storage holds every complete subtree, and the tree its peaks
    pub open spec fn inv(&self) -> bool {
        &&& self.leaves_count <= max_leaves()
        &&& stored(self.storage.smap(), self.leaves())
        &&& lst(self.head) == nodes_of(pkl(0, self.leaves_count as nat), self.leaves())
    }
}
@fn MerkleTreeError@From<StorageError>::from
@ret r
@spec
    ensures r == MerkleTreeError::<StorageError>::StorageError(err)
@fn join_subtrees
@ret r
@spec
    requires old(lhs).node.position.0 < 0x8000_0000_0000_0000, hof(old(lhs).node.position.0) <= 62
    ensures
        r.node == joined(old(lhs).node, old(rhs).node),
        r.next == old(lhs).next,
@items
/// the parent of two nodes
pub open spec fn joined(l: Node, r: Node) -> Node {
    Node { position: pos_of(hof(l.position.0) + 1, kof(l.position.0) / 2), hash: hnode(l.hash, r.hash) }
}
@fn MerkleTree::new
@ret r
@spec
    ensures r.storage == storage, r.leaves_count == 0, r.inv(), r.leaves().len() == 0,
@at start
    proof { none_complete(); }
@fn MerkleTree::push
@ret r
@spec
    requires old(self).inv(), old(self).leaves_count < max_leaves(), StorageType::s_lawful(),
    ensures
        r is Ok ==> {
            &&& final(self).inv()
            &&& final(self).leaves() == old(self).leaves().push(hleaf(data@))
            &&& final(self).leaves_count == old(self).leaves_count + 1
            &&& kept(old(self).storage.smap(), final(self).storage.smap(), old(self).leaves_count as nat)
            &&& final(self).storage.sfail() == old(self).storage.sfail()
        },
        r matches Err(x) ==> {
            &&& x matches MerkleTreeError::StorageError(e) && StorageType::serr(e)
            &&& final(self).storage.sfail() == old(self).storage.sfail() + 1
        },
@at start
    proof {
        let k = (2 * self.leaves_count) as u64;
        let v = hleaf(data@);
        let m0 = self.storage.smap();
        let s = self.leaves();
        leaf_store(m0, m0.insert(k, (k, v)), s, v);
    }
@at end
    proof { stored_leaves(self.storage.smap(), old(self).leaves().push(hleaf(data@))); }
@fn MerkleTree::join_all_subtrees
@ret r
@spec
    requires
        StorageType::s_lawful(),
        old(self).leaves_count < max_leaves(),
        ({
            let n = old(self).leaves_count as nat;
            let s = leaf_hashes(old(self).storage.smap(), n + 1);
            joining(lst(old(self).head), 0, n, s) && stored_but(old(self).storage.smap(), s, n, 0)
        }),
    ensures
        final(self).leaves_count == old(self).leaves_count,
        r is Ok ==> ({
            let n = old(self).leaves_count as nat;
            let s = leaf_hashes(old(self).storage.smap(), n + 1);
            &&& stored(final(self).storage.smap(), s)
            &&& lst(final(self).head) == nodes_of(pkl(0, n + 1), s)
            &&& kept(old(self).storage.smap(), final(self).storage.smap(), n)
            &&& final(self).storage.sfail() == old(self).storage.sfail()
        }),
        r matches Err(e) ==> StorageType::serr(e) && final(self).storage.sfail() == old(self).storage.sfail() + 1,
@at start
    let ghost n = self.leaves_count as nat;
    let ghost s = leaf_hashes(self.storage.smap(), n + 1);
    let ghost mut j: nat = 0;
    let ghost mut m: nat = n;
@loop 1
    invariant
        StorageType::s_lawful(), n < max_leaves(), s.len() == n + 1,
        n == old(self).leaves_count, s == leaf_hashes(old(self).storage.smap(), n + 1),
        self.leaves_count == old(self).leaves_count,
        joining(lst(self.head), j, m, s),
        stored_but(self.storage.smap(), s, n, j),
        kept(old(self).storage.smap(), self.storage.smap(), n),
        self.storage.sfail() == old(self).storage.sfail(),
    ensures m % 2 == 0,
    decreases m,
@at loop 1 start
    let ghost l = lst(self.head);
    let ghost h0 = self.head;
    let ghost mp0 = self.storage.smap();
    proof {
        join_look(l, j, m, s);
        assert(self.head is Some);
        let b = self.head->0;
        assert(l == seq![b.node] + lst(b.next));
        if b.next is Some {
            assert(lst(b.next) == seq![b.next->0.node] + lst(b.next->0.next));
            assert(l.skip(2) =~= lst(b.next->0.next));
        }
    }
@at loop 1 end
    proof {
        join_step(l, j, m, s);
        join_store(mp0, self.storage.smap(), j, m / 2, s);
        assert(lst(self.head) =~= seq![node_of((j + 1, m / 2), s)] + l.skip(2));
        j = j + 1;
        m = m / 2;
    }
@at loop 1 after
    proof { join_done(lst(self.head), self.storage.smap(), j, m, s); }

@items
// ---- peaks and loading --------------------------------------------------------

/// the height of the smallest full tree with room for one more leaf
pub open spec fn room(h: nat, n: nat) -> bool { n < pow2(h) && (h > 0 ==> pow2((h - 1) as nat) <= n) }

pub proof fn room_ok(h: nat, n: nat)
    requires room(h, n), n <= max_leaves()
    ensures
        h <= 62, pidx(h, 0) == pow2(h) - 1, pidx(h, 0) < 0x4000_0000_0000_0000,
        hof(pidx(h, 0) as u64) == h, kof(pidx(h, 0) as u64) == 0, first_leaf(h, 0) == 0,
        pos_of(h, 0).0 == pidx(h, 0),
        under(h, 0, n),
{
    pow2_63();
    if h > 62 { pow2_mono(62, (h - 1) as nat); }
    pow2_mono(h, 62);
    pow2_pos(h);
    assert(pidx(h, 0) == pow2(h) - 1) by (nonlinear_arith) requires pidx(h, 0) == (2 * 0 + 1) * pow2(h) - 1;
    assert(first_leaf(h, 0) == 0) by (nonlinear_arith) requires first_leaf(h, 0) == 0 * pow2(h);
    hof_pidx(pidx(h, 0) as u64, h, 0);
    let p = pow2(h);
    assert(n / p == 0) by (nonlinear_arith) requires n < p;
}

pub open spec fn positions(l: Seq<HK>) -> Seq<Position> { Seq::new(l.len(), |i: int| ppos(l[i])) }

/// the side positions of the path to the next leaf are the peaks, after the first one
pub proof fn peaks_ok(h: nat, n: nat)
    requires room(h, n), n <= max_leaves()
    ensures ({
        let w = pwalk(h, 0, n, n + 1, (h, 0nat));
        &&& w.len() >= 1
        &&& seq_seconds(ppairs(w).skip(1)) == positions(rpk(h, n))
        &&& rev(rpk(h, n)) == pkl(0, n)
    })
{
    room_ok(h, n);
    pwalk_peaks(h, 0, n, (h, 0nat));
    rpk_all(h, n);
    let w = pwalk(h, 0, n, n + 1, (h, 0nat));
    assert(sides(w).len() == w.len());
    assert forall|i: int| 0 <= i < rpk(h, n).len() implies seq_seconds(ppairs(w).skip(1))[i] == #[trigger] positions(rpk(h, n))[i] by {
        assert(sides(w)[i + 1] == w[i + 1].1);
    }
    assert(seq_seconds(ppairs(w).skip(1)) =~= positions(rpk(h, n)));
}

pub proof fn rev_rev<A>(s: Seq<A>)
    ensures rev(rev(s)) == s
{ assert(rev(rev(s)) =~= s); }

/// the stored peaks of the first n leaves are the peaks
pub proof fn nodes_at_ok(m: SMap, s: Seq<H32>)
    requires stored(m, s), s.len() <= max_leaves()
    ensures nodes_at(m, pkl(0, s.len())) == nodes_of(pkl(0, s.len()), s)
{
    let n = s.len();
    pow2_63();
    assert(n * pow2(0) == n) by (nonlinear_arith) requires pow2(0) == 1;
    assert forall|i: int| 0 <= i < pkl(0, n).len() implies node_at(m, #[trigger] pkl(0, n)[i]) == node_of(pkl(0, n)[i], s) by {
        pkl_elems(0, n, i);
    }
    assert(nodes_at(m, pkl(0, n)) =~= nodes_of(pkl(0, n), s));
}

/// storage that holds a tree also holds every shorter one
pub proof fn stored_prefix(m: SMap, s: Seq<H32>, n: nat)
    requires stored(m, s), n <= s.len(), s.len() <= max_leaves()
    ensures stored(m, s.take(n as int)), leaf_hashes(m, n) == s.take(n as int)
{
    let t = s.take(n as int);
    assert forall|h: nat, k: nat| #![trigger complete(h, k, t.len())] complete(h, k, t.len()) implies holds(m, h, k, bnh(h, k, t)) by {
        assert(complete(h, k, s.len()));
        nh_prefix(h, k, t, s, hop());
    }
    stored_leaves(m, t);
}
@fn MerkleTree::root_position
@ret r
@spec
    requires self.leaves_count <= max_leaves()
    ensures exists|h: nat| #![trigger room(h, self.leaves_count as nat)] room(h, self.leaves_count as nat) && r == pos_of(h, 0)
@at start
    proof {
        let n = self.leaves_count as nat;
        assert forall|h: nat| n + 1 <= #[trigger] pow2(h) && (h > 0 ==> pow2((h - 1) as nat) < n + 1) implies room(h, n) && pos_of(h, 0) == Position((pow2(h) - 1) as u64)
        by { assert(room(h, n)); room_ok(h, n); }
    }
@fn MerkleTree::peak_positions
@ret r
@spec
    requires self.leaves_count <= max_leaves()
    ensures r@ == positions(rev(pkl(0, self.leaves_count as nat)))
@at start
    proof {
        let n = self.leaves_count as nat;
        assert forall|h: nat| #![trigger room(h, n)] room(h, n) implies hk(pos_of(h, 0)) == (h, 0nat) && first_leaf(h, 0) == 0 && small(pos_of(h, 0).0)
            && positions(rpk(h, n)) == positions(rev(pkl(0, n))) && seq_seconds(ppairs(pwalk(h, 0, n, n + 1, (h, 0nat))).skip(1)) == positions(rpk(h, n))
            && pwalk(h, 0, n, n + 1, (h, 0nat)).len() >= 1
        by {
            room_ok(h, n);
            peaks_ok(h, n);
            rev_rev(rpk(h, n));
        }
    }
@fn MerkleTree::load
@ret r
@spec
    requires leaves_count <= max_leaves()
    ensures
        r matches Ok(t) ==> {
            &&& t.storage == storage
            &&& t.leaves_count == leaves_count
            &&& lst(t.head) == nodes_at(storage.smap(), pkl(0, leaves_count as nat))
            &&& all_peaks(storage.smap(), leaves_count as nat)
            &&& stored(storage.smap(), leaf_hashes(storage.smap(), leaves_count as nat)) ==> t.inv()
        },
        r matches Err(x) ==> load_err(storage, leaves_count as nat, x),
@at start
    proof {
        let n = leaves_count as nat;
        if stored(storage.smap(), leaf_hashes(storage.smap(), n)) { nodes_at_ok(storage.smap(), leaf_hashes(storage.smap(), n)); }
    }
@items
/// storage has an entry for every peak of the tree of n leaves
pub open spec fn all_peaks(m: SMap, n: nat) -> bool {
    forall|i: int| 0 <= i < pkl(0, n).len() ==> m.contains_key(key_of((#[trigger] pkl(0, n)[i]).0, pkl(0, n)[i].1))
}
/// why loading the tree of n leaves failed: a peak is missing, or storage reported an error
pub open spec fn load_err<S, T, E>(s: S, n: nat, x: MerkleTreeError<E>) -> bool
    where T: Mappable<Key = u64, SetValue = Primitive, GetValue = Primitive>, S: StorageInspect<T, Error = E>
{
    match x {
        MerkleTreeError::LoadError(k) => !s.smap().contains_key(k)
            && exists|i: int| 0 <= i < pkl(0, n).len() && k == key_of((#[trigger] pkl(0, n)[i]).0, pkl(0, n)[i].1),
        MerkleTreeError::StorageError(e) => S::serr(e),
        _ => false,
    }
}
/// the list of peaks so far: those after the first c
pub proof fn build_step(m: SMap, l: Seq<HK>, i: int)
    requires 0 <= i < l.len()
    ensures nodes_at(m, l.skip(i)) == seq![node_at(m, l[i])] + nodes_at(m, l.skip(i + 1))
{ assert(nodes_at(m, l.skip(i)) =~= seq![node_at(m, l[i])] + nodes_at(m, l.skip(i + 1))); }
@fn MerkleTree::build
@ret r
@spec
    requires old(self).leaves_count <= max_leaves()
    ensures
        final(self).storage == old(self).storage,
        final(self).leaves_count == old(self).leaves_count,
        r is Ok ==> lst(final(self).head) == nodes_at(old(self).storage.smap(), pkl(0, old(self).leaves_count as nat))
            && all_peaks(old(self).storage.smap(), old(self).leaves_count as nat),
        r matches Err(x) ==> load_err(old(self).storage, old(self).leaves_count as nat, x),
@at start
    let ghost mp = self.storage.smap();
    let ghost n = self.leaves_count as nat;
    let ghost l = pkl(0, n);
    proof {
        clone_eq_pair::<u64, H32>();
        clone_eq_array::<u8, 32>();
        assert(nodes_at(mp, l.skip(l.len() as int)) =~= Seq::<Node>::empty());
        assert(l.skip(0) =~= l);
    }
@loop 1
    invariant
        clone_eq::<Primitive>(),
        *self == *old(self), mp == self.storage.smap(), n == self.leaves_count, l == pkl(0, n),
        vx_iter.seq().len() == l.len(),
        forall|i: int| 0 <= i < l.len() ==> *(#[trigger] vx_iter.seq()[i]) == ppos(l[l.len() - 1 - i]),
        n <= max_leaves(),
        lst(current_head) == nodes_at(mp, l.skip(l.len() - vx_iter.index@)),
        forall|i: int| l.len() - vx_iter.index@ <= i < l.len() ==> mp.contains_key(key_of((#[trigger] l[i]).0, l[i].1)),
@at loop 1 start
    proof {
        let i = l.len() - 1 - vx_iter.index@;
        build_step(mp, l, i);
        assert(*vx_iter.seq()[vx_iter.index@] == ppos(l[i]));
        assert(pos_of(l[i].0, l[i].1).0 == key_of(l[i].0, l[i].1));
    }
@fn MerkleTree::root
@ret r
@spec
    requires self.inv()
    ensures r == broot(self.leaves())
@at start
    proof {
        nodes_map_lawful();
        none_complete();
        if self.leaves_count > 0 { bag_all(self.leaves()); }
    }
@items
pub proof fn nodes_map_lawful()
    ensures <StorageMap<NodesTable> as StorageMutate<NodesTable>>::s_lawful(), clone_eq::<Primitive>()
{
    clone_eq_pair::<u64, H32>();
    clone_eq_array::<u8, 32>();
}
/// joining a list of subtrees from its front
pub open spec fn bagged(l: Seq<Node>) -> Node
    decreases l.len()
{ if l.len() <= 1 { l[0] } else { bagged(bag1(l)) } }
pub open spec fn bag1(l: Seq<Node>) -> Seq<Node> { seq![joined(l[1], l[0])] + l.skip(2) }
/// the joined nodes are put in a map
pub open spec fn bag_map(l: Seq<Node>, m: SMap) -> SMap
    decreases l.len()
{
    if l.len() <= 1 { m } else {
        let c = joined(l[1], l[0]);
        bag_map(bag1(l), m.insert(c.position.0, (c.position.0, c.hash)))
    }
}
/// all nodes to be joined have parents
pub open spec fn bag_ok(l: Seq<Node>) -> bool
    decreases l.len()
{
    if l.len() <= 1 { l.len() == 1 } else {
        l[1].position.0 < 0x8000_0000_0000_0000 && hof(l[1].position.0) <= 62 && bag_ok(bag1(l))
    }
}
/// all entries of the map are right
pub open spec fn sound(m: SMap, s: Seq<H32>) -> bool {
    forall|x: u64| #![trigger m.contains_key(x)] m.contains_key(x) ==> m[x] == (x, bnh(hof(x), kof(x), s))
}
/// the map has all unfilled subtrees up to height j
pub open spec fn full(m: SMap, s: Seq<H32>, j: nat) -> bool {
    forall|h: nat, k: nat| #![trigger pvalid(h, k, s.len())] pvalid(h, k, s.len()) && !complete(h, k, s.len()) && h <= j ==> m.contains_key(key_of(h, k))
}
/// the map has all unfilled subtrees
pub open spec fn full_all(m: SMap, s: Seq<H32>) -> bool {
    forall|h: nat, k: nat| #![trigger pvalid(h, k, s.len())] pvalid(h, k, s.len()) && !complete(h, k, s.len()) ==> m.contains_key(key_of(h, k))
}
pub open spec fn bag_list(j: nat, m: nat, s: Seq<H32>) -> Seq<Node> {
    let t = ptop(j, m, s.len());
    seq![Node { position: pos_of(t.0, t.1), hash: bnh(j, m, s) }] + nodes_of(pkl(j, m), s)
}
/// joining the peaks from part (j, m) on gives the root, and stores exactly the unfilled subtrees
pub proof fn bag_part(j: nat, m: nat, s: Seq<H32>, mp: SMap)
    requires part(j, m, s.len()), s.len() <= max_leaves(), sound(mp, s), full(mp, s, j)
    ensures
        bag_ok(bag_list(j, m, s)),
        bagged(bag_list(j, m, s)).hash == mth(s, hop()),
        sound(bag_map(bag_list(j, m, s), mp), s),
        full_all(bag_map(bag_list(j, m, s), mp), s),
    decreases pkl(j, m).len()
{
    let n = s.len();
    let l = bag_list(j, m, s);
    skip_even_part(j, m, s, hop());
    let q = skip_even(j, m);
    let (g, x) = q;
    assert(l == bag_list(g, x, s));
    assert(full(mp, s, g));
    if x == 0 {
        assert(pkl(g, x) =~= Seq::<HK>::empty());
        assert(l.len() == 1);
        assert(first_leaf(g, 0) == 0) by (nonlinear_arith) requires first_leaf(g, 0) == 0 * pow2(g);
        nh_root(g, s, hop());
        assert forall|h: nat, k: nat| #![trigger pvalid(h, k, n)] pvalid(h, k, n) && !complete(h, k, n) implies mp.contains_key(key_of(h, k)) by {
            if h > g {
                pow2_mono(g, (h - 1) as nat);
                let p = pow2((h - 1) as nat);
                assert((2 * k + 1) * p >= p) by (nonlinear_arith) requires k >= 0, p >= 0;
            }
        }
    } else {
        part_up(g, x, n);
        let c = (x - 1) as nat;
        let y = x / 2;
        complete_valid(g, c, n);
        key_ok(g, c, n);
        key_ok(g + 1, y, n);
        assert(pkl(g, x) == seq![(g, c)] + pkl(g + 1, y));
        assert(l[1] == node_of((g, c), s));
        assert(c / 2 == y);
        let e = joined(l[1], l[0]);
        assert(e.position == pos_of(g + 1, y));
        assert(e.hash == bnh(g + 1, y, s));
        assert(ptop(g + 1, y, n) == (g + 1, y));
        assert(bag1(l) =~= bag_list(g + 1, y, s));
        let k0 = key_of(g + 1, y);
        let mq = mp.insert(k0, (k0, e.hash));
        assert(sound(mq, s));
        assert forall|h: nat, k: nat| #![trigger pvalid(h, k, n)] pvalid(h, k, n) && !complete(h, k, n) && h <= g + 1 implies mq.contains_key(key_of(h, k)) by {
            if h == g + 1 {
                not_complete_is_part(h, k, n);
                part_unique(h, k, y, n);
            }
        }
        bag_part(g + 1, y, s, mq);
    }
}
/// joining all peaks
pub proof fn bag_all(s: Seq<H32>)
    requires 0 < s.len() <= max_leaves()
    ensures ({
        let l = nodes_of(pkl(0, s.len()), s);
        let e = Map::<u64, Entry>::empty();
        &&& l.len() > 0
        &&& bag_ok(l)
        &&& bagged(l).hash == mth(s, hop())
        &&& sound(bag_map(l, e), s)
        &&& full_all(bag_map(l, e), s)
    })
{
    let n = s.len();
    let e = Map::<u64, Entry>::empty();
    pow2_63();
    assert(n * pow2(0) == n) by (nonlinear_arith) requires pow2(0) == 1;
    start_part_ok(0, n, s, hop());
    let q = start_part(0, n);
    nh_top(q.0, q.1, s, hop());
    assert(nodes_of(pkl(0, n), s) =~= bag_list(q.0, q.1, s));
    bag_part(q.0, q.1, s, e);
}
@fn MerkleTree::root_node
@ret r
@spec
    requires self.head is Some ==> bag_ok(lst(self.head))
    ensures
        r is None <==> self.head is None,
        r matches Some(x) ==> x == bagged(lst(self.head)) && final(scratch_storage).smap() == bag_map(lst(self.head), old(scratch_storage).smap()),
        r is None ==> *final(scratch_storage) == *old(scratch_storage),
@at start
    proof { nodes_map_lawful(); }
@fn build_root_node
@ret r
@spec
    requires bag_ok(sub(*subtree)), Storage::im_lawful()
    ensures
        r == bagged(sub(*subtree)),
        final(storage).im_map() == bag_map(sub(*subtree), old(storage).im_map()),
@at start
    let ghost l0 = sub(*subtree);
    let ghost m0 = storage.im_map();
@loop 1
    invariant
        Storage::im_lawful(),
        bag_ok(sub(current)),
        bagged(sub(current)) == bagged(l0),
        bag_map(sub(current), storage.im_map()) == bag_map(l0, m0),
    decreases sub(current).len(),
@at loop 1 start
    proof {
        let l = sub(current);
        let b = current.next->0;
        assert(lst(current.next) == seq![b.node] + lst(b.next));
        assert(l.skip(2) =~= lst(b.next));
    }
@fn MerkleTree::prove
@ret r
@spec
    requires proof_index < self.leaves_count ==> self.inv()
    ensures
        proof_index >= self.leaves_count ==> r == Err::<(Bytes32, ProofSet), MerkleTreeError<StorageError>>(MerkleTreeError::InvalidProofIndex(proof_index)),
        proof_index < self.leaves_count ==> {
            &&& r matches Ok(p) ==> p.0 == mth(self.leaves(), hop()) && p.1@ == seq![self.leaves()[proof_index as int]] + audit(proof_index as int, self.leaves(), hop())
            &&& r matches Err(x) ==> (x matches MerkleTreeError::StorageError(e) && StorageType::serr(e))
        },
@at start
    let ghost s = self.leaves();
    let ghost n = s.len();
    let ghost i = proof_index as nat;
    let ghost a = audit(i as int, s, hop());
    proof {
        nodes_map_lawful();
        if i < n {
            bag_all(s);
            leaf_stored(i, n);
            assert forall|h: nat| #![trigger room(h, n)] room(h, n) implies hk(pos_of(h, 0)) == (h, 0nat) && first_leaf(h, 0) == 0 && small(pos_of(h, 0).0)
                && sides_ok(seq_seconds(ppairs(pwalk(h, 0, i, n, (h, 0nat)))), a, s)
            by {
                room_ok(h, n);
                prove_sides(h, i, s);
            }
        }
    }
@loop 1
    invariant
        i < n, n == s.len(), s == self.leaves(), self.inv(), i == proof_index,
        clone_eq::<Primitive>(),
        sound(scratch_storage.smap(), s), full_all(scratch_storage.smap(), s),
        vx_iter.seq().len() == a.len(),
        forall|j: int| 0 <= j < a.len() ==> side_at(#[trigger] vx_iter.seq()[j], a[j], s),
        proof_set@ == seq![s[i as int]] + a.take(vx_iter.index@),
@at loop 1 start
    proof {
        let j = vx_iter.index@;
        let x = vx_iter.seq()[j];
        assert(side_at(x, a[j], s));
        assert((seq![s[i as int]] + a.take(j)).push(a[j]) =~= seq![s[i as int]] + a.take(j + 1));
        key_ok(hof(x.0), kof(x.0), n);
        assert(complete(hof(x.0), kof(x.0), n) || !complete(hof(x.0), kof(x.0), n));
    }
@at loop 1 after
    proof { assert(a.take(a.len() as int) =~= a); }
@items
/// x is the position of a node with hash v
pub open spec fn side_at(x: Position, v: H32, s: Seq<H32>) -> bool {
    pvalid(hof(x.0), kof(x.0), s.len()) && v == bnh(hof(x.0), kof(x.0), s) && x == pos_of(hof(x.0), kof(x.0))
}
/// the side positions, after the first, have the hashes a from last to first
pub open spec fn sides_ok(p: Seq<Position>, a: Seq<H32>, s: Seq<H32>) -> bool {
    &&& p.len() == a.len() + 1
    &&& forall|j: int| 0 <= j < a.len() ==> side_at(p[a.len() - j], #[trigger] a[j], s)
}
pub proof fn leaf_stored(i: nat, n: nat)
    requires i < n, n <= max_leaves()
    ensures complete(0, i, n), key_of(0, i) == 2 * i
{
    pow2_63();
    assert(i * 1 == i);
    assert(first_leaf(0, i) == i);
    assert(pidx(0, i) == 2 * i) by (nonlinear_arith) requires pow2(0) == 1, pidx(0, i) == (2 * i + 1) * pow2(0) - 1;
}
/// the side positions on the path to leaf i are those of its audit path
pub proof fn prove_sides(h: nat, i: nat, s: Seq<H32>)
    requires room(h, s.len()), i < s.len(), s.len() <= max_leaves()
    ensures sides_ok(seq_seconds(ppairs(pwalk(h, 0, i, s.len(), (h, 0nat)))), audit(i as int, s, hop()), s)
{
    let n = s.len();
    let w = pwalk(h, 0, i, n, (h, 0nat));
    let a = audit(i as int, s, hop());
    let p = seq_seconds(ppairs(w));
    pwalk_audit(h, i, s, hop());
    assert forall|j: int| 0 <= j < a.len() implies side_at(p[a.len() - j], #[trigger] a[j], s) by {
        let q = w[a.len() - j].1;
        assert(p[a.len() - j] == ppos(q));
        key_ok(q.0, q.1, n);
    }
}
// ---- what the contracts give for whole histories ----------------------------

/// the leaf hashes of a list of data
pub open spec fn hashed(d: Seq<Vec<u8>>) -> Seq<H32> { Seq::new(d.len(), |i: int| hleaf(d[i]@)) }
/// apart from the complete subtrees of n leaves, b holds what a held
pub open spec fn only_complete(a: SMap, b: SMap, n: nat) -> bool {
    forall|x: u64| #![trigger b.contains_key(x)] #![trigger b[x]] !complete(hof(x), kof(x), n) ==> a.contains_key(x) == b.contains_key(x) && a[x] == b[x]
}

/// any number of pushes onto any tree: the root is the RFC 6962 hash of all leaves, every proof is the
/// audit path, storage holds every complete subtree, and nothing else changed; reloading from any
/// smaller count gives the tree of that prefix
pub fn theorem_pushes<T, S, E>(t0: MerkleTree<T, S>, data: Vec<Vec<u8>>) -> (r: Result<MerkleTree<T, S>, MerkleTreeError<E>>)
    where T: Mappable<Key = u64, SetValue = Primitive, GetValue = Primitive>, S: StorageMutate<T, Error = E>
    requires
        t0.inv(), t0.leaves_count + data@.len() <= max_leaves(), S::s_lawful(),
    ensures
        r matches Ok(t) ==> {
            &&& t.inv()
            &&& t.leaves() == t0.leaves() + hashed(data@)
            &&& t.leaves_count == t0.leaves_count + data@.len()
            &&& stored(t.storage.smap(), t.leaves())
            &&& forall|x: u64| #![trigger t.storage.smap().contains_key(x)] #![trigger t.storage.smap()[x]]
                    (complete(hof(x), kof(x), t0.leaves().len()) || !complete(hof(x), kof(x), t.leaves().len())) ==>
                    t0.storage.smap().contains_key(x) == t.storage.smap().contains_key(x) && t0.storage.smap()[x] == t.storage.smap()[x]
            &&& t.storage.sfail() == t0.storage.sfail()
        },
        r matches Err(x) ==> (x matches MerkleTreeError::StorageError(e) && S::serr(e)),
{
    let mut t = t0;
    let mut i: usize = 0;
    proof {
        assert(t0.leaves() + hashed(data@.take(0)) =~= t0.leaves());
    }
    while i < data.len()
        invariant
            S::s_lawful(), t0.leaves_count + data@.len() <= max_leaves(), 0 <= i <= data@.len(),
            t.inv(), t.leaves() == t0.leaves() + hashed(data@.take(i as int)), t.leaves_count == t0.leaves_count + i,
            t.storage.sfail() == t0.storage.sfail(),
            forall|x: u64| #![trigger t.storage.smap().contains_key(x)] #![trigger t.storage.smap()[x]]
                    (complete(hof(x), kof(x), t0.leaves().len()) || !complete(hof(x), kof(x), t.leaves().len())) ==>
                    t0.storage.smap().contains_key(x) == t.storage.smap().contains_key(x) && t0.storage.smap()[x] == t.storage.smap()[x],
        decreases data.len() - i,
    {
        let ghost t1 = t;
        t.push(data[i].as_slice())?;
        proof {
            let d = data@.take(i + 1);
            assert(t.leaves() =~= t0.leaves() + hashed(d));
            assert forall|x: u64| (complete(hof(x), kof(x), t0.leaves().len()) || !complete(hof(x), kof(x), t.leaves().len()))
                implies !newly(x, t1.leaves_count as nat) && (complete(hof(x), kof(x), t0.leaves().len()) || !complete(hof(x), kof(x), t1.leaves().len())) by {}
            assert forall|x: u64| #![trigger t.storage.smap().contains_key(x)] #![trigger t.storage.smap()[x]]
                    (complete(hof(x), kof(x), t0.leaves().len()) || !complete(hof(x), kof(x), t.leaves().len())) implies
                    t0.storage.smap().contains_key(x) == t.storage.smap().contains_key(x) && t0.storage.smap()[x] == t.storage.smap()[x] by {
                assert(!newly(x, t1.leaves_count as nat));
                assert(t1.storage.smap().contains_key(x) == t.storage.smap().contains_key(x));
            }
        }
        i += 1;
    }
    proof { assert(data@.take(data@.len() as int) =~= data@); }
    Ok(t)
}

/// a tree reloaded with a count no larger than its own is the tree of that prefix (and all contracts
/// speak about the leaves and storage only, so it behaves the same from then on)
pub fn theorem_load<T, S, E>(t: MerkleTree<T, S>, n: u64) -> (r: Result<MerkleTree<T, S>, MerkleTreeError<E>>)
    where T: Mappable<Key = u64, SetValue = Primitive, GetValue = Primitive>, S: StorageInspect<T, Error = E>
    requires t.inv(), n <= t.leaves_count
    ensures
        r matches Ok(u) ==> {
            &&& u.inv() && u.storage == t.storage && u.leaves_count == n
            &&& u.leaves() == t.leaves().take(n as int)
            &&& n == t.leaves_count ==> lst(u.head) == lst(t.head)
        },
        r matches Err(x) ==> (x matches MerkleTreeError::StorageError(e) && S::serr(e)),
{
    proof {
        stored_prefix(t.storage.smap(), t.leaves(), n as nat);
        let l = pkl(0, n as nat);
        pow2_63();
        assert(n * pow2(0) == n) by (nonlinear_arith) requires pow2(0) == 1;
        assert forall|i: int| 0 <= i < l.len() implies t.storage.smap().contains_key(key_of((#[trigger] l[i]).0, l[i].1)) by {
            pkl_elems(0, n as nat, i);
            assert(complete(l[i].0, l[i].1, t.leaves().take(n as int).len()));
        }
        assert(t.leaves().take(t.leaves().len() as int) =~= t.leaves());
    }
    MerkleTree::load(t.storage, n)
}
@module binary::in_memory
@items
use crate::lem_mmr::*;
use crate::binary::hash::{H32, hop, hleaf};
use crate::binary::merkle_tree::{broot, max_leaves, nodes_map_lawful};
impl MerkleTree {
    pub open spec fn inv(&self) -> bool { self.tree.inv() }
    pub open spec fn leaves(&self) -> Seq<H32> { self.tree.leaves() }
}
@fn MerkleTree::new
@ret r
@spec
    ensures r.inv(), r.leaves().len() == 0
@fn MerkleTree::push
@spec
    requires old(self).inv(), old(self).leaves().len() < max_leaves()
    ensures final(self).inv(), final(self).leaves() == old(self).leaves().push(hleaf(data@)),
@at start
    proof { nodes_map_lawful(); }
@fn MerkleTree::root
@ret r
@spec
    requires old(self).inv()
    ensures r == broot(old(self).leaves()), *final(self) == *old(self),
@fn MerkleTree::prove
@ret r
@spec
    requires old(self).inv()
    ensures
        *final(self) == *old(self),
        proof_index >= old(self).leaves().len() ==> r is None,
        proof_index < old(self).leaves().len() ==> {
            &&& r matches Some(p)
            &&& p.0 == broot(old(self).leaves())
            &&& p.1@ == seq![old(self).leaves()[proof_index as int]] + audit(proof_index as int, old(self).leaves(), hop())
        },
@fn MerkleTree@Default::default
@ret r
@spec
    ensures r.inv(), r.leaves().len() == 0

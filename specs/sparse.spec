@module sparse::hash
@items
use crate::vx_deps::*;
use crate::vx_deps::VxIntoIterator as IntoIterator;
pub type H32 = [u8; 32];
/// the zero digest
pub open spec fn hzero() -> H32 { vstd::array::spec_array_fill_for_copy_type::<u8, 32>(0u8) }
pub proof fn hzero_bytes()
    ensures hzero()@ == Seq::new(32, |i: int| 0u8)
{ broadcast use vstd::array::axiom_spec_array_fill_for_copy_type; assert(hzero()@ =~= Seq::new(32, |i: int| 0u8)); }
/// `b` is what `as_ref` gives for `t`
pub open spec fn as_bytes<T: AsRef<[u8]>>(t: T, b: Seq<u8>) -> bool {
    exists|s: &[u8]| #![trigger slice_view(s)] call_ensures(<T as AsRef<[u8]>>::as_ref, (&t,), s) && slice_view(s) == b
}
pub open spec fn concat(s: Seq<Seq<u8>>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { concat(s.drop_last()) + s.last() }
}
pub proof fn concat_push(s: Seq<Seq<u8>>, x: Seq<u8>)
    ensures concat(s.push(x)) == concat(s) + x
{ assert(s.push(x).drop_last() =~= s); }
/// `parts` are the bytes of the items
pub open spec fn all_bytes<T: AsRef<[u8]>>(items: Seq<T>, parts: Seq<Seq<u8>>) -> bool {
    parts.len() == items.len() && forall|i: int| #![trigger parts[i]] 0 <= i < items.len() ==> as_bytes(items[i], parts[i])
}
pub proof fn as_bytes_slice(x: &[u8], b: Seq<u8>)
    requires as_bytes(x, b)
    ensures b == x@
{}
pub proof fn concat3(s: Seq<Seq<u8>>)
    requires s.len() == 3
    ensures concat(s) == s[0] + s[1] + s[2]
{
    let e = Seq::<Seq<u8>>::empty();
    let s1 = e.push(s[0]);
    let s2 = s1.push(s[1]);
    assert(s =~= s2.push(s[2]));
    concat_push(e, s[0]); concat_push(s1, s[1]); concat_push(s2, s[2]);
    assert(concat(e) + s[0] =~= s[0]);
}
@fn zero_sum
@ret r
@spec
    ensures *r == hzero()
@tail t
@at end
    proof { hzero_bytes(); assert(*t =~= hzero()); }
@fn sum
@ret r
@spec
    ensures exists|b: Seq<u8>| #[trigger] as_bytes(data, b) && r == sha256(b)
@at end
    proof {
        let s: &[u8] = choose|s: &[u8]| #![trigger slice_view(s)] call_ensures(<I as AsRef<[u8]>>::as_ref, (&data,), s) && hash@ == Seq::<u8>::empty() + slice_view(s);
        assert(hash@ =~= slice_view(s));
        assert(as_bytes(data, hash@));
    }
@fn sum_all
@ret r
@spec
    ensures exists|parts: Seq<Seq<u8>>| #[trigger] all_bytes(data.items(), parts) && r == sha256(concat(parts))
@at loop 1 before
    let ghost mut parts: Seq<Seq<u8>> = Seq::empty();
@loop 1
    invariant
        vx_iter.seq() == data.items(),
        parts.len() == vx_iter.index@,
        forall|i: int| #![trigger parts[i]] 0 <= i < parts.len() ==> as_bytes(data.items()[i], parts[i]),
        hash@ == concat(parts),
@at loop 1 start
    let ghost before = hash@;
@at loop 1 end
    proof {
        let s: &[u8] = choose|s: &[u8]| #![trigger slice_view(s)] call_ensures(<I::Item as AsRef<[u8]>>::as_ref, (&datum,), s) && hash@ == before + slice_view(s);
        concat_push(parts, slice_view(s));
        parts = parts.push(slice_view(s));
    }
@at end
    proof { assert(all_bytes(data.items(), parts)); }

@module sparse::node
@items
use crate::vx_deps::*;
use crate::sparse::hash::{H32, hzero, concat, concat_push, as_bytes, all_bytes, as_bytes_slice, concat3};
use crate::common::prefix::{prefix_u8, prefix_bytes};
use crate::common::msb::{bits_msb, byte_bit};

/// the placeholder that stands for an empty subtree
pub open spec fn placeholder() -> Node { Node { height: 0, prefix: Prefix::Leaf, bytes_lo: hzero(), bytes_hi: hzero() } }
/// the bytes hashed for a node
pub open spec fn node_pre(p: Prefix, lo: H32, hi: H32) -> Seq<u8> { prefix_bytes(p) + lo@ + hi@ }
impl Node {
    pub open spec fn empty(&self) -> bool { self.bytes_lo == hzero() && self.bytes_hi == hzero() }
    pub open spec fn leafish(&self) -> bool { self.prefix == Prefix::Leaf || self.empty() }
    pub open spec fn digest(&self) -> H32 {
        if self.empty() { hzero() } else { sha256(node_pre(self.prefix, self.bytes_lo, self.bytes_hi)) }
    }
}
/// bit i of a key, counted from the most significant one
pub open spec fn kbit(k: H32, i: int) -> bool { bits_msb(k@, i) == Some(true) }
/// the keys agree on their first d bits
pub open spec fn agree(a: H32, b: H32, d: int) -> bool { forall|i: int| 0 <= i < d ==> kbit(a, i) == kbit(b, i) }
pub proof fn byte_ext(a: u8, b: u8)
    requires forall|i: int| 0 <= i < 8 ==> byte_bit(a, i) == byte_bit(b, i)
    ensures a == b
{
    assert(byte_bit(a, 0) == byte_bit(b, 0)); assert(byte_bit(a, 1) == byte_bit(b, 1));
    assert(byte_bit(a, 2) == byte_bit(b, 2)); assert(byte_bit(a, 3) == byte_bit(b, 3));
    assert(byte_bit(a, 4) == byte_bit(b, 4)); assert(byte_bit(a, 5) == byte_bit(b, 5));
    assert(byte_bit(a, 6) == byte_bit(b, 6)); assert(byte_bit(a, 7) == byte_bit(b, 7));
    assert(a == b) by (bit_vector) requires
        ((a >> 7u8) & 1 == 1) == ((b >> 7u8) & 1 == 1), ((a >> 6u8) & 1 == 1) == ((b >> 6u8) & 1 == 1),
        ((a >> 5u8) & 1 == 1) == ((b >> 5u8) & 1 == 1), ((a >> 4u8) & 1 == 1) == ((b >> 4u8) & 1 == 1),
        ((a >> 3u8) & 1 == 1) == ((b >> 3u8) & 1 == 1), ((a >> 2u8) & 1 == 1) == ((b >> 2u8) & 1 == 1),
        ((a >> 1u8) & 1 == 1) == ((b >> 1u8) & 1 == 1), ((a >> 0u8) & 1 == 1) == ((b >> 0u8) & 1 == 1);
}
/// keys with the same bits are equal
pub proof fn key_ext(a: H32, b: H32)
    requires agree(a, b, 256)
    ensures a == b
{
    assert forall|j: int| 0 <= j < 32 implies a@[j] == b@[j] by {
        assert forall|i: int| 0 <= i < 8 implies byte_bit(a@[j], i) == byte_bit(b@[j], i) by {
            let x = 8 * j + i;
            assert(x / 8 == j && x % 8 == i) by (nonlinear_arith) requires x == 8 * j + i, 0 <= i < 8;
            assert(kbit(a, x) == kbit(b, x));
        }
        byte_ext(a@[j], b@[j]);
    }
    assert(a =~= b);
}
/// the length of the common prefix of two keys, in bits
pub open spec fn cplf(a: H32, b: H32, i: nat) -> nat
    decreases 256 - i
{
    if i >= 256 { 256 } else if kbit(a, i as int) != kbit(b, i as int) { i } else { cplf(a, b, i + 1) }
}
pub open spec fn cpl(a: H32, b: H32) -> nat { cplf(a, b, 0) }
pub proof fn cplf_char(a: H32, b: H32, c: nat, i: nat)
    requires i <= c <= 256, agree(a, b, c as int), c < 256 ==> kbit(a, c as int) != kbit(b, c as int)
    ensures cplf(a, b, i) == c
    decreases 256 - i
{ if i < c { cplf_char(a, b, c, i + 1); } }
pub proof fn cplf_prop(a: H32, b: H32, i: nat)
    requires i <= 256, agree(a, b, i as int)
    ensures i <= cplf(a, b, i) <= 256, agree(a, b, cplf(a, b, i) as int), cplf(a, b, i) < 256 ==> kbit(a, cplf(a, b, i) as int) != kbit(b, cplf(a, b, i) as int)
    decreases 256 - i
{ if i < 256 && kbit(a, i as int) == kbit(b, i as int) { cplf_prop(a, b, i + 1); } }
/// c is the length of the common prefix
pub proof fn cpl_char(a: H32, b: H32, c: nat)
    ensures
        c <= 256 && agree(a, b, c as int) && (c < 256 ==> kbit(a, c as int) != kbit(b, c as int)) ==> cpl(a, b) == c,
        cpl(a, b) <= 256, agree(a, b, cpl(a, b) as int), cpl(a, b) < 256 ==> kbit(a, cpl(a, b) as int) != kbit(b, cpl(a, b) as int),
{
    cplf_prop(a, b, 0);
    if c <= 256 && agree(a, b, c as int) && (c < 256 ==> kbit(a, c as int) != kbit(b, c as int)) { cplf_char(a, b, c, 0); }
}
pub proof fn cpl_lt(a: H32, b: H32)
    requires a != b
    ensures cpl(a, b) < 256
{
    cplf_prop(a, b, 0);
    if cpl(a, b) == 256 { key_ext(a, b); }
}
/// the two nodes have a common parent
pub open spec fn mrg_pre(a: Node, b: Node) -> bool {
    if a.leafish() && b.leafish() { a.empty() || b.empty() || a.bytes_lo != b.bytes_lo } else { a.height < 256 && b.height < 256 }
}
/// the height of the parent of two nodes on a path
pub open spec fn mrg_height(a: Node, b: Node) -> int {
    if a.leafish() && b.leafish() {
        if a.empty() || b.empty() { 256 } else { 256 - cpl(a.bytes_lo, b.bytes_lo) }
    } else {
        (if a.height > b.height { a.height } else { b.height }) + 1
    }
}
/// the parent of a node on a path (right: the path turns right there) and a side node
pub open spec fn mrg(right: bool, a: Node, b: Node) -> Node {
    let h = mrg_height(a, b) as u32;
    if right { Node { height: h, prefix: Prefix::Node, bytes_lo: b.digest(), bytes_hi: a.digest() } }
    else { Node { height: h, prefix: Prefix::Node, bytes_lo: a.digest(), bytes_hi: b.digest() } }
}
@fn Node@Default::default
@ret r
@spec
    ensures r == placeholder()
@fn Node::max_height
@ret r
@spec
    ensures r == 256
@fn Node::new
@ret r
@spec
    ensures r == (Node { height: height, prefix: prefix, bytes_lo: bytes_lo, bytes_hi: bytes_hi })
@fn Node::create_leaf
@ret r
@spec
    ensures r == (Node { height: 0, prefix: Prefix::Leaf, bytes_lo: *key, bytes_hi: sha256(data@) })
@fn Node::create_node
@ret r
@spec
    ensures r == (Node { height: height, prefix: Prefix::Node, bytes_lo: left_child.digest(), bytes_hi: right_child.digest() })
@fn Node::create_placeholder
@ret r
@spec
    ensures r == placeholder()
@fn Node::common_path_length
@ret r
@spec
    requires self.leafish(), other.leafish()
    ensures r == (if self.empty() || other.empty() { 0 } else { cpl(self.bytes_lo, other.bytes_lo) })
@tail c
@at end
    proof {
        if !(self.empty() || other.empty()) {
            assert forall|i: int| 0 <= i < c implies kbit(self.bytes_lo, i) == kbit(other.bytes_lo, i) by {
                assert(self.bytes_lo.c_bit(i) == other.bytes_lo.c_bit(i));
            }
            if c < 256 {
                assert(self.bytes_lo.c_bit(c as int) != other.bytes_lo.c_bit(c as int));
                assert(kbit(self.bytes_lo, c as int) != kbit(other.bytes_lo, c as int));
            }
            cpl_char(self.bytes_lo, other.bytes_lo, c as nat);
        }
    }
@fn Node::height
@ret r
@spec
    ensures r == self.height
@fn Node::prefix
@ret r
@spec
    ensures r == self.prefix
@fn Node::bytes_lo
@ret r
@spec
    ensures *r == self.bytes_lo
@fn Node::bytes_hi
@ret r
@spec
    ensures *r == self.bytes_hi
@fn Node::is_leaf
@ret r
@spec
    ensures r == self.leafish()
@fn Node::is_node
@ret r
@spec
    ensures r == (self.prefix == Prefix::Node)
@fn Node::leaf_key
@ret r
@spec
    requires self.leafish()
    ensures *r == self.bytes_lo
@fn Node::leaf_data
@ret r
@spec
    requires self.leafish()
    ensures *r == self.bytes_hi
@fn Node::left_child_key
@ret r
@spec
    requires self.prefix == Prefix::Node
    ensures *r == self.bytes_lo
@fn Node::right_child_key
@ret r
@spec
    requires self.prefix == Prefix::Node
    ensures *r == self.bytes_hi
@fn Node::is_placeholder
@ret r
@spec
    ensures r == self.empty()
@at start
    proof { broadcast use array32_eq; }
@fn Node::hash
@ret r
@spec
    ensures r == self.digest()
@at before sum_all(data)
    proof {
        assert forall|parts: Seq<Seq<u8>>| #[trigger] all_bytes(data.items(), parts) implies concat(parts) == node_pre(self.prefix, self.bytes_lo, self.bytes_hi) by {
            assert(as_bytes(data.items()[0], parts[0]) && as_bytes(data.items()[1], parts[1]) && as_bytes(data.items()[2], parts[2]));
            as_bytes_slice(data.items()[0], parts[0]);
            as_bytes_slice(data.items()[1], parts[1]);
            as_bytes_slice(data.items()[2], parts[2]);
            concat3(parts);
        }
    }
@fn Node@AsRef<Node>::as_ref
@ret r
@spec
    ensures *r == *self
@impl Node@NodeTrait
    open spec fn n_height(&self) -> nat { self.height as nat }
    open spec fn n_is_leaf(&self) -> bool { self.leafish() }
    open spec fn n_is_node(&self) -> bool { self.prefix == Prefix::Node }
    open spec fn n_key_ok(&self) -> bool { self.leafish() }
    open spec fn n_leaf_key(&self) -> H32 { self.bytes_lo }
    open spec fn n_key_bits() -> nat { 256 }
    proof fn key_bits_law() { crate::vx_deps::size_of_bytes32(); }
@items
/// the node a stored entry stands for
pub open spec fn prim_node(p: Primitive) -> Option<Node> {
    if p.1 == 0 { Some(Node { height: p.0, prefix: Prefix::Leaf, bytes_lo: p.2, bytes_hi: p.3 }) }
    else if p.1 == 1 { Some(Node { height: p.0, prefix: Prefix::Node, bytes_lo: p.2, bytes_hi: p.3 }) }
    else { None }
}
/// the entry a node is stored as
pub open spec fn node_prim(n: Node) -> Primitive { (n.height, prefix_u8(n.prefix), n.bytes_lo, n.bytes_hi) }
pub proof fn prim_roundtrip(n: Node)
    ensures prim_node(node_prim(n)) == Some(n)
{}
pub proof fn clone_eq_primitive()
    ensures clone_eq::<Primitive>(), clone_eq::<H32>(),
{
    clone_eq_array::<u8, 32>();
    clone_eq_tuple4::<u32, u8, H32, H32>();
}
/// reading the child of n with digest `key` from the storage
pub open spec fn crel<'s, TableType, StorageType>(storage: &'s StorageType, n: Node, key: H32, r: ChildResult<StorageNode<'s, TableType, StorageType>>) -> bool
where
    StorageType: StorageInspect<TableType>,
    TableType: Mappable<Key = Bytes32, SetValue = Primitive, GetValue = Primitive>,
    StorageType::Error: fmt::Debug,
{
    if n.leafish() { r matches Err(ChildError::NodeIsLeaf) }
    else if key == hzero() { r matches Ok(c) && c.storage == storage && c.node == placeholder() }
    else {
        let m = storage.smap();
        match r {
            Ok(c) => c.storage == storage && m.contains_key(key) && prim_node(m[key]) == Some(c.node),
            Err(ChildError::ChildNotFound(k)) => k == key && !m.contains_key(key),
            Err(ChildError::NodeIsLeaf) => false,
            Err(ChildError::Error(StorageNodeError::StorageError(e))) => StorageType::serr(e),
            Err(ChildError::Error(StorageNodeError::DeserializeError(e))) => m.contains_key(key) && prim_node(m[key]) is None,
        }
    }
}
@fn Node::create_node_on_path
@ret r
@spec
    requires
        forall|i: int| 0 <= i < 256 ==> (#[trigger] path.p_bit(i)) is Some,
        mrg_pre(*path_node, *side_node),
    ensures
        1 <= mrg_height(*path_node, *side_node) <= 256,
        r == mrg(path.p_bit(256 - mrg_height(*path_node, *side_node)) == Some(true), *path_node, *side_node),
@at start
    proof {
        if path_node.bytes_lo != side_node.bytes_lo { cpl_lt(path_node.bytes_lo, side_node.bytes_lo); }
        cpl_char(path_node.bytes_lo, side_node.bytes_lo, 0);
    }
@fn StorageNode@Clone::clone
@ret r
@spec
    ensures r == *self
@fn StorageNode::new
@ret r
@spec
    ensures r.storage == storage, r.node == node
@fn StorageNode::hash
@ret r
@spec
    ensures r == self.node.digest()
@fn StorageNode::into_node
@ret r
@spec
    ensures r == self.node
@impl StorageNode@NodeTrait
    open spec fn n_height(&self) -> nat { self.node.height as nat }
    open spec fn n_is_leaf(&self) -> bool { self.node.leafish() }
    open spec fn n_is_node(&self) -> bool { self.node.prefix == Prefix::Node }
    open spec fn n_key_ok(&self) -> bool { self.node.leafish() }
    open spec fn n_leaf_key(&self) -> H32 { self.node.bytes_lo }
    open spec fn n_key_bits() -> nat { 256 }
    proof fn key_bits_law() { crate::vx_deps::size_of_bytes32(); }
@impl StorageNode@ParentNodeTrait
    open spec fn n_child_ok(&self) -> bool { true }
    open spec fn left_rel(&self, r: ChildResult<Self>) -> bool { crel(self.storage, self.node, self.node.bytes_lo, r) }
    open spec fn right_rel(&self, r: ChildResult<Self>) -> bool { crel(self.storage, self.node, self.node.bytes_hi, r) }
@fn StorageNode@ParentNodeTrait::left_child
@at start
    proof { clone_eq_primitive(); broadcast use array32_eq; broadcast use question_from; }
@fn StorageNode@ParentNodeTrait::right_child
@at start
    proof { clone_eq_primitive(); broadcast use array32_eq; broadcast use question_from; }

@module sparse::primitive
@trait PrimitiveView
    spec fn pv_prim(&self) -> Primitive;
@fn PrimitiveView::height
@ret r
@spec
    ensures r == self.pv_prim().0
@fn PrimitiveView::prefix
@ret r
@spec
    ensures
        self.pv_prim().1 == 0 ==> r == Ok::<Prefix, PrefixError>(Prefix::Leaf),
        self.pv_prim().1 == 1 ==> r == Ok::<Prefix, PrefixError>(Prefix::Node),
        self.pv_prim().1 > 1 ==> r is Err,
@fn PrimitiveView::bytes_lo
@ret r
@spec
    ensures *r == self.pv_prim().2
@fn PrimitiveView::bytes_hi
@ret r
@spec
    ensures *r == self.pv_prim().3
@impl Primitive@PrimitiveView
    open spec fn pv_prim(&self) -> Primitive { *self }
@items
impl vstd::std_specs::convert::FromSpecImpl<&Node> for (u32, u8, Bytes32, Bytes32) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &Node) -> Self { crate::sparse::node::node_prim(*v) }
}
impl vstd::std_specs::convert::TryFromSpecImpl<(u32, u8, Bytes32, Bytes32)> for Node {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: (u32, u8, Bytes32, Bytes32)) -> Result<Self, DeserializeError> { arbitrary() }
}
@fn Primitive@From<&Node>::from
@ret r
@spec
    ensures r == crate::sparse::node::node_prim(*node)
@fn Node@TryFrom<Primitive>::try_from
@ret r
@spec
    ensures
        r matches Ok(n) ==> crate::sparse::node::prim_node(primitive) == Some(n),
        r is Err ==> crate::sparse::node::prim_node(primitive) is None,

@module sparse::merkle_tree
@items
use crate::vx_deps::*;
use crate::common::Prefix;
use crate::common::prefix::{prefix_u8, prefix_bytes};
use crate::sparse::hash::{H32, hzero, hzero_bytes};
use crate::sparse::node::*;
use vstd::std_specs::iter::IteratorSpec;
broadcast use {crate::vx_deps::stored_as_same, crate::vx_deps::question_from};
pub type SMap = Map<H32, Primitive>;

/// A sparse Merkle tree: leaves hold a key and the digest of its value.
pub enum Tree { Empty, Leaf(H32, H32), Inner(Box<Tree>, Box<Tree>) }

/// the bytes hashed for the top of a tree
pub open spec fn tpre(t: Tree) -> Seq<u8>
    decreases t, 0nat
{
    match t {
        Tree::Empty => Seq::empty(),
        Tree::Leaf(k, v) => node_pre(Prefix::Leaf, k, v),
        Tree::Inner(l, r) => node_pre(Prefix::Node, thash(*l), thash(*r)),
    }
}
pub open spec fn thash(t: Tree) -> H32
    decreases t, 1nat
{
    if t is Empty { hzero() } else { sha256(tpre(t)) }
}
/// the node at the top of a tree at depth d
pub open spec fn node_of(t: Tree, d: nat) -> Node {
    match t {
        Tree::Empty => placeholder(),
        Tree::Leaf(k, v) => Node { height: 0, prefix: Prefix::Leaf, bytes_lo: k, bytes_hi: v },
        Tree::Inner(l, r) => Node { height: (256 - d) as u32, prefix: Prefix::Node, bytes_lo: thash(*l), bytes_hi: thash(*r) },
    }
}
/// the keys with the digests of their values
pub open spec fn items(t: Tree) -> SItems
    decreases t
{
    match t {
        Tree::Empty => Map::empty(),
        Tree::Leaf(k, v) => Map::empty().insert(k, v),
        Tree::Inner(l, r) => items(*l).union_prefer_right(items(*r)),
    }
}
pub type SItems = Map<H32, H32>;
/// the subtree to the right or left
pub open spec fn tchild(t: Tree, right: bool) -> Tree {
    match t { Tree::Inner(l, r) => if right { *r } else { *l }, _ => Tree::Empty }
}
/// the keys agree on their first d bits
pub open spec fn together(m: SItems, d: nat) -> bool {
    forall|a: H32, b: H32| #![trigger m.contains_key(a), m.contains_key(b)] m.contains_key(a) && m.contains_key(b) ==> agree(a, b, d as int)
}
pub open spec fn one_side(m: SItems, d: nat, right: bool) -> bool {
    forall|a: H32| #[trigger] m.contains_key(a) ==> kbit(a, d as int) == right
}
/// the tree at depth d splits its keys by the first undecided bit and has no
/// inner node above less than two keys
pub open spec fn canon(t: Tree, d: nat) -> bool
    decreases t
{
    match t {
        Tree::Empty => true,
        Tree::Leaf(k, v) => !(k == hzero() && v == hzero()),
        Tree::Inner(l, r) => {
            &&& d < 256
            &&& canon(*l, d + 1)
            &&& canon(*r, d + 1)
            &&& *l is Empty ==> *r is Inner
            &&& *r is Empty ==> *l is Inner
            &&& one_side(items(*l), d, false)
            &&& one_side(items(*r), d, true)
            &&& together(items(t), d)
        }
    }
}
/// y is the subtree of t (which is at depth d) at some place of depth e
pub open spec fn sub(y: Tree, e: nat, t: Tree, d: nat) -> bool
    decreases t
{
    (y == t && e == d) || match t { Tree::Inner(l, r) => sub(y, e, *l, d + 1) || sub(y, e, *r, d + 1), _ => false }
}
pub open spec fn subt(y: Tree, t: Tree) -> bool
    decreases t
{
    y == t || match t { Tree::Inner(l, r) => subt(y, *l) || subt(y, *r), _ => false }
}
pub open spec fn ins(y: Tree, a: Tree, b: Tree) -> bool { subt(y, a) || subt(y, b) }
/// SHA-256 has no collision among the byte strings hashed for the nodes of two
/// trees, and none of them has the digest zero
pub open spec fn no_coll(a: Tree, b: Tree) -> bool {
    &&& forall|x: Tree, y: Tree| #![trigger ins(x, a, b), ins(y, a, b)] ins(x, a, b) && ins(y, a, b) && !(x is Empty) && !(y is Empty)
            && sha256(tpre(x)) == sha256(tpre(y)) ==> tpre(x) == tpre(y)
    &&& forall|x: Tree| #[trigger] ins(x, a, b) && !(x is Empty) ==> sha256(tpre(x)) != hzero()
}

pub proof fn sub_canon(y: Tree, e: nat, t: Tree, d: nat)
    requires sub(y, e, t, d), canon(t, d)
    ensures canon(y, e), d <= e, subt(y, t), forall|k: H32| items(y).contains_key(k) ==> items(t).contains_key(k)
    decreases t
{
    if !(y == t && e == d) {
        match t {
            Tree::Inner(l, r) => {
                if sub(y, e, *l, d + 1) { sub_canon(y, e, *l, d + 1); } else { sub_canon(y, e, *r, d + 1); }
            }
            _ => {}
        }
    }
}
pub proof fn sub_child(y: Tree, e: nat, t: Tree, d: nat)
    requires sub(y, e, t, d), y is Inner
    ensures forall|b: bool| sub(#[trigger] tchild(y, b), e + 1, t, d)
    decreases t
{
    match t {
        Tree::Inner(l, r) => {
            if y == t && e == d {
                assert(sub(*l, e + 1, *l, d + 1) && sub(*r, e + 1, *r, d + 1));
            } else if sub(y, e, *l, d + 1) { sub_child(y, e, *l, d + 1); } else { sub_child(y, e, *r, d + 1); }
        }
        _ => {}
    }
}
pub proof fn subt_child(y: Tree, t: Tree)
    requires subt(y, t), y is Inner
    ensures forall|b: bool| subt(#[trigger] tchild(y, b), t)
    decreases t
{
    match t {
        Tree::Inner(l, r) => {
            if y == t {
                assert(subt(*l, *l) && subt(*r, *r));
            } else if subt(y, *l) { subt_child(y, *l); } else { subt_child(y, *r); }
        }
        _ => {}
    }
}
/// a tree that is not empty has a key
pub proof fn some_key(t: Tree, d: nat) -> (k: H32)
    requires canon(t, d), !(t is Empty)
    ensures items(t).contains_key(k)
    decreases t
{
    match t {
        Tree::Empty => hzero(),
        Tree::Leaf(k, v) => k,
        Tree::Inner(l, r) => if *l is Empty { some_key(*r, d + 1) } else { some_key(*l, d + 1) },
    }
}
pub proof fn depth_unique(x: Tree, d: nat, e: nat)
    requires canon(x, d), canon(x, e), x is Inner
    ensures d == e
    decreases x
{
    match x {
        Tree::Inner(l, r) => {
            if *l is Empty { depth_unique(*r, d + 1, e + 1); }
            else if *r is Empty { depth_unique(*l, d + 1, e + 1); }
            else {
                let a = some_key(*l, d + 1);
                let b = some_key(*r, d + 1);
                assert(items(x).contains_key(a) && items(x).contains_key(b));
                assert(agree(a, b, d as int) && agree(a, b, e as int));
            }
        }
        _ => {}
    }
}
pub proof fn node_pre_inj(p: Prefix, a: H32, b: H32, p2: Prefix, a2: H32, b2: H32)
    requires node_pre(p, a, b) == node_pre(p2, a2, b2)
    ensures p == p2, a == a2, b == b2
{
    let x = node_pre(p, a, b);
    let y = node_pre(p2, a2, b2);
    assert(x[0] == prefix_u8(p) && y[0] == prefix_u8(p2));
    assert(p == p2);
    assert(x.subrange(1, 33) =~= a@);
    assert(y.subrange(1, 33) =~= a2@);
    assert(x.subrange(33, 65) =~= b@);
    assert(y.subrange(33, 65) =~= b2@);
    assert(a =~= a2);
    assert(b =~= b2);
}
/// subtrees with the same digest are the same
pub proof fn same_digest(x: Tree, y: Tree, a: Tree, b: Tree)
    requires no_coll(a, b), ins(x, a, b), ins(y, a, b), thash(x) == thash(y)
    ensures x == y
    decreases x
{
    if x is Empty || y is Empty {
    } else {
        assert(tpre(x) == tpre(y));
        match (x, y) {
            (Tree::Leaf(k, v), Tree::Leaf(k2, v2)) => { node_pre_inj(Prefix::Leaf, k, v, Prefix::Leaf, k2, v2); }
            (Tree::Inner(l, r), Tree::Inner(l2, r2)) => {
                node_pre_inj(Prefix::Node, thash(*l), thash(*r), Prefix::Node, thash(*l2), thash(*r2));
                if subt(x, a) { subt_child(x, a); } else { subt_child(x, b); }
                if subt(y, a) { subt_child(y, a); } else { subt_child(y, b); }
                assert(*l == tchild(x, false) && *r == tchild(x, true) && *l2 == tchild(y, false) && *r2 == tchild(y, true));
                same_digest(*l, *l2, a, b);
                same_digest(*r, *r2, a, b);
            }
            (Tree::Leaf(k, v), Tree::Inner(l2, r2)) => { node_pre_inj(Prefix::Leaf, k, v, Prefix::Node, thash(*l2), thash(*r2)); }
            (Tree::Inner(l, r), Tree::Leaf(k2, v2)) => { node_pre_inj(Prefix::Node, thash(*l), thash(*r), Prefix::Leaf, k2, v2); }
            _ => {}
        }
    }
}
/// x at depth e is a subtree of one of the two trees
pub open spec fn place(x: Tree, e: nat, a: Tree, b: Tree) -> bool { sub(x, e, a, 0) || sub(x, e, b, 0) }
/// nodes with the same digest are the same
pub proof fn same_node(x: Tree, e: nat, y: Tree, f: nat, a: Tree, b: Tree)
    requires no_coll(a, b), canon(a, 0), canon(b, 0), place(x, e, a, b), place(y, f, a, b), thash(x) == thash(y)
    ensures x == y, node_of(x, e) == node_of(y, f)
{
    if sub(x, e, a, 0) { sub_canon(x, e, a, 0); } else { sub_canon(x, e, b, 0); }
    if sub(y, f, a, 0) { sub_canon(y, f, a, 0); } else { sub_canon(y, f, b, 0); }
    same_digest(x, y, a, b);
    if x is Inner { depth_unique(x, e, f); }
}
/// the digest of a node is the digest of its tree
pub proof fn digest_of(x: Tree, e: nat, a: Tree, b: Tree)
    requires no_coll(a, b), canon(x, e), ins(x, a, b)
    ensures node_of(x, e).digest() == thash(x), node_of(x, e).empty() == (x is Empty), !(x is Empty) ==> thash(x) != hzero(),
        node_of(x, e).leafish() == !(x is Inner), (node_of(x, e).prefix == Prefix::Node) == (x is Inner),
        e < 256 || !(x is Inner)
{
    match x {
        Tree::Inner(l, r) => {
            if subt(x, a) { subt_child(x, a); } else { subt_child(x, b); }
            assert(*l == tchild(x, false) && *r == tchild(x, true));
            assert(ins(*l, a, b) && ins(*r, a, b));
            if *l is Empty { assert(thash(*r) != hzero()); } else { assert(thash(*l) != hzero()); }
        }
        _ => {}
    }
}

// ---- paths -----------------------------------------------------------------

/// the subtrees on the path of key k, from the top
pub open spec fn spine(t: Tree, k: H32, d: nat) -> Seq<Tree>
    decreases t
{
    match t {
        Tree::Inner(l, r) => seq![t] + (if kbit(k, d as int) { spine(*r, k, d + 1) } else { spine(*l, k, d + 1) }),
        _ => seq![t],
    }
}
/// the siblings of the subtrees on the path, from the top
pub open spec fn sibl(t: Tree, k: H32, d: nat) -> Seq<Tree>
    decreases t
{
    match t {
        Tree::Inner(l, r) => if kbit(k, d as int) { seq![*l] + sibl(*r, k, d + 1) } else { seq![*r] + sibl(*l, k, d + 1) },
        _ => seq![],
    }
}
pub open spec fn spine_facts(t: Tree, k: H32, d: nat) -> bool {
    let s = spine(t, k, d);
    let o = sibl(t, k, d);
    &&& s.len() == o.len() + 1
    &&& s[0] == t
    &&& !(s.last() is Inner)
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> sub(s[i], (d + i) as nat, t, d) && (i < o.len() ==> s[i] is Inner)
    &&& forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> sub(o[i], (d + i + 1) as nat, t, d) && s[i] is Inner
            && s[i + 1] == tchild(s[i], kbit(k, d + i)) && o[i] == tchild(s[i], !kbit(k, d + i))
}
pub proof fn spine_lemma(t: Tree, k: H32, d: nat)
    ensures spine_facts(t, k, d)
    decreases t
{
    match t {
        Tree::Inner(l, r) => {
            let b = kbit(k, d as int);
            let c = tchild(t, b);
            let s = spine(t, k, d);
            let o = sibl(t, k, d);
            let s1 = spine(c, k, d + 1);
            let o1 = sibl(c, k, d + 1);
            spine_lemma(c, k, d + 1);
            assert(s =~= seq![t] + s1);
            assert(o =~= seq![tchild(t, !b)] + o1);
            assert(s.last() == s1.last());
            assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies sub(s[i], (d + i) as nat, t, d) && (i < o.len() ==> s[i] is Inner) by {
                if i > 0 { assert(s[i] == s1[i - 1]); }
            }
            assert forall|i: int| #![trigger o[i]] 0 <= i < o.len() implies sub(o[i], (d + i + 1) as nat, t, d) && s[i] is Inner
                && s[i + 1] == tchild(s[i], kbit(k, d + i)) && o[i] == tchild(s[i], !kbit(k, d + i)) by {
                if i > 0 { assert(o[i] == o1[i - 1]); assert(s[i] == s1[i - 1]); assert(s[i + 1] == s1[i]); }
                else { assert(sub(o[0], d + 1, o[0], d + 1)); assert(s[1] == s1[0]); }
            }
        }
        _ => { assert(spine(t, k, d) =~= seq![t]); assert(sibl(t, k, d) =~= seq![]); }
    }
}
// ---- building up ---------------------------------------------------------------

/// the nodes made by joining `cur` with the side nodes, from the leaf upwards
#[verifier::opaque]
pub open spec fn climb(k: H32, cur: Node, sides: Seq<Node>) -> Seq<Node>
    decreases sides.len()
{
    if sides.len() == 0 { Seq::empty() } else {
        let p = climb(k, cur, sides.drop_last());
        p.push(join_on(k, top(cur, p), sides.last()))
    }
}
pub open spec fn join_on(k: H32, cur: Node, side: Node) -> Node { mrg(kbit(k, 256 - mrg_height(cur, side)), cur, side) }
pub open spec fn top(cur: Node, p: Seq<Node>) -> Node { if p.len() == 0 { cur } else { p.last() } }
pub open spec fn climb_ok(k: H32, cur: Node, sides: Seq<Node>) -> bool {
    forall|j: int| 0 <= j < sides.len() ==> mrg_pre(top(cur, climb(k, cur, sides.take(j))), #[trigger] sides[j])
}
pub proof fn climb_step(k: H32, cur: Node, sides: Seq<Node>, j: int)
    requires 0 <= j < sides.len()
    ensures climb(k, cur, sides.take(j + 1)) == climb(k, cur, sides.take(j)).push(join_on(k, top(cur, climb(k, cur, sides.take(j))), sides[j])),
        top(cur, climb(k, cur, sides.take(j + 1))) == join_on(k, top(cur, climb(k, cur, sides.take(j))), sides[j]),
{ reveal(climb); assert(sides.take(j + 1).drop_last() =~= sides.take(j)); assert(sides.take(j + 1).last() == sides[j]); }
pub proof fn climb_zero(k: H32, cur: Node)
    ensures climb(k, cur, Seq::<Node>::empty()) == Seq::<Node>::empty()
{ reveal(climb); }
pub proof fn climb_len(k: H32, cur: Node, sides: Seq<Node>)
    ensures climb(k, cur, sides).len() == sides.len()
    decreases sides.len()
{ reveal(climb); if sides.len() > 0 { climb_len(k, cur, sides.drop_last()); } }

/// joining the child on the path with its sibling gives the parent
pub proof fn join_node(x: Tree, i: nat, k: H32, a: Tree, b: Tree)
    requires no_coll(a, b), canon(x, i), ins(x, a, b), x is Inner
    ensures ({
        let c = node_of(tchild(x, kbit(k, i as int)), i + 1);
        let o = node_of(tchild(x, !kbit(k, i as int)), i + 1);
        mrg_pre(c, o) && mrg_height(c, o) == 256 - i && join_on(k, c, o) == node_of(x, i)
    })
{
    let t = kbit(k, i as int);
    let c = tchild(x, t);
    let o = tchild(x, !t);
    if subt(x, a) { subt_child(x, a); } else { subt_child(x, b); }
    assert(subt(c, a) || subt(c, b));
    assert(subt(o, a) || subt(o, b));
    assert(ins(c, a, b) && ins(o, a, b));
    digest_of(c, i + 1, a, b);
    digest_of(o, i + 1, a, b);
    match (c, o) {
        (Tree::Leaf(k1, v1), Tree::Leaf(k2, v2)) => {
            assert(items(c).contains_key(k1) && items(o).contains_key(k2));
            assert(items(x).contains_key(k1) && items(x).contains_key(k2));
            assert(agree(k1, k2, i as int));
            assert(kbit(k1, i as int) != kbit(k2, i as int));
            cpl_char(k1, k2, i);
        }
        _ => {}
    }
}
/// the nodes of the siblings, from the leaf upwards
pub open spec fn side_seq(o: Seq<Tree>) -> Seq<Node> {
    Seq::new(o.len(), |j: int| node_of(o[o.len() - 1 - j], (o.len() - j) as nat))
}
/// the nodes of the path above its end, from the leaf upwards
pub open spec fn up_seq(s: Seq<Tree>) -> Seq<Node> {
    Seq::new((s.len() - 1) as nat, |j: int| node_of(s[s.len() - 2 - j], (s.len() - 2 - j) as nat))
}
pub proof fn spine_at(t: Tree, k: H32, i: nat)
    requires i < sibl(t, k, 0).len(), canon(t, 0)
    ensures ({
        let s = spine(t, k, 0);
        let o = sibl(t, k, 0);
        &&& s.len() == o.len() + 1
        &&& sub(s[i as int], i, t, 0)
        &&& canon(s[i as int], i)
        &&& subt(s[i as int], t)
        &&& s[i as int] is Inner
        &&& s[i as int + 1] == tchild(s[i as int], kbit(k, i as int))
        &&& o[i as int] == tchild(s[i as int], !kbit(k, i as int))
    })
{
    spine_lemma(t, k, 0);
    assert(sub(spine(t, k, 0)[i as int], (0 + i) as nat, t, 0));
    assert(sub(sibl(t, k, 0)[i as int], (0 + i + 1) as nat, t, 0));
    sub_canon(spine(t, k, 0)[i as int], i, t, 0);
}
/// joining the end of a path with the siblings gives the nodes of the path
pub open spec fn climbs(t: Tree, k: H32, j: int) -> bool {
    let o = sibl(t, k, 0);
    let s = spine(t, k, 0);
    let cur = node_of(s.last(), o.len());
    &&& climb(k, cur, side_seq(o).take(j)) == up_seq(s).take(j)
    &&& top(cur, up_seq(s).take(j)) == node_of(s[o.len() - j], (o.len() - j) as nat)
}
pub proof fn climb_tree_step(t: Tree, k: H32, j: int, a: Tree, b: Tree)
    requires no_coll(a, b), canon(t, 0), t == a || t == b, 0 < j <= sibl(t, k, 0).len(), climbs(t, k, j - 1)
    ensures climbs(t, k, j),
        mrg_pre(top(node_of(spine(t, k, 0).last(), sibl(t, k, 0).len()), climb(k, node_of(spine(t, k, 0).last(), sibl(t, k, 0).len()), side_seq(sibl(t, k, 0)).take(j - 1))), side_seq(sibl(t, k, 0))[j - 1]),
{
    let o = sibl(t, k, 0);
    let s = spine(t, k, 0);
    let n = o.len();
    let cur = node_of(s.last(), o.len());
    let q = side_seq(o);
    let u = up_seq(s);
    let i = (n - j) as nat;
    spine_at(t, k, i);
    climb_step(k, cur, q, j - 1);
    let x = s[i as int];
    assert(ins(x, a, b));
    join_node(x, i, k, a, b);
    assert(q[j - 1] == node_of(o[i as int], i + 1));
    assert(u[j - 1] == node_of(x, i));
    assert(u.take(j) =~= u.take(j - 1).push(u[j - 1]));
}
pub proof fn climb_ok_push(k: H32, cur: Node, q: Seq<Node>, j: int)
    requires 0 < j <= q.len(), climb_ok(k, cur, q.take(j - 1)), mrg_pre(top(cur, climb(k, cur, q.take(j - 1))), q[j - 1])
    ensures climb_ok(k, cur, q.take(j))
{
    assert forall|m: int| 0 <= m < q.take(j).len() implies mrg_pre(top(cur, climb(k, cur, q.take(j).take(m))), #[trigger] q.take(j)[m]) by {
        assert(q.take(j).take(m) =~= q.take(m));
        if m < j - 1 {
            assert(q.take(j - 1).take(m) =~= q.take(m));
            assert(q.take(j - 1)[m] == q.take(j)[m]);
        }
    }
}
pub proof fn climb_tree(t: Tree, k: H32, j: int, a: Tree, b: Tree)
    requires no_coll(a, b), canon(t, 0), t == a || t == b, 0 <= j <= sibl(t, k, 0).len()
    ensures climbs(t, k, j), climb_ok(k, node_of(spine(t, k, 0).last(), sibl(t, k, 0).len()), side_seq(sibl(t, k, 0)).take(j)),
    decreases j
{
    let cur = node_of(spine(t, k, 0).last(), sibl(t, k, 0).len());
    let q = side_seq(sibl(t, k, 0));
    if j > 0 {
        climb_tree(t, k, j - 1, a, b);
        climb_tree_step(t, k, j, a, b);
        climb_ok_push(k, cur, q, j);
    } else {
        spine_lemma(t, k, 0);
        assert(up_seq(spine(t, k, 0)).take(0) =~= Seq::<Node>::empty());
        assert(q.take(0) =~= Seq::<Node>::empty());
        climb_zero(k, cur);
    }
}

// ---- update ----------------------------------------------------------------------

/// the smallest tree at depth d with two leaves
pub open spec fn join(k: H32, v: H32, k2: H32, v2: H32, d: nat) -> Tree
    decreases 256 - d
{
    if d >= 256 { Tree::Leaf(k, v) }
    else if kbit(k, d as int) != kbit(k2, d as int) {
        if kbit(k, d as int) { Tree::Inner(Box::new(Tree::Leaf(k2, v2)), Box::new(Tree::Leaf(k, v))) }
        else { Tree::Inner(Box::new(Tree::Leaf(k, v)), Box::new(Tree::Leaf(k2, v2))) }
    }
    else if kbit(k, d as int) { Tree::Inner(Box::new(Tree::Empty), Box::new(join(k, v, k2, v2, d + 1))) }
    else { Tree::Inner(Box::new(join(k, v, k2, v2, d + 1)), Box::new(Tree::Empty)) }
}
pub open spec fn upd(t: Tree, k: H32, v: H32, d: nat) -> Tree
    decreases t
{
    match t {
        Tree::Empty => Tree::Leaf(k, v),
        Tree::Leaf(k2, v2) => if k == k2 { Tree::Leaf(k, v) } else { join(k, v, k2, v2, d) },
        Tree::Inner(l, r) => if kbit(k, d as int) { Tree::Inner(l, Box::new(upd(*r, k, v, d + 1))) } else { Tree::Inner(Box::new(upd(*l, k, v, d + 1)), r) },
    }
}
pub open spec fn fits_at(k: H32, t: Tree, d: nat) -> bool {
    forall|b: H32| #[trigger] items(t).contains_key(b) ==> agree(k, b, d as int)
}
pub proof fn join_lemma(k: H32, v: H32, k2: H32, v2: H32, d: nat)
    requires d < 256, k != k2, agree(k, k2, d as int), !(k == hzero() && v == hzero()), !(k2 == hzero() && v2 == hzero())
    ensures ({
        let t = join(k, v, k2, v2, d);
        canon(t, d) && t is Inner && items(t) == Map::<H32, H32>::empty().insert(k2, v2).insert(k, v)
    })
    decreases 256 - d
{
    reveal_with_fuel(items, 3);
    reveal_with_fuel(canon, 3);
    let t = join(k, v, k2, v2, d);
    let m = Map::<H32, H32>::empty().insert(k2, v2).insert(k, v);
    cpl_lt(k, k2);
    cpl_char(k, k2, 0);
    if kbit(k, d as int) == kbit(k2, d as int) {
        if d + 1 >= 256 { key_ext(k, k2); }
        join_lemma(k, v, k2, v2, d + 1);
        let j = join(k, v, k2, v2, d + 1);
        assert(items(t) =~= m);
        assert(together(m, d)) by { assert forall|i: int| 0 <= i < d implies kbit(k, i) == kbit(k2, i) by {} };
    } else {
        assert(items(t) =~= m);
        assert(together(m, d)) by { assert forall|i: int| 0 <= i < d implies kbit(k, i) == kbit(k2, i) by {} };
    }
}
pub proof fn upd_canon(t: Tree, k: H32, v: H32, d: nat)
    requires canon(t, d), d <= 256, fits_at(k, t, d), !(k == hzero() && v == hzero())
    ensures ({
        let u = upd(t, k, v, d);
        canon(u, d) && items(u) == items(t).insert(k, v) && !(u is Empty) && (t is Inner ==> u is Inner)
    })
    decreases t
{
    let u = upd(t, k, v, d);
    match t {
        Tree::Empty => { }
        Tree::Leaf(k2, v2) => {
            if k != k2 {
                assert(items(t).contains_key(k2));
                if d >= 256 { key_ext(k, k2); }
                join_lemma(k, v, k2, v2, d);
            } else {
                assert(items(u) =~= items(t).insert(k, v));
            }
        }
        Tree::Inner(l, r) => {
            let b = kbit(k, d as int);
            let c = tchild(t, b);
            assert forall|x: H32| #[trigger] items(c).contains_key(x) implies agree(k, x, d as int + 1) by {
                assert(items(t).contains_key(x));
                assert(kbit(x, d as int) == b);
            }
            upd_canon(c, k, v, d + 1);
            assert(items(u) =~= items(t).insert(k, v));
            assert forall|x: H32, y: H32| #![trigger items(u).contains_key(x), items(u).contains_key(y)] items(u).contains_key(x) && items(u).contains_key(y) implies agree(x, y, d as int) by {
                if x == k { if y != k { assert(agree(k, y, d as int)); } }
                else if y == k { assert(agree(k, x, d as int)); assert forall|i: int| 0 <= i < d implies kbit(x, i) == kbit(k, i) by {} }
                else { assert(items(t).contains_key(x) && items(t).contains_key(y)); }
            }
        }
    }
}
/// what an update adds below the end of the path: the siblings, from the top
pub open spec fn ext(last: Tree, k: H32, e: nat) -> Seq<Tree> {
    match last {
        Tree::Leaf(k2, v2) => if k2 == k { seq![] } else { Seq::new((cpl(k, k2) - e) as nat, |i: int| Tree::Empty).push(last) },
        _ => seq![],
    }
}
pub proof fn join_path(k: H32, v: H32, k2: H32, v2: H32, d: nat)
    requires d < 256, k != k2, agree(k, k2, d as int)
    ensures ({
        let t = join(k, v, k2, v2, d);
        &&& sibl(t, k, d) == ext(Tree::Leaf(k2, v2), k, d)
        &&& spine(t, k, d).last() == Tree::Leaf(k, v)
        &&& cpl(k, k2) >= d
    })
    decreases 256 - d
{
    let t = join(k, v, k2, v2, d);
    let x = Tree::Leaf(k2, v2);
    cpl_lt(k, k2);
    if kbit(k, d as int) == kbit(k2, d as int) {
        if d + 1 >= 256 { key_ext(k, k2); }
        join_path(k, v, k2, v2, d + 1);
        spine_lemma(join(k, v, k2, v2, d + 1), k, d + 1);
        assert(sibl(t, k, d) =~= seq![Tree::Empty] + ext(x, k, d + 1));
        assert(sibl(t, k, d) =~= ext(x, k, d));
        assert(spine(t, k, d) =~= seq![t] + spine(join(k, v, k2, v2, d + 1), k, d + 1));
    } else {
        cpl_char(k, k2, d);
        assert(sibl(t, k, d) =~= seq![x] + sibl(Tree::Leaf(k, v), k, d + 1));
        assert(sibl(t, k, d) =~= ext(x, k, d));
        assert(spine(t, k, d) =~= seq![t] + spine(Tree::Leaf(k, v), k, d + 1));
    }
}
pub proof fn upd_path(t: Tree, k: H32, v: H32, d: nat)
    requires canon(t, d), d <= 256, fits_at(k, t, d)
    ensures ({
        let u = upd(t, k, v, d);
        let n = sibl(t, k, d).len();
        let last = spine(t, k, d).last();
        &&& sibl(u, k, d) == sibl(t, k, d) + ext(last, k, d + n)
        &&& spine(u, k, d).last() == Tree::Leaf(k, v)
        &&& last matches Tree::Leaf(k2, v2) ==> (k2 != k ==> cpl(k, k2) >= d + n)
    })
    decreases t
{
    let u = upd(t, k, v, d);
    match t {
        Tree::Empty => { assert(sibl(u, k, d) =~= seq![]); }
        Tree::Leaf(k2, v2) => {
            if k != k2 {
                assert(items(t).contains_key(k2));
                if d >= 256 { key_ext(k, k2); }
                join_path(k, v, k2, v2, d);
                assert(sibl(u, k, d) =~= sibl(t, k, d) + ext(t, k, d));
            } else { assert(sibl(u, k, d) =~= seq![]); }
        }
        Tree::Inner(l, r) => {
            let b = kbit(k, d as int);
            let c = tchild(t, b);
            let o = tchild(t, !b);
            assert forall|x: H32| #[trigger] items(c).contains_key(x) implies agree(k, x, d as int + 1) by {
                assert(items(t).contains_key(x));
                assert(kbit(x, d as int) == b);
            }
            upd_path(c, k, v, d + 1);
            spine_lemma(c, k, d + 1);
            spine_lemma(upd(c, k, v, d + 1), k, d + 1);
            let last = spine(c, k, d + 1).last();
            assert(spine(t, k, d) =~= seq![t] + spine(c, k, d + 1));
            assert(spine(u, k, d) =~= seq![u] + spine(upd(c, k, v, d + 1), k, d + 1));
            assert(sibl(t, k, d) =~= seq![o] + sibl(c, k, d + 1));
            assert(sibl(u, k, d) =~= seq![o] + sibl(upd(c, k, v, d + 1), k, d + 1));
            assert(spine(t, k, d).last() == last);
            assert(d + 1 + sibl(c, k, d + 1).len() == d + sibl(t, k, d).len());
            assert(sibl(u, k, d) =~= sibl(t, k, d) + ext(last, k, d + sibl(t, k, d).len()));
        }
    }
}
/// y at depth e is on the path of k
pub open spec fn on_spine(y: Tree, e: nat, t: Tree, k: H32, d: nat) -> bool {
    d <= e < d + spine(t, k, d).len() && spine(t, k, d)[e - d] == y
}
/// y is a subtree of t off the path of k
pub open spec fn off_path(y: Tree, e: nat, t: Tree, d: nat, k: H32) -> bool {
    y is Empty || (!items(y).contains_key(k) && exists|e2: nat| #[trigger] sub(y, e2, t, d) && (e2 == e || y is Leaf))
}
/// a subtree at some place is on the path or a subtree of a sibling
pub proof fn on_or_off(y: Tree, e: nat, t: Tree, k: H32, d: nat)
    requires canon(t, d), sub(y, e, t, d)
    ensures on_spine(y, e, t, k, d) || (exists|i: int| 0 <= i < sibl(t, k, d).len() && #[trigger] sub(y, e, sibl(t, k, d)[i], (d + i + 1) as nat))
    decreases t
{
    spine_lemma(t, k, d);
    if !(y == t && e == d) {
        let b = kbit(k, d as int);
        let c = tchild(t, b);
        let o = tchild(t, !b);
        assert(spine(t, k, d) =~= seq![t] + spine(c, k, d + 1));
        assert(sibl(t, k, d) =~= seq![o] + sibl(c, k, d + 1));
        if sub(y, e, o, d + 1) {
            assert(sibl(t, k, d)[0] == o);
        } else {
            on_or_off(y, e, c, k, d + 1);
            if on_spine(y, e, c, k, d + 1) {
            } else {
                let i = choose|i: int| 0 <= i < sibl(c, k, d + 1).len() && #[trigger] sub(y, e, sibl(c, k, d + 1)[i], (d + 1 + i + 1) as nat);
                assert(sibl(t, k, d)[i + 1] == sibl(c, k, d + 1)[i]);
                assert((d + 1 + i + 1) as nat == (d + (i + 1) + 1) as nat);
            }
        }
    }
}
pub proof fn sub_trans(y: Tree, e: nat, x: Tree, f: nat, t: Tree, d: nat)
    requires sub(y, e, x, f), sub(x, f, t, d)
    ensures sub(y, e, t, d)
    decreases t
{
    if !(x == t && f == d) {
        match t {
            Tree::Inner(l, r) => { if sub(x, f, *l, d + 1) { sub_trans(y, e, x, f, *l, d + 1); } else { sub_trans(y, e, x, f, *r, d + 1); } }
            _ => {}
        }
    }
}
/// the siblings of a path do not have its key
pub proof fn sibl_no_key(t: Tree, k: H32, d: nat, i: int)
    requires canon(t, d), 0 <= i < sibl(t, k, d).len()
    ensures !items(sibl(t, k, d)[i]).contains_key(k)
{
    spine_lemma(t, k, d);
    let x = spine(t, k, d)[i];
    assert(sibl(t, k, d)[i] == tchild(x, !kbit(k, d + i)));
    sub_canon(x, (d + i) as nat, t, d);
}
/// every subtree of a tree with these siblings is on the path or off the path of the tree they come from
pub proof fn off_of_sibl(y: Tree, e: nat, u: Tree, t: Tree, k: H32, d: nat)
    requires canon(u, d), sub(y, e, u, d),
        forall|i: int| #![trigger sibl(u, k, d)[i]] 0 <= i < sibl(u, k, d).len() ==> off_path(sibl(u, k, d)[i], (d + i + 1) as nat, t, d, k),
    ensures on_spine(y, e, u, k, d) || off_path(y, e, t, d, k)
{
    on_or_off(y, e, u, k, d);
    if !on_spine(y, e, u, k, d) {
        let i = choose|i: int| 0 <= i < sibl(u, k, d).len() && #[trigger] sub(y, e, sibl(u, k, d)[i], (d + i + 1) as nat);
        let x = sibl(u, k, d)[i];
        let f = (d + i + 1) as nat;
        assert(off_path(x, f, t, d, k));
        spine_lemma(u, k, d);
        sub_canon(x, f, u, d);
        sub_canon(y, e, x, f);
        if x is Empty { assert(y is Empty); }
        else {
            let e2 = choose|e2: nat| #[trigger] sub(x, e2, t, d) && (e2 == f || x is Leaf);
            if x is Leaf { assert(y == x && e == f); assert(sub(y, e2, t, d)); }
            else { sub_trans(y, e, x, f, t, d); assert(sub(y, e, t, d)); }
        }
    }
}
pub proof fn sibl_off(t: Tree, k: H32, d: nat, i: int)
    requires canon(t, d), 0 <= i < sibl(t, k, d).len()
    ensures off_path(sibl(t, k, d)[i], (d + i + 1) as nat, t, d, k)
{
    spine_lemma(t, k, d);
    sibl_no_key(t, k, d, i);
    assert(sub(sibl(t, k, d)[i], (d + i + 1) as nat, t, d));
}
pub proof fn upd_off(y: Tree, e: nat, t: Tree, k: H32, v: H32)
    requires canon(t, 0), sub(y, e, upd(t, k, v, 0), 0), !(k == hzero() && v == hzero())
    ensures on_spine(y, e, upd(t, k, v, 0), k, 0) || off_path(y, e, t, 0, k)
{
    let u = upd(t, k, v, 0);
    upd_canon(t, k, v, 0);
    upd_path(t, k, v, 0);
    spine_lemma(t, k, 0);
    let o = sibl(t, k, 0);
    let w = sibl(u, k, 0);
    let last = spine(t, k, 0).last();
    assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies off_path(w[i], (0 + i + 1) as nat, t, 0, k) by {
        if i < o.len() { sibl_off(t, k, 0, i); assert(w[i] == o[i]); }
        else if i < w.len() - 1 { assert(w[i] is Empty); }
        else {
            assert(w[i] == last);
            assert(spine(t, k, 0)[o.len() as int] == last);
            assert(sub(last, (0 + o.len()) as nat, t, 0));
        }
    }
    off_of_sibl(y, e, u, t, k, 0);
}

// ---- delete ------------------------------------------------------------------------

/// the parent of two subtrees, unless there is at most one key below it
pub open spec fn norm(l: Tree, r: Tree) -> Tree {
    if l is Empty && !(r is Inner) { r } else if r is Empty && !(l is Inner) { l } else { Tree::Inner(Box::new(l), Box::new(r)) }
}
pub open spec fn del(t: Tree, k: H32, d: nat) -> Tree
    decreases t
{
    match t {
        Tree::Empty => Tree::Empty,
        Tree::Leaf(k2, v2) => if k == k2 { Tree::Empty } else { t },
        Tree::Inner(l, r) => if kbit(k, d as int) { norm(*l, del(*r, k, d + 1)) } else { norm(del(*l, k, d + 1), *r) },
    }
}
pub proof fn norm_canon(l: Tree, r: Tree, l2: Tree, r2: Tree, k: H32, d: nat)
    requires canon(Tree::Inner(Box::new(l), Box::new(r)), d), canon(l2, d + 1), canon(r2, d + 1),
        items(l2) == items(l).remove(k), items(r2) == items(r).remove(k),
    ensures canon(norm(l2, r2), d), items(norm(l2, r2)) == items(Tree::Inner(Box::new(l), Box::new(r))).remove(k)
{
    let t = Tree::Inner(Box::new(l), Box::new(r));
    let u = norm(l2, r2);
    let full = Tree::Inner(Box::new(l2), Box::new(r2));
    assert(items(full) =~= items(t).remove(k)) by {
        assert forall|x: H32| #[trigger] items(l).contains_key(x) implies !items(r).contains_key(x) by {}
    }
    assert(items(u) =~= items(full));
    assert(one_side(items(l2), d, false)) by { assert forall|x: H32| #[trigger] items(l2).contains_key(x) implies kbit(x, d as int) == false by { assert(items(l).contains_key(x)); } }
    assert(one_side(items(r2), d, true)) by { assert forall|x: H32| #[trigger] items(r2).contains_key(x) implies kbit(x, d as int) == true by { assert(items(r).contains_key(x)); } }
    assert(together(items(full), d)) by {
        assert forall|x: H32, y: H32| #![trigger items(full).contains_key(x), items(full).contains_key(y)] items(full).contains_key(x) && items(full).contains_key(y) implies agree(x, y, d as int) by {
            assert(items(t).contains_key(x) && items(t).contains_key(y));
        }
    }
}
pub proof fn del_canon(t: Tree, k: H32, d: nat)
    requires canon(t, d)
    ensures ({
        let u = del(t, k, d);
        canon(u, d) && items(u) == items(t).remove(k) && (!items(t).contains_key(k) ==> u == t) && (t is Inner ==> !(u is Empty))
    })
    decreases t
{
    let u = del(t, k, d);
    match t {
        Tree::Empty => { assert(items(u) =~= items(t).remove(k)); }
        Tree::Leaf(k2, v2) => { assert(items(u) =~= items(t).remove(k)); }
        Tree::Inner(l, r) => {
            let b = kbit(k, d as int);
            let c = tchild(t, b);
            let o = tchild(t, !b);
            del_canon(c, k, d + 1);
            let c2 = del(c, k, d + 1);
            assert(!items(o).contains_key(k));
            assert(items(o).remove(k) =~= items(o));
            let (l2, r2) = if b { (*l, c2) } else { (c2, *r) };
            assert(u == norm(l2, r2));
            norm_canon(*l, *r, l2, r2, k, d);
            if !items(t).contains_key(k) { assert(u == t); }
        }
    }
}
/// without the empty trees at the end
pub open spec fn strip(s: Seq<Tree>) -> Seq<Tree>
    decreases s.len()
{
    if s.len() > 0 && s.last() is Empty { strip(s.drop_last()) } else { s }
}
pub proof fn strip_prefix(s: Seq<Tree>)
    ensures
        strip(s).len() <= s.len(), strip(s) == s.take(strip(s).len() as int),
        forall|i: int| strip(s).len() <= i < s.len() ==> (#[trigger] s[i]) is Empty,
        strip(s).len() > 0 ==> !(strip(s).last() is Empty),
    decreases s.len()
{
    if s.len() > 0 && s.last() is Empty {
        strip_prefix(s.drop_last());
        assert(strip(s) =~= s.take(strip(s).len() as int));
        assert forall|i: int| strip(s).len() <= i < s.len() implies (#[trigger] s[i]) is Empty by {
            if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); }
        }
    } else { assert(s =~= s.take(s.len() as int)); }
}
pub proof fn strip_cons(x: Tree, s: Seq<Tree>)
    ensures strip(seq![x] + s) == (if strip(s).len() > 0 { seq![x] + strip(s) } else { strip(seq![x]) })
    decreases s.len()
{
    let y = seq![x] + s;
    if s.len() == 0 { assert(y =~= seq![x]); }
    else {
        assert(y.last() == s.last());
        assert(y.drop_last() =~= seq![x] + s.drop_last());
        if s.last() is Empty { strip_cons(x, s.drop_last()); }
    }
}
/// the siblings, from the top, after the end of the path is deleted
pub open spec fn dlist(s: Seq<Tree>) -> Seq<Tree> {
    if s.len() > 0 && !(s.last() is Inner) { strip(s.drop_last()) } else { s }
}
/// what takes the place of the end of the path
pub open spec fn dlast(s: Seq<Tree>) -> Tree { if s.len() > 0 && !(s.last() is Inner) { s.last() } else { Tree::Empty } }
pub proof fn dlist_prefix(s: Seq<Tree>)
    ensures dlist(s).len() <= s.len(), forall|i: int| 0 <= i < dlist(s).len() ==> #[trigger] dlist(s)[i] == s[i],
{ if s.len() > 0 { strip_prefix(s.drop_last()); } }
/// what deleting makes of the siblings, one level up
pub proof fn dlist_step(o: Tree, s1: Seq<Tree>)
    ensures
        s1.len() == 0 && o is Inner ==> dlist(seq![o] + s1) == seq![o] && dlast(seq![o] + s1) is Empty,
        s1.len() == 0 && !(o is Inner) ==> dlist(seq![o] + s1) == Seq::<Tree>::empty() && dlast(seq![o] + s1) == o,
        s1.len() > 0 ==> dlast(seq![o] + s1) == dlast(s1),
        s1.len() > 0 && dlist(s1).len() > 0 ==> dlist(seq![o] + s1) == seq![o] + dlist(s1),
        s1.len() > 0 && dlist(s1).len() == 0 ==> dlist(seq![o] + s1) == (if o is Empty { Seq::<Tree>::empty() } else { seq![o] }),
{
    let s = seq![o] + s1;
    assert(seq![o].drop_last() =~= Seq::<Tree>::empty());
    if s1.len() == 0 {
        assert(s =~= seq![o]);
    } else {
        assert(s.last() == s1.last());
        assert(s.drop_last() =~= seq![o] + s1.drop_last());
        strip_cons(o, s1.drop_last());
        assert(strip(Seq::<Tree>::empty()) == Seq::<Tree>::empty());
        assert(strip(seq![o]) == (if o is Empty { Seq::<Tree>::empty() } else { seq![o] }));
    }
}
pub proof fn del_path(t: Tree, k: H32, d: nat)
    requires canon(t, d), items(t).contains_key(k)
    ensures sibl(del(t, k, d), k, d) == dlist(sibl(t, k, d)), spine(del(t, k, d), k, d).last() == dlast(sibl(t, k, d)),
    decreases t
{
    let u = del(t, k, d);
    let s = sibl(t, k, d);
    match t {
        Tree::Inner(l, r) => {
            let b = kbit(k, d as int);
            let c = tchild(t, b);
            let o = tchild(t, !b);
            let c2 = del(c, k, d + 1);
            let s1 = sibl(c, k, d + 1);
            assert(items(c).contains_key(k));
            del_path(c, k, d + 1);
            del_canon(c, k, d + 1);
            spine_len(c, k, d + 1);
            spine_len(c2, k, d + 1);
            assert(s == seq![o] + s1);
            dlist_step(o, s1);
            assert(u == if b { norm(o, c2) } else { norm(c2, o) });
            if s1.len() == 0 {
                assert(c2 is Empty);
                assert(spine(c2, k, d + 1) =~= seq![c2]);
            } else {
                assert(!(c2 is Empty));
                if !(c2 is Inner) { assert(spine(c2, k, d + 1) =~= seq![c2]); }
            }
            if u is Inner {
                assert(u == if b { Tree::Inner(Box::new(o), Box::new(c2)) } else { Tree::Inner(Box::new(c2), Box::new(o)) });
                assert(sibl(u, k, d) == seq![o] + sibl(c2, k, d + 1));
                assert(spine(u, k, d) == seq![u] + spine(c2, k, d + 1));
                assert(spine(u, k, d).last() == spine(c2, k, d + 1).last());
                assert(sibl(u, k, d) =~= dlist(s));
            } else {
                assert(sibl(u, k, d) =~= Seq::<Tree>::empty());
                assert(spine(u, k, d) =~= seq![u]);
            }
        }
        _ => {
            assert(s =~= Seq::<Tree>::empty());
            assert(sibl(u, k, d) =~= Seq::<Tree>::empty());
            assert(spine(u, k, d) =~= seq![u]);
        }
    }
}
pub proof fn spine_len(t: Tree, k: H32, d: nat)
    ensures spine(t, k, d).len() == sibl(t, k, d).len() + 1, (sibl(t, k, d).len() > 0) == (t is Inner)
{ spine_lemma(t, k, d); }
/// the key is in the tree if and only if its path ends in its leaf
pub proof fn spine_key(t: Tree, k: H32, d: nat)
    requires canon(t, d)
    ensures
        items(t).contains_key(k) == (spine(t, k, d).last() matches Tree::Leaf(k2, v2) && k2 == k),
        items(t).contains_key(k) ==> forall|i: int| 0 <= i < spine(t, k, d).len() ==> items(#[trigger] spine(t, k, d)[i]).contains_key(k),
    decreases t
{
    match t {
        Tree::Inner(l, r) => {
            let c = tchild(t, kbit(k, d as int));
            spine_key(c, k, d + 1);
            spine_lemma(c, k, d + 1);
            assert(spine(t, k, d) =~= seq![t] + spine(c, k, d + 1));
        }
        _ => { assert(spine(t, k, d) =~= seq![t]); }
    }
}
pub proof fn del_off(y: Tree, e: nat, t: Tree, k: H32)
    requires canon(t, 0), items(t).contains_key(k), sub(y, e, del(t, k, 0), 0)
    ensures on_spine(y, e, del(t, k, 0), k, 0) || off_path(y, e, t, 0, k)
{
    let u = del(t, k, 0);
    del_canon(t, k, 0);
    del_path(t, k, 0);
    let o = sibl(t, k, 0);
    let w = sibl(u, k, 0);
    dlist_prefix(o);
    assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies off_path(w[i], (0 + i + 1) as nat, t, 0, k) by {
        sibl_off(t, k, 0, i); assert(w[i] == o[i]);
    }
    off_of_sibl(y, e, u, t, k, 0);
}
/// what takes the place of the deleted leaf was in the tree
pub proof fn del_last_off(t: Tree, k: H32, e: nat)
    requires canon(t, 0), items(t).contains_key(k)
    ensures off_path(spine(del(t, k, 0), k, 0).last(), e, t, 0, k)
{
    del_path(t, k, 0);
    let o = sibl(t, k, 0);
    if o.len() > 0 { sibl_off(t, k, 0, o.len() - 1); }
}

// ---- storage -----------------------------------------------------------------------

pub open spec fn put(m: SMap, n: Node) -> SMap { m.insert(n.digest(), node_prim(n)) }
pub open spec fn puts(m: SMap, ns: Seq<Node>) -> SMap
    decreases ns.len()
{
    if ns.len() == 0 { m } else { put(puts(m, ns.drop_last()), ns.last()) }
}
pub open spec fn rems(m: SMap, ns: Seq<Node>) -> SMap
    decreases ns.len()
{
    if ns.len() == 0 { m } else { rems(m, ns.drop_last()).remove(ns.last().digest()) }
}
pub proof fn puts_push(m: SMap, ns: Seq<Node>, n: Node)
    ensures puts(m, ns.push(n)) == put(puts(m, ns), n)
{ assert(ns.push(n).drop_last() =~= ns); }
pub proof fn rems_push(m: SMap, ns: Seq<Node>, n: Node)
    ensures rems(m, ns.push(n)) == rems(m, ns).remove(n.digest())
{ assert(ns.push(n).drop_last() =~= ns); }
pub open spec fn has_digest(ns: Seq<Node>, h: H32) -> bool { exists|j: int| 0 <= j < ns.len() && (#[trigger] ns[j]).digest() == h }
pub proof fn puts_get(m: SMap, ns: Seq<Node>, h: H32)
    ensures
        !has_digest(ns, h) ==> puts(m, ns).contains_key(h) == m.contains_key(h) && (m.contains_key(h) ==> puts(m, ns)[h] == m[h]),
        has_digest(ns, h) ==> puts(m, ns).contains_key(h) && exists|j: int| 0 <= j < ns.len() && (#[trigger] ns[j]).digest() == h && puts(m, ns)[h] == node_prim(ns[j]),
    decreases ns.len()
{
    if ns.len() > 0 {
        let ns2 = ns.drop_last();
        puts_get(m, ns2, h);
        if ns.last().digest() == h {
            assert(ns[ns.len() - 1].digest() == h);
        } else {
            if has_digest(ns2, h) {
                let j = choose|j: int| 0 <= j < ns2.len() && (#[trigger] ns2[j]).digest() == h && puts(m, ns2)[h] == node_prim(ns2[j]);
                assert(ns[j].digest() == h);
            }
            if has_digest(ns, h) {
                let j = choose|j: int| 0 <= j < ns.len() && (#[trigger] ns[j]).digest() == h;
                assert(ns2[j].digest() == h);
            }
        }
    }
}
pub proof fn rems_get(m: SMap, ns: Seq<Node>, h: H32)
    ensures
        rems(m, ns).contains_key(h) == (m.contains_key(h) && !has_digest(ns, h)),
        rems(m, ns).contains_key(h) ==> rems(m, ns)[h] == m[h],
    decreases ns.len()
{
    if ns.len() > 0 {
        let ns2 = ns.drop_last();
        rems_get(m, ns2, h);
        if ns.last().digest() == h { assert(ns[ns.len() - 1].digest() == h); }
        if has_digest(ns2, h) { let j = choose|j: int| 0 <= j < ns2.len() && (#[trigger] ns2[j]).digest() == h; assert(ns[j].digest() == h); }
        if has_digest(ns, h) && ns.last().digest() != h { let j = choose|j: int| 0 <= j < ns.len() && (#[trigger] ns[j]).digest() == h; assert(ns2[j].digest() == h); }
    }
}
/// the entry of x, if there is a valid one, is right; full: there is one
pub open spec fn okx(m: SMap, x: Tree, e: nat, full: bool) -> bool {
    x is Empty || if m.contains_key(thash(x)) { m[thash(x)] == node_prim(node_of(x, e)) || (!full && prim_node(m[thash(x)]) is None) } else { !full }
}
pub open spec fn part(m: SMap, t: Tree, full: bool) -> bool { forall|x: Tree, e: nat| #[trigger] sub(x, e, t, 0) ==> okx(m, x, e, full) }
/// x has no valid entry
pub open spec fn bad(m: SMap, x: Tree) -> bool { !(x is Empty) && (!m.contains_key(thash(x)) || prim_node(m[thash(x)]) is None) }
/// a node read on the path of k has no valid entry
pub open spec fn need_bad(m: SMap, t: Tree, k: H32) -> bool {
    exists|i: int, b: bool| 0 <= i < sibl(t, k, 0).len() && bad(m, #[trigger] tchild(spine(t, k, 0)[i], b))
}
/// the entry is content-addressed and well-formed
pub open spec fn entry_fmt(h: H32, p: Primitive) -> bool {
    &&& h == sha256(seq![p.1] + p.2@ + p.3@)
    &&& p.1 == 1 || (p.1 == 0 && p.0 == 0)
}
/// every entry written is content-addressed and well-formed
pub open spec fn wrote_fmt(m: SMap, m2: SMap) -> bool {
    forall|h: H32| #[trigger] m2.contains_key(h) && !(m.contains_key(h) && m[h] == m2[h]) ==> entry_fmt(h, m2[h])
}
pub open spec fn full_up(s: Seq<Tree>) -> Seq<Node> { Seq::new(s.len(), |j: int| node_of(s[s.len() - 1 - j], (s.len() - 1 - j) as nat)) }

pub proof fn no_coll_self(a: Tree, b: Tree)
    requires no_coll(a, b)
    ensures no_coll(a, a), no_coll(b, b)
{
    assert forall|x: Tree| ins(x, a, a) implies ins(x, a, b) by {}
    assert forall|x: Tree| ins(x, b, b) implies ins(x, a, b) by {}
}
/// writing a node of one of the trees keeps the entries of the other right
pub proof fn put_ok(m: SMap, y: Tree, f: nat, x: Tree, e: nat, full: bool, a: Tree, b: Tree)
    requires no_coll(a, b), canon(a, 0), canon(b, 0), place(x, e, a, b), place(y, f, a, b), !(y is Empty), okx(m, x, e, full) || node_of(x, e) == node_of(y, f)
    ensures okx(put(m, node_of(y, f)), x, e, full)
{
    place_digest(x, e, a, b);
    place_digest(y, f, a, b);
    if !(x is Empty) && thash(x) == thash(y) { same_node(x, e, y, f, a, b); }
}
pub proof fn place_digest(x: Tree, e: nat, a: Tree, b: Tree)
    requires no_coll(a, b), canon(a, 0), canon(b, 0), place(x, e, a, b)
    ensures canon(x, e), ins(x, a, b), node_of(x, e).digest() == thash(x), node_of(x, e).empty() == (x is Empty), !(x is Empty) ==> thash(x) != hzero(),
        node_of(x, e).leafish() == !(x is Inner), (node_of(x, e).prefix == Prefix::Node) == (x is Inner)
{
    if sub(x, e, a, 0) { sub_canon(x, e, a, 0); } else { sub_canon(x, e, b, 0); }
    digest_of(x, e, a, b);
}
/// writing the nodes of a path of b above its end
pub proof fn puts_ok(m: SMap, k: H32, x: Tree, e: nat, full: bool, a: Tree, b: Tree)
    requires no_coll(a, b), canon(a, 0), canon(b, 0), place(x, e, a, b),
        okx(m, x, e, full) || (e + 1 < spine(b, k, 0).len() && spine(b, k, 0)[e as int] == x),
    ensures okx(puts(m, up_seq(spine(b, k, 0))), x, e, full)
{
    let s = spine(b, k, 0);
    let ns = up_seq(s);
    spine_lemma(b, k, 0);
    place_digest(x, e, a, b);
    if !(x is Empty) {
        let h = thash(x);
        puts_get(m, ns, h);
        if has_digest(ns, h) {
            let j = choose|j: int| 0 <= j < ns.len() && (#[trigger] ns[j]).digest() == h && puts(m, ns)[h] == node_prim(ns[j]);
            let i = s.len() - 2 - j;
            assert(sub(s[i], (0 + i) as nat, b, 0));
            place_digest(s[i], i as nat, a, b);
            same_node(x, e, s[i], i as nat, a, b);
        } else if e + 1 < s.len() && s[e as int] == x {
            let j = s.len() - 2 - e;
            assert(ns[j].digest() == h);
        }
    }
}

// ---- reading a path ------------------------------------------------------------------

pub open spec fn child_key(n: Node, right: bool) -> H32 { if right { n.bytes_hi } else { n.bytes_lo } }
/// c is the child of n read from m
pub open spec fn child_ok(m: SMap, n: Node, right: bool, c: Node) -> bool {
    let h = child_key(n, right);
    !n.leafish() && if h == hzero() { c == placeholder() } else { m.contains_key(h) && prim_node(m[h]) == Some(c) }
}
/// the child of n cannot be read from m
pub open spec fn child_bad(m: SMap, n: Node, right: bool) -> bool {
    let h = child_key(n, right);
    n.leafish() || (h != hzero() && (!m.contains_key(h) || prim_node(m[h]) is None))
}
pub type NPair = (Node, Node);
pub open spec fn step_ok(m: SMap, p: NPair, q: NPair, k: H32, at: int) -> bool {
    p.0.prefix == Prefix::Node && at < 256 && child_ok(m, p.0, kbit(k, at), q.0) && child_ok(m, p.0, !kbit(k, at), q.1)
}
/// the pairs of nodes on the way down
#[verifier::opaque]
pub open spec fn walked(m: SMap, w: Seq<NPair>, root: Node, k: H32) -> bool {
    &&& w.len() > 0
    &&& w[0] == (root, root)
    &&& forall|i: int| 0 < i < w.len() ==> step_ok(m, w[i - 1], #[trigger] w[i], k, 256 - root.height + i - 1)
}
/// the way goes on below the last node
pub open spec fn goes_on(w: Seq<NPair>, root: Node) -> bool { w.last().0.prefix == Prefix::Node && 256 - root.height + w.len() - 1 < 256 }
pub open spec fn stuck(m: SMap, w: Seq<NPair>, root: Node, k: H32) -> bool {
    goes_on(w, root) && exists|b: bool| #[trigger] child_bad(m, w.last().0, b)
}
/// w is the path of k in t, as far as it goes
pub open spec fn follows(m: SMap, w: Seq<NPair>, t: Tree, k: H32) -> bool {
    let s = spine(t, k, 0);
    let o = sibl(t, k, 0);
    &&& 0 < w.len() <= s.len()
    &&& forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).0 == node_of(s[i], i as nat) && (i > 0 ==> w[i].1 == node_of(o[i - 1], i as nat))
    &&& forall|i: int, b: bool| 0 <= i < w.len() - 1 ==> !bad(m, #[trigger] tchild(s[i], b))
}
pub proof fn child_tree(m: SMap, t: Tree, x: Tree, i: nat, b: bool)
    requires canon(t, 0), no_coll(t, t), part(m, t, false), sub(x, i, t, 0), x is Inner
    ensures
        !node_of(x, i).leafish(), i < 256,
        forall|c: Node| #[trigger] child_ok(m, node_of(x, i), b, c) ==> c == node_of(tchild(x, b), i + 1) && !bad(m, tchild(x, b)),
        child_bad(m, node_of(x, i), b) ==> bad(m, tchild(x, b)),
{
    let y = tchild(x, b);
    sub_child(x, i, t, 0);
    assert(sub(y, i + 1, t, 0));
    place_digest(x, i, t, t);
    place_digest(y, i + 1, t, t);
    assert(okx(m, y, i + 1, false));
    assert(child_key(node_of(x, i), b) == thash(y));
    prim_roundtrip(node_of(y, i + 1));
}
/// element i of the path and what it means
pub proof fn spine_elem(t: Tree, k: H32, i: nat)
    requires canon(t, 0), no_coll(t, t), i < spine(t, k, 0).len()
    ensures ({
        let x = spine(t, k, 0)[i as int];
        &&& sub(x, i, t, 0) && canon(x, i)
        &&& x is Inner <==> i < sibl(t, k, 0).len()
        &&& node_of(x, i).prefix == Prefix::Node <==> x is Inner
        &&& x is Inner ==> i < 256 && node_of(t, 0).height == 256
        &&& i > 0 ==> node_of(t, 0).height == 256
        &&& i < sibl(t, k, 0).len() ==> spine(t, k, 0)[i as int + 1] == tchild(x, kbit(k, i as int)) && sibl(t, k, 0)[i as int] == tchild(x, !kbit(k, i as int))
    })
{
    let s = spine(t, k, 0);
    let o = sibl(t, k, 0);
    spine_lemma(t, k, 0);
    let x = s[i as int];
    assert(sub(x, (0 + i) as nat, t, 0));
    place_digest(x, i, t, t);
    if i >= o.len() { assert(x == s.last()); }
    else { assert(sub(o[i as int], (0 + i + 1) as nat, t, 0)); }
    if !(t is Inner) { assert(s.len() == 1); }
}
pub proof fn walk_step(m: SMap, w: Seq<NPair>, t: Tree, k: H32)
    requires canon(t, 0), no_coll(t, t), part(m, t, false), w.len() > 1, follows(m, w.drop_last(), t, k),
        step_ok(m, w[w.len() - 2], w[w.len() - 1], k, 256 - node_of(t, 0).height + w.len() - 2)
    ensures follows(m, w, t, k)
{
    let s = spine(t, k, 0);
    let o = sibl(t, k, 0);
    let n = w.len() as int;
    let v = w.drop_last();
    let i = (n - 2) as nat;
    assert(v[i as int] == w[i as int]);
    spine_len(t, k, 0);
    spine_elem(t, k, i);
    let x = s[i as int];
    assert(x is Inner);
    child_tree(m, t, x, i, true);
    child_tree(m, t, x, i, false);
    let c = kbit(k, i as int);
    assert(child_ok(m, node_of(x, i), c, w[n - 1].0));
    assert(child_ok(m, node_of(x, i), !c, w[n - 1].1));
    assert forall|j: int| 0 <= j < w.len() implies (#[trigger] w[j]).0 == node_of(s[j], j as nat) && (j > 0 ==> w[j].1 == node_of(o[j - 1], j as nat)) by {
        if j < n - 1 { assert(v[j] == w[j]); }
    }
    assert forall|j: int, b: bool| 0 <= j < w.len() - 1 implies !bad(m, #[trigger] tchild(s[j], b)) by {
        if j == i { if b == c { } else { assert(b == !c); } }
    }
}
pub proof fn walk_end(m: SMap, w: Seq<NPair>, t: Tree, k: H32)
    requires canon(t, 0), no_coll(t, t), part(m, t, false), follows(m, w, t, k)
    ensures
        stuck(m, w, node_of(t, 0), k) ==> need_bad(m, t, k),
        !goes_on(w, node_of(t, 0)) ==> w.len() == spine(t, k, 0).len() && !need_bad(m, t, k),
{
    let s = spine(t, k, 0);
    let o = sibl(t, k, 0);
    let j = (w.len() - 1) as nat;
    spine_len(t, k, 0);
    spine_elem(t, k, j);
    let x = s[j as int];
    assert(w[j as int].0 == node_of(x, j));
    if x is Inner {
        child_tree(m, t, x, j, true);
        child_tree(m, t, x, j, false);
        if stuck(m, w, node_of(t, 0), k) {
            let b = choose|b: bool| #[trigger] child_bad(m, w.last().0, b);
            assert(bad(m, tchild(s[j as int], b)));
        }
    }
}
pub proof fn walk_tree(m: SMap, w: Seq<NPair>, t: Tree, k: H32)
    requires canon(t, 0), no_coll(t, t), part(m, t, false), walked(m, w, node_of(t, 0), k)
    ensures
        follows(m, w, t, k),
        stuck(m, w, node_of(t, 0), k) ==> need_bad(m, t, k),
        !goes_on(w, node_of(t, 0)) ==> w.len() == spine(t, k, 0).len() && !need_bad(m, t, k),
    decreases w.len()
{
    reveal(walked);
    if w.len() > 1 {
        let v = w.drop_last();
        assert forall|i: int| 0 < i < v.len() implies step_ok(m, v[i - 1], #[trigger] v[i], k, 256 - node_of(t, 0).height + i - 1) by { assert(v[i] == w[i] && v[i - 1] == w[i - 1]); }
        walk_tree(m, v, t, k);
        assert(w[w.len() - 1] == w[w.len() - 1]);
        walk_step(m, w, t, k);
    } else {
        spine_lemma(t, k, 0);
        assert(w[0] == (node_of(t, 0), node_of(t, 0)));
    }
    walk_end(m, w, t, k);
}
/// the lists of nodes that the way down gives
pub proof fn walk_lists(m: SMap, w: Seq<NPair>, t: Tree, k: H32, p: Seq<Node>, q: Seq<Node>)
    requires
        follows(m, w, t, k), w.len() == spine(t, k, 0).len(), p.len() == w.len(), q.len() == w.len() - 1,
        forall|j: int| #![trigger p[j]] 0 <= j < p.len() ==> p[j] == w[w.len() - 1 - j].0,
        forall|j: int| #![trigger q[j]] 0 <= j < q.len() ==> q[j] == w[w.len() - 1 - j].1,
    ensures p == full_up(spine(t, k, 0)), q == side_seq(sibl(t, k, 0))
{
    spine_lemma(t, k, 0);
    assert(p =~= full_up(spine(t, k, 0)));
    assert(q =~= side_seq(sibl(t, k, 0)));
}

pub proof fn walked_push(m: SMap, w: Seq<NPair>, root: Node, k: H32, p: NPair)
    requires
        w.len() == 0 ==> p == (root, root),
        w.len() > 0 ==> walked(m, w, root, k) && step_ok(m, w.last(), p, k, 256 - root.height + w.len() - 1),
    ensures walked(m, w.push(p), root, k)
{
    reveal(walked);
    let v = w.push(p);
    assert forall|j: int| 0 < j < v.len() implies step_ok(m, v[j - 1], #[trigger] v[j], k, 256 - root.height + j - 1) by {
        if j < v.len() - 1 { assert(v[j] == w[j] && v[j - 1] == w[j - 1]); }
    }
}
pub proof fn walk_trees(m: SMap, w: Seq<NPair>, root: Node, k: H32)
    requires w.len() > 0 ==> walked(m, w, root, k)
    ensures
        w.len() > 0 && stuck(m, w, root, k) ==> forall|t: Tree| #[trigger] holds(root, m, t) ==> need_bad(m, t, k),
        w.len() > 0 && !goes_on(w, root) ==> forall|t: Tree| #[trigger] holds(root, m, t) ==> follows(m, w, t, k) && w.len() == spine(t, k, 0).len() && !need_bad(m, t, k),
{
    reveal(holds);
    if w.len() > 0 {
        assert forall|t: Tree| #[trigger] holds(root, m, t) implies
            (stuck(m, w, root, k) ==> need_bad(m, t, k)) && (!goes_on(w, root) ==> follows(m, w, t, k) && w.len() == spine(t, k, 0).len() && !need_bad(m, t, k)) by { walk_tree(m, w, t, k); }
    }
}
#[verifier::opaque]
pub open spec fn holds(root: Node, m: SMap, t: Tree) -> bool {
    canon(t, 0) && no_coll(t, t) && root == node_of(t, 0) && part(m, t, false)
}

/// what path_set gives back
pub open spec fn lists_ok(root: Node, m: SMap, k: H32, p: Seq<Node>, q: Seq<Node>) -> bool {
    forall|t: Tree| #[trigger] holds(root, m, t) ==> p == full_up(spine(t, k, 0)) && q == side_seq(sibl(t, k, 0)) && !need_bad(m, t, k)
}
pub open spec fn all_bad(root: Node, m: SMap, k: H32) -> bool { forall|t: Tree| #[trigger] holds(root, m, t) ==> need_bad(m, t, k) }
pub proof fn walk_result(m: SMap, w: Seq<NPair>, root: Node, k: H32, p: Seq<Node>, q: Seq<Node>)
    requires
        walked(m, w, root, k), !goes_on(w, root), p.len() == w.len(), q.len() == w.len() - 1,
        forall|j: int| #![trigger p[j]] 0 <= j < p.len() ==> p[j] == w[w.len() - 1 - j].0,
        forall|j: int| #![trigger q[j]] 0 <= j < q.len() ==> q[j] == w[w.len() - 1 - j].1,
    ensures lists_ok(root, m, k, p, q)
{
    walk_trees(m, w, root, k);
    assert forall|t: Tree| #[trigger] holds(root, m, t) implies p == full_up(spine(t, k, 0)) && q == side_seq(sibl(t, k, 0)) && !need_bad(m, t, k) by {
        walk_lists(m, w, t, k, p, q);
    }
}
pub proof fn walk_stuck(m: SMap, w: Seq<NPair>, root: Node, k: H32, b: bool)
    requires walked(m, w, root, k), goes_on(w, root), child_bad(m, w.last().0, b)
    ensures all_bad(root, m, k)
{ reveal(walked); walk_trees(m, w, root, k); }

// ---- contracts -------------------------------------------------------------------------

@item MerkleTreeError
impl<StorageError> vstd::std_specs::convert::FromSpecImpl<StorageError> for MerkleTreeError<StorageError> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: StorageError) -> Self { MerkleTreeError::<StorageError>::StorageError(v) }
}
@items
impl<TableType, StorageType, StorageError> MerkleTree<TableType, StorageType>
where
    TableType: Mappable<Key = Bytes32, SetValue = Primitive, GetValue = Primitive>,
    StorageType: StorageMutate<TableType, Error = StorageError>,
    StorageError: fmt::Debug + Clone + 'static,
{
    /// the tree holds t; full: with all its nodes in storage
    pub open spec fn repr(&self, t: Tree, full: bool) -> bool {
        canon(t, 0) && no_coll(t, t) && self.root_node == node_of(t, 0) && part(self.storage.smap(), t, full)
    }
    /// the error stands for a failed storage call
    pub open spec fn storage_err(e: MerkleTreeError<StorageError>) -> bool {
        match e {
            MerkleTreeError::StorageError(x) => StorageType::serr(x),
            MerkleTreeError::ChildError(ChildError::Error(StorageNodeError::StorageError(x))) => StorageType::serr(x),
            _ => false,
        }
    }
}
@fn MerkleTreeError@From<StorageError>::from
@ret r
@spec
    ensures r == MerkleTreeError::<StorageError>::StorageError(err)
@fn MerkleTree::root_node
@ret r
@spec
    ensures *r == self.root_node
@fn MerkleTree::root
@ret r
@spec
    ensures r == self.root_node.digest()
@fn MerkleTree::set_root_node
@spec
    requires node.leafish() || node.height == 256
    ensures final(self).root_node == node, final(self).storage == old(self).storage
@fn MerkleTree::new
@ret r
@spec
    ensures r.root_node == placeholder(), r.storage == storage
@fn MerkleTree::path_set
@ret r
@spec
    requires
        leaf_node.leafish(), self.root_node.height <= 256, clone_eq::<StorageError>(),
    ensures
        r matches Ok(ps) ==> lists_ok(self.root_node, self.storage.smap(), leaf_node.bytes_lo, ps.0@, ps.1@),
        r matches Err(e) ==> Self::storage_err(e) || all_bad(self.root_node, self.storage.smap(), leaf_node.bytes_lo),
@at start
    let ghost m = self.storage.smap();
    let ghost k = leaf_node.bytes_lo;
    let ghost rn = self.root_node;
    let ghost mut w: Seq<NPair> = Seq::empty();
    proof {
        clone_eq_array::<u8, 32>();
        assert(clone_eq::<StorageNode<'_, TableType, StorageType>>());
    }
@block collect
    invariant
        vx_it.it_inv(),
        vx_it.leaf.node.bytes_lo == k,
        k == leaf_node.bytes_lo, m == self.storage.smap(), rn == self.root_node, rn.height <= 256,
        vx_out@.len() == 0 ==> vx_it.current_offset == 256 - rn.height
            && (vx_it.current matches Some(q) && q.0 matches Ok(x) && q.1 matches Ok(y) && x.node == rn && y.node == rn && x.storage == &self.storage && y.storage == &self.storage),
        vx_out@.len() > 0 ==> walked(m, vx_out@, rn, k),
        vx_out@.len() > 0 && goes_on(vx_out@, rn) ==> vx_it.current_offset == 256 - rn.height + vx_out@.len()
            && (vx_it.current matches Some(q)
                && crel(&self.storage, vx_out@.last().0, child_key(vx_out@.last().0, kbit(k, vx_it.current_offset - 1)), q.0)
                && crel(&self.storage, vx_out@.last().0, child_key(vx_out@.last().0, !kbit(k, vx_it.current_offset - 1)), q.1)),
        vx_out@.len() > 0 && !goes_on(vx_out@, rn) ==> vx_it.current is None,
    ensures
        vx_out@.len() > 0, walked(m, vx_out@, rn, k), !goes_on(vx_out@, rn),
    decreases (if vx_it.current is Some { 258 - vx_it.current_offset } else { 0 }),
@block collect-start
    let ghost w0: Seq<NPair> = vx_out@;
    let ghost e0 = vx_e;
    proof {
        if w0.len() > 0 {
            let n = w0.last().0;
            let b = kbit(k, 256 - rn.height + w0.len() - 1);
            assert(goes_on(w0, rn));
            assert(crel(&self.storage, n, child_key(n, b), e0.0) && crel(&self.storage, n, child_key(n, !b), e0.1));
            if child_bad(m, n, b) { walk_stuck(m, w0, rn, k, b); }
            if child_bad(m, n, !b) { walk_stuck(m, w0, rn, k, !b); }
        }
        assert(e0.0 matches Err(x) ==> Self::storage_err(MerkleTreeError::ChildError(x)) || all_bad(rn, m, k));
        assert(e0.1 matches Err(x) ==> Self::storage_err(MerkleTreeError::ChildError(x)) || all_bad(rn, m, k));
    }
@block collect-end
    proof {
        let p = (e0.0->Ok_0.node, e0.1->Ok_0.node);
        assert(vx_out@ == w0.push(p));
        walked_push(m, w0, rn, k, p);
    }
@block collect-after
    proof { w = vx_out@; }
@at before (mut path_nodes
    assert(root_storage_node.api_pre(&leaf_storage_node));
@at end
    proof {
        assert(path_nodes@.len() == w.len()); assert(side_nodes@.len() == w.len() - 1);
        walk_result(m, w, rn, k, path_nodes@, side_nodes@); }
@items
pub open spec fn blank(n: Node) -> bool { n == placeholder() }
pub open spec fn blanks(n: int) -> Seq<Node> { Seq::new(n as nat, |i: int| placeholder()) }
/// the side nodes to join an updated leaf with, from the leaf upwards
pub open spec fn upd_list(req: Node, act: Node, sides: Seq<Node>) -> Seq<Node> {
    if req.bytes_lo == act.bytes_lo { sides } else {
        let c = if req.empty() || act.empty() { 0 } else { cpl(req.bytes_lo, act.bytes_lo) as int };
        (if act.empty() { Seq::empty() } else { seq![act] }) + blanks(if c > sides.len() { c - sides.len() } else { 0 }) + sides
    }
}
/// the first j side nodes are joined and the nodes made are written
#[verifier::opaque]
pub open spec fn built(k: H32, start: Node, l: Seq<Node>, j: int, cur: Node, m0: SMap, m: SMap) -> bool {
    cur == top(start, climb(k, start, l.take(j))) && m == puts(m0, climb(k, start, l.take(j)))
}
pub proof fn built_start(k: H32, start: Node, l: Seq<Node>, m0: SMap)
    ensures built(k, start, l, 0, start, m0, m0)
{ reveal(built); climb_zero(k, start); assert(l.take(0) =~= Seq::<Node>::empty()); }
pub proof fn built_step(k: H32, start: Node, l: Seq<Node>, j: int, cur: Node, m0: SMap, m: SMap)
    requires 0 <= j < l.len(), built(k, start, l, j, cur, m0, m), climb_ok(k, start, l)
    ensures mrg_pre(cur, l[j]), built(k, start, l, j + 1, join_on(k, cur, l[j]), m0, put(m, join_on(k, cur, l[j])))
{
    reveal(built);
    climb_step(k, start, l, j);
    assert(mrg_pre(top(start, climb(k, start, l.take(j))), l[j]));
    puts_push(m0, climb(k, start, l.take(j)), join_on(k, cur, l[j]));
}
pub proof fn built_end(k: H32, start: Node, l: Seq<Node>, cur: Node, m0: SMap, m: SMap)
    requires built(k, start, l, l.len() as int, cur, m0, m)
    ensures cur == top(start, climb(k, start, l)), m == puts(m0, climb(k, start, l))
{ reveal(built); assert(l.take(l.len() as int) =~= l); }
/// where the side nodes are in the list, and what comes before them
pub proof fn upd_shape(req: Node, act: Node, sides: Seq<Node>)
    ensures ({
        let l = upd_list(req, act, sides);
        let s = l.len() - sides.len();
        let c = if req.empty() || act.empty() { 0 } else { cpl(req.bytes_lo, act.bytes_lo) as int };
        &&& s >= 0
        &&& forall|i: int| 0 <= i < sides.len() ==> l[s + i] == #[trigger] sides[i]
        &&& req.bytes_lo == act.bytes_lo ==> s == 0
        &&& req.bytes_lo != act.bytes_lo ==> {
            let a = if act.empty() { 0int } else { 1 };
            &&& s == a + (if c > sides.len() { c - sides.len() } else { 0 })
            &&& a == 1 ==> l[0] == act
            &&& forall|i: int| a <= i < s ==> blank(#[trigger] l[i])
        }
    })
{}
@fn MerkleTree::update_with_path_set
@ret r
@spec
    requires
        requested_leaf_node.leafish(), path_nodes@.len() > 0, path_nodes@[0].leafish(), StorageType::s_lawful(),
        ({
            let l = upd_list(*requested_leaf_node, path_nodes@[0], side_nodes@);
            let c = top(*requested_leaf_node, climb(requested_leaf_node.bytes_lo, *requested_leaf_node, l));
            climb_ok(requested_leaf_node.bytes_lo, *requested_leaf_node, l) && (c.leafish() || c.height == 256)
        }),
    ensures
        r is Ok ==> ({
            let l = upd_list(*requested_leaf_node, path_nodes@[0], side_nodes@);
            let c = climb(requested_leaf_node.bytes_lo, *requested_leaf_node, l);
            &&& final(self).root_node == top(*requested_leaf_node, c)
            &&& final(self).storage.smap() == puts(old(self).storage.smap(), c)
            &&& final(self).storage.sfail() == old(self).storage.sfail()
        }),
        r matches Err(e) ==> StorageType::serr(e) && final(self).storage.sfail() == old(self).storage.sfail() + 1 && final(self).root_node == old(self).root_node,
@at start
    hide(upd_list);
    let ghost k = requested_leaf_node.bytes_lo;
    let ghost start = *requested_leaf_node;
    let ghost act = path_nodes@[0];
    let ghost l = upd_list(start, act, side_nodes@);
    let ghost m0 = self.storage.smap();
    let ghost mut j: int = 0;
    proof {
        clone_eq_array::<u8, 32>();
        broadcast use array32_eq;
        built_start(k, start, l, m0);
        upd_shape(start, act, side_nodes@);
        if start.bytes_lo != act.bytes_lo && !act.empty() {
            assert(l[0] == act);
            built_step(k, start, l, 0, start, m0, m0);
        }
    }
@at loop 1 before
    proof { if !act.empty() { j = 1; } }
@loop 1
    invariant
        StorageType::s_lawful(), climb_ok(k, start, l), *path == k,
        vx_iter.seq() == blanks(placeholders_count as int),
        j + placeholders_count + side_nodes@.len() == l.len() + vx_iter.index@,
        0 <= j, forall|i: int| j <= i < l.len() - side_nodes@.len() ==> blank(#[trigger] l[i]),
        forall|i: int| 0 <= i < side_nodes@.len() ==> l[l.len() - side_nodes@.len() + i] == #[trigger] side_nodes@[i],
        built(k, start, l, j, current_node, m0, self.storage.smap()),
        self.root_node == old(self).root_node, self.storage.sfail() == old(self).storage.sfail(),
@at loop 1 start
    proof {
        assert(blank(l[j]));
        built_step(k, start, l, j, current_node, m0, self.storage.smap());
        j = j + 1;
    }
@at loop 2 before
    proof {
        assert(l.len() == j + side_nodes@.len());
    }
@loop 2
    invariant
        StorageType::s_lawful(), climb_ok(k, start, l), *path == k,
        vx_iter.seq().len() == side_nodes@.len(),
        forall|i: int| 0 <= i < side_nodes@.len() ==> *vx_iter.seq()[i] == side_nodes@[i],
        j + side_nodes@.len() == l.len() + vx_iter.index@, 0 <= j,
        forall|i: int| 0 <= i < side_nodes@.len() ==> l[l.len() - side_nodes@.len() + i] == #[trigger] side_nodes@[i],
        built(k, start, l, j, current_node, m0, self.storage.smap()),
        self.root_node == old(self).root_node, self.storage.sfail() == old(self).storage.sfail(),
@at loop 2 start
    proof {
        assert(l[j] == side_nodes@[vx_iter.index@]);
        built_step(k, start, l, j, current_node, m0, self.storage.smap());
        j = j + 1;
    }
@at loop 2 after
    proof { built_end(k, start, l, current_node, m0, self.storage.smap()); }
@items
pub open spec fn skip_empty(s: Seq<Node>) -> Seq<Node>
    decreases s.len()
{
    if s.len() > 0 && s[0].empty() { skip_empty(s.skip(1)) } else { s }
}
/// the node that takes the place of a deleted leaf
pub open spec fn del_start(sides: Seq<Node>) -> Node { if sides.len() > 0 && sides[0].leafish() { sides[0] } else { placeholder() } }
/// the side nodes to join it with, from the leaf upwards
pub open spec fn del_list(sides: Seq<Node>) -> Seq<Node> { if sides.len() > 0 && sides[0].leafish() { skip_empty(sides.skip(1)) } else { sides } }
/// the first node that is not empty, and what comes after it
pub open spec fn found(o: Option<&Node>, l: Seq<Node>, rest: Seq<&Node>) -> bool {
    match o {
        Some(c) => l.len() > 0 && *c == l[0] && rest.len() == l.len() - 1 && forall|x: int| 0 <= x < l.len() - 1 ==> *#[trigger] rest[x] == l[1 + x],
        None => l.len() == 0 && rest.len() == 0,
    }
}
pub open spec fn found_none(o: Option<&Node>) -> bool { o is None }
@fn MerkleTree::delete_with_path_set
@ret r
@spec
    requires
        requested_leaf_node.leafish(), StorageType::s_lawful(),
        ({
            let l = del_list(side_nodes@);
            let s = del_start(side_nodes@);
            let c = top(s, climb(requested_leaf_node.bytes_lo, s, l));
            climb_ok(requested_leaf_node.bytes_lo, s, l) && (c.leafish() || c.height == 256)
        }),
    ensures
        r is Ok ==> ({
            let l = del_list(side_nodes@);
            let s = del_start(side_nodes@);
            let c = climb(requested_leaf_node.bytes_lo, s, l);
            &&& final(self).root_node == top(s, c)
            &&& final(self).storage.smap() == puts(rems(old(self).storage.smap(), path_nodes@), c)
            &&& final(self).storage.sfail() == old(self).storage.sfail()
        }),
        r matches Err(e) ==> StorageType::serr(e) && final(self).storage.sfail() == old(self).storage.sfail() + 1 && final(self).root_node == old(self).root_node,
@at start
    let ghost k = requested_leaf_node.bytes_lo;
    let ghost start = del_start(side_nodes@);
    let ghost l = del_list(side_nodes@);
    let ghost mut j: int = 0;
    proof {
        assert(path_nodes@.take(0) =~= Seq::<Node>::empty());
    }
@loop 1
    invariant
        StorageType::s_lawful(),
        vx_iter.seq().len() == path_nodes@.len(),
        forall|i: int| 0 <= i < path_nodes@.len() ==> *vx_iter.seq()[i] == path_nodes@[i],
        self.storage.smap() == rems(old(self).storage.smap(), path_nodes@.take(vx_iter.index@)),
        self.root_node == old(self).root_node, self.storage.sfail() == old(self).storage.sfail(),
@at loop 1 end
    proof {
        rems_push(old(self).storage.smap(), path_nodes@.take(vx_iter.index@), path_nodes@[vx_iter.index@]);
        assert(path_nodes@.take(vx_iter.index@ + 1) =~= path_nodes@.take(vx_iter.index@).push(path_nodes@[vx_iter.index@]));
    }
@at loop 1 after
    let ghost m0 = rems(old(self).storage.smap(), path_nodes@);
    proof {
        assert(path_nodes@.take(path_nodes@.len() as int) =~= path_nodes@);
        built_start(k, start, l, m0);
    }
@block find-before
    let ghost s1 = side_nodes@.skip(1);
    let ghost mut i: int = 0;
    proof { assert(s1.skip(0) =~= s1); }
@block find
    invariant_except_break
        side_nodes_iter.obeys_prophetic_iter_laws(), side_nodes_iter.decrease() is Some,
        0 <= i <= s1.len(), side_nodes_iter.remaining().len() == s1.len() - i,
        forall|x: int| 0 <= x < s1.len() - i ==> *#[trigger] side_nodes_iter.remaining()[x] == s1[i + x],
        l == skip_empty(s1.skip(i)),
        found_none(vx_found),
    ensures
        side_nodes_iter.obeys_prophetic_iter_laws(),
        found(vx_found, l, side_nodes_iter.remaining()),
    decreases side_nodes_iter.decrease().unwrap(),
@block find-start
    proof {
        assert(*vx_c == s1[i]);
        assert(s1.skip(i).skip(1) =~= s1.skip(i + 1));
        i = i + 1;
    }
@block find-after
    proof {
        if !found_none(vx_found) {
            built_step(k, start, l, 0, start, m0, m0);
            j = 1;
        }
    }
@loop 2
    invariant
        StorageType::s_lawful(), climb_ok(k, start, l), *path == k,
        j + vx_iter.seq().len() == l.len() + vx_iter.index@, 0 <= j,
        forall|i: int| 0 <= i < vx_iter.seq().len() ==> l[l.len() - vx_iter.seq().len() + i] == *#[trigger] vx_iter.seq()[i],
        built(k, start, l, j, current_node, m0, self.storage.smap()),
        self.root_node == old(self).root_node, self.storage.sfail() == old(self).storage.sfail(),
@at loop 2 start
    proof {
        assert(l[j] == *vx_iter.seq()[vx_iter.index@]);
        built_step(k, start, l, j, current_node, m0, self.storage.smap());
        j = j + 1;
    }
@at loop 2 after
    proof { built_end(k, start, l, current_node, m0, self.storage.smap()); }
@items
// ---- update and delete of trees ------------------------------------------------------

pub open spec fn leaf_of(k: H32, v: H32) -> Node { Node { height: 0, prefix: Prefix::Leaf, bytes_lo: k, bytes_hi: v } }
pub proof fn upd_sides(t: Tree, k: H32, v: H32)
    requires canon(t, 0), !(k == hzero() && v == hzero())
    ensures upd_list(leaf_of(k, v), full_up(spine(t, k, 0))[0], side_seq(sibl(t, k, 0))) == side_seq(sibl(upd(t, k, v, 0), k, 0))
{
    let o = sibl(t, k, 0);
    let w = sibl(upd(t, k, v, 0), k, 0);
    let n = o.len();
    let last = spine(t, k, 0).last();
    let act = full_up(spine(t, k, 0))[0];
    let l = upd_list(leaf_of(k, v), act, side_seq(o));
    let e = ext(last, k, n);
    spine_len(t, k, 0);
    spine_lemma(t, k, 0);
    upd_path(t, k, v, 0);
    assert(w == o + e);
    assert(sub(spine(t, k, 0)[n as int], (0 + n) as nat, t, 0));
    sub_canon(last, n, t, 0);
    assert(act == node_of(last, n));
    match last {
        Tree::Leaf(k2, v2) => {
            if k2 == k {
                assert(w =~= o);
            } else {
                let b = blanks(cpl(k, k2) - n);
                assert(l == seq![act] + b + side_seq(o));
                assert(w.len() == n + b.len() + 1);
                assert forall|j: int| 0 <= j < w.len() implies side_seq(w)[j] == #[trigger] l[j] by {
                    let x = w[w.len() - 1 - j];
                    if j == 0 { assert(x == last); }
                    else if j < 1 + b.len() { assert(x is Empty); }
                    else { assert(x == o[w.len() - 1 - j]); }
                }
                assert(l =~= side_seq(w));
            }
        }
        _ => {
            assert(w =~= o);
            assert(act == placeholder());
            assert(l =~= side_seq(o));
        }
    }
}
/// joining the siblings of a path of u gives its nodes
pub proof fn path_nodes_lemma(t: Tree, u: Tree, k: H32)
    requires no_coll(t, u), canon(u, 0)
    ensures ({
        let s = node_of(spine(u, k, 0).last(), sibl(u, k, 0).len());
        let l = side_seq(sibl(u, k, 0));
        let c = climb(k, s, l);
        &&& climb_ok(k, s, l)
        &&& c == up_seq(spine(u, k, 0))
        &&& top(s, c) == node_of(u, 0)
        &&& node_of(u, 0).leafish() || node_of(u, 0).height == 256
        &&& forall|j: int| 0 <= j < c.len() ==> fmt_node(#[trigger] c[j])
    })
{
    let n = sibl(u, k, 0).len() as int;
    let s = node_of(spine(u, k, 0).last(), sibl(u, k, 0).len());
    let l = side_seq(sibl(u, k, 0));
    let c = climb(k, s, l);
    climb_tree(u, k, n, t, u);
    spine_len(u, k, 0);
    spine_lemma(u, k, 0);
    assert(l.take(n) =~= l);
    assert(up_seq(spine(u, k, 0)).take(n) =~= up_seq(spine(u, k, 0)));
    assert forall|j: int| 0 <= j < c.len() implies fmt_node(#[trigger] c[j]) by {
        let i = n - 1 - j;
        spine_at(u, k, i as nat);
        assert(ins(spine(u, k, 0)[i], t, u));
        digest_of(spine(u, k, 0)[i], i as nat, t, u);
    }
}
/// the node may be written
pub open spec fn fmt_node(n: Node) -> bool { !n.empty() && (n.prefix == Prefix::Node || n.height == 0) }
pub proof fn puts_fmt(m: SMap, ns: Seq<Node>)
    requires forall|j: int| 0 <= j < ns.len() ==> fmt_node(#[trigger] ns[j])
    ensures wrote_fmt(m, puts(m, ns))
{
    assert forall|h: H32| #[trigger] puts(m, ns).contains_key(h) && !(m.contains_key(h) && m[h] == puts(m, ns)[h]) implies entry_fmt(h, puts(m, ns)[h]) by {
        puts_get(m, ns, h);
    }
}
pub proof fn wrote_trans(a: SMap, b: SMap, c: SMap)
    requires wrote_fmt(a, b), wrote_fmt(b, c)
    ensures wrote_fmt(a, c)
{
    assert forall|h: H32| #[trigger] c.contains_key(h) && !(a.contains_key(h) && a[h] == c[h]) implies entry_fmt(h, c[h]) by {
        assert(b.contains_key(h) || !b.contains_key(h));
    }
}
pub proof fn rems_fmt(m: SMap, ns: Seq<Node>)
    ensures wrote_fmt(m, rems(m, ns))
{
    assert forall|h: H32| #[trigger] rems(m, ns).contains_key(h) && !(m.contains_key(h) && m[h] == rems(m, ns)[h]) implies entry_fmt(h, rems(m, ns)[h]) by {
        rems_get(m, ns, h);
    }
}
pub proof fn off_ok(m: SMap, x: Tree, e: nat, t: Tree, k: H32, full: bool)
    requires part(m, t, full), off_path(x, e, t, 0, k)
    ensures okx(m, x, e, full)
{
    if !(x is Empty) {
        let e2 = choose|e2: nat| #[trigger] sub(x, e2, t, 0) && (e2 == e || x is Leaf);
        assert(okx(m, x, e2, full));
    }
}
pub proof fn upd_leaf(m: SMap, t: Tree, k: H32, v: H32, full: bool)
    requires canon(t, 0), part(m, t, full), no_coll(t, upd(t, k, v, 0)), !(k == hzero() && v == hzero())
    ensures part(put(m, leaf_of(k, v)), t, full), wrote_fmt(m, put(m, leaf_of(k, v)))
{
    let u = upd(t, k, v, 0);
    let n = sibl(u, k, 0).len();
    upd_canon(t, k, v, 0);
    upd_path(t, k, v, 0);
    spine_lemma(u, k, 0);
    assert(sub(spine(u, k, 0)[n as int], (0 + n) as nat, u, 0));
    assert(place(Tree::Leaf(k, v), n, t, u));
    assert forall|x: Tree, e: nat| #[trigger] sub(x, e, t, 0) implies okx(put(m, leaf_of(k, v)), x, e, full) by {
        assert(place(x, e, t, u));
        put_ok(m, Tree::Leaf(k, v), n, x, e, full, t, u);
    }
    assert(puts(m, seq![leaf_of(k, v)]) == put(m, leaf_of(k, v))) by { reveal_with_fuel(puts, 2); assert(seq![leaf_of(k, v)].drop_last() =~= Seq::<Node>::empty()); }
    puts_fmt(m, seq![leaf_of(k, v)]);
}
pub proof fn upd_part(m: SMap, t: Tree, k: H32, v: H32, full: bool)
    requires canon(t, 0), part(m, t, full), no_coll(t, upd(t, k, v, 0)), !(k == hzero() && v == hzero())
    ensures part(puts(put(m, leaf_of(k, v)), up_seq(spine(upd(t, k, v, 0), k, 0))), upd(t, k, v, 0), full)
{
    let u = upd(t, k, v, 0);
    let n = sibl(u, k, 0).len();
    let m1 = put(m, leaf_of(k, v));
    upd_canon(t, k, v, 0);
    upd_path(t, k, v, 0);
    spine_lemma(u, k, 0);
    upd_leaf(m, t, k, v, full);
    assert(sub(spine(u, k, 0)[n as int], (0 + n) as nat, u, 0));
    assert forall|x: Tree, e: nat| #[trigger] sub(x, e, u, 0) implies okx(puts(m1, up_seq(spine(u, k, 0))), x, e, full) by {
        assert(place(x, e, t, u));
        upd_off(x, e, t, k, v);
        if on_spine(x, e, u, k, 0) {
            if e == n {
                assert(x == Tree::Leaf(k, v));
                place_digest(x, e, t, u);
                assert(okx(m1, x, e, full));
            }
        } else {
            off_ok(m1, x, e, t, k, full);
        }
        puts_ok(m1, k, x, e, full, t, u);
    }
}
pub proof fn strip_side(o: Seq<Tree>)
    requires forall|i: int| 0 <= i < o.len() ==> node_of(#[trigger] o[i], (i + 1) as nat).empty() == (o[i] is Empty)
    ensures skip_empty(side_seq(o)) == side_seq(strip(o))
    decreases o.len()
{
    if o.len() > 0 && o.last() is Empty {
        let p = o.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies node_of(#[trigger] p[i], (i + 1) as nat).empty() == (p[i] is Empty) by { assert(p[i] == o[i]); }
        strip_side(p);
        assert(side_seq(o).skip(1) =~= side_seq(p));
    } else if o.len() > 0 {
        assert(side_seq(o)[0] == node_of(o[o.len() - 1], o.len()));
        assert(((o.len() - 1) + 1) as nat == o.len());
    }
}
pub proof fn del_sides(t: Tree, k: H32)
    requires canon(t, 0), no_coll(t, del(t, k, 0)), items(t).contains_key(k)
    ensures ({
        let u = del(t, k, 0);
        let q = side_seq(sibl(t, k, 0));
        del_start(q) == node_of(spine(u, k, 0).last(), sibl(u, k, 0).len()) && del_list(q) == side_seq(sibl(u, k, 0))
    })
{
    let u = del(t, k, 0);
    let o = sibl(t, k, 0);
    let q = side_seq(o);
    del_canon(t, k, 0);
    del_path(t, k, 0);
    spine_lemma(t, k, 0);
    assert forall|i: int| 0 <= i < o.len() implies node_of(#[trigger] o[i], (i + 1) as nat).empty() == (o[i] is Empty) && node_of(o[i], (i + 1) as nat).leafish() == !(o[i] is Inner) by {
        assert(sub(o[i], (0 + i + 1) as nat, t, 0));
        assert(place(o[i], (i + 1) as nat, t, u));
        place_digest(o[i], (i + 1) as nat, t, u);
    }
    if o.len() > 0 {
        assert(q[0] == node_of(o[o.len() - 1], o.len()));
        assert(((o.len() - 1) + 1) as nat == o.len());
        assert(q[0].leafish() == !(o.last() is Inner));
        if !(o.last() is Inner) {
            let p = o.drop_last();
            assert forall|i: int| 0 <= i < p.len() implies node_of(#[trigger] p[i], (i + 1) as nat).empty() == (p[i] is Empty) by { assert(p[i] == o[i]); }
            strip_side(p);
            assert(q.skip(1) =~= side_seq(p));
        }
    }
}
pub proof fn del_part(m: SMap, t: Tree, k: H32, full: bool)
    requires canon(t, 0), part(m, t, full), no_coll(t, del(t, k, 0)), items(t).contains_key(k)
    ensures part(puts(rems(m, full_up(spine(t, k, 0))), up_seq(spine(del(t, k, 0), k, 0))), del(t, k, 0), full)
{
    let u = del(t, k, 0);
    let n = sibl(u, k, 0).len();
    let ns = full_up(spine(t, k, 0));
    let m1 = rems(m, ns);
    del_canon(t, k, 0);
    spine_lemma(u, k, 0);
    assert forall|x: Tree, e: nat| #[trigger] sub(x, e, u, 0) implies okx(puts(m1, up_seq(spine(u, k, 0))), x, e, full) by {
        assert(place(x, e, t, u));
        del_off(x, e, t, k);
        if on_spine(x, e, u, k, 0) && e < n {
        } else {
            if on_spine(x, e, u, k, 0) { del_last_off(t, k, e); }
            assert(off_path(x, e, t, 0, k));
            rem_ok(m, x, e, t, u, k, full);
        }
        puts_ok(m1, k, x, e, full, t, u);
    }
}
/// removing the nodes of a path leaves the others
pub proof fn rem_ok(m: SMap, x: Tree, e: nat, t: Tree, u: Tree, k: H32, full: bool)
    requires canon(t, 0), canon(u, 0), part(m, t, full), no_coll(t, u), items(t).contains_key(k), off_path(x, e, t, 0, k), place(x, e, t, u)
    ensures okx(rems(m, full_up(spine(t, k, 0))), x, e, full)
{
    let s = spine(t, k, 0);
    let ns = full_up(s);
    off_ok(m, x, e, t, k, full);
    if !(x is Empty) {
        let h = thash(x);
        rems_get(m, ns, h);
        place_digest(x, e, t, u);
        if has_digest(ns, h) {
            let j = choose|j: int| 0 <= j < ns.len() && (#[trigger] ns[j]).digest() == h;
            let i = s.len() - 1 - j;
            spine_lemma(t, k, 0);
            assert(sub(s[i], (0 + i) as nat, t, 0));
            assert(place(s[i], i as nat, t, u));
            place_digest(s[i], i as nat, t, u);
            same_node(x, e, s[i], i as nat, t, u);
            spine_key(t, k, 0);
        }
    }
}
// ---- the operations -------------------------------------------------------------------

pub open spec fn next(t: Tree, k: H32, data: Seq<u8>) -> Tree { if data.len() == 0 { del(t, k, 0) } else { upd(t, k, sha256(data), 0) } }
/// no SHA-256 collision among the nodes before and after; the key and the digest
/// of the data are not both zero
pub open spec fn op_ok(t: Tree, k: H32, data: Seq<u8>) -> bool {
    no_coll(t, next(t, k, data)) && (data.len() > 0 ==> !(k == hzero() && sha256(data) == hzero()))
}
/// the entries when the path is read
pub open spec fn op_map(m: SMap, k: H32, data: Seq<u8>) -> SMap { if data.len() == 0 { m } else { put(m, leaf_of(k, sha256(data))) } }

/// a tree with all its nodes in storage can be read everywhere
pub proof fn full_good(m: SMap, t: Tree, k: H32)
    requires part(m, t, true), canon(t, 0)
    ensures !need_bad(m, t, k)
{
    let s = spine(t, k, 0);
    let o = sibl(t, k, 0);
    spine_lemma(t, k, 0);
    assert forall|i: int, b: bool| 0 <= i < o.len() implies !bad(m, #[trigger] tchild(s[i], b)) by {
        assert(sub(s[i], (0 + i) as nat, t, 0));
        assert(sub(o[i], (0 + i + 1) as nat, t, 0));
        sub_child(s[i], i as nat, t, 0);
        let x = tchild(s[i], b);
        assert(sub(x, i as nat + 1, t, 0));
        assert(okx(m, x, i as nat + 1, true));
        prim_roundtrip(node_of(x, i as nat + 1));
    }
}
/// what update and delete do when they succeed
pub open spec fn op_done(root: Node, m: SMap, root2: Node, m2: SMap, t: Tree, full: bool, k: H32, data: Seq<u8>) -> bool {
    let u = next(t, k, data);
    &&& canon(u, 0) && no_coll(u, u) && root2 == node_of(u, 0) && part(m2, u, full)
    &&& !need_bad(op_map(m, k, data), t, k)
    &&& wrote_fmt(m, m2)
    &&& data.len() == 0 && !items(t).contains_key(k) ==> m2 == m
}
pub open spec fn op_pre(root: Node, m: SMap, t: Tree, full: bool, k: H32, data: Seq<u8>) -> bool {
    canon(t, 0) && no_coll(t, t) && root == node_of(t, 0) && part(m, t, full) && op_ok(t, k, data)
}
pub proof fn op_pre_holds(root: Node, m: SMap, t: Tree, full: bool, k: H32, data: Seq<u8>)
    requires op_pre(root, m, t, full, k, data)
    ensures holds(root, op_map(m, k, data), t), part(op_map(m, k, data), t, full), root.height <= 256, wrote_fmt(m, op_map(m, k, data)),
        (root == placeholder()) == (t is Empty), (root.digest() == hzero()) == (t is Empty), thash(t) == root.digest()
{
    reveal(holds);
    assert(subt(t, t) && ins(t, t, t));
    digest_of(t, 0, t, t);
    if data.len() > 0 { upd_leaf(m, t, k, sha256(data), full); }
    let m2 = op_map(m, k, data);
    assert forall|x: Tree, e: nat| #[trigger] sub(x, e, t, 0) implies okx(m2, x, e, false) by { assert(okx(m2, x, e, full)); }
}
/// the arguments of update_with_path_set
pub proof fn upd_args(root: Node, m: SMap, t: Tree, full: bool, k: H32, data: Seq<u8>, p: Seq<Node>, q: Seq<Node>)
    requires op_pre(root, m, t, full, k, data), data.len() > 0, p == full_up(spine(t, k, 0)), q == side_seq(sibl(t, k, 0))
    ensures ({
        let v = sha256(data);
        let u = upd(t, k, v, 0);
        let lf = leaf_of(k, v);
        let l = upd_list(lf, p[0], q);
        let c = climb(k, lf, l);
        &&& p.len() > 0 && p[0].leafish()
        &&& climb_ok(k, lf, l)
        &&& top(lf, c).leafish() || top(lf, c).height == 256
        &&& top(lf, c) == node_of(u, 0)
        &&& c == up_seq(spine(u, k, 0))
        &&& forall|m: SMap| wrote_fmt(m, #[trigger] puts(m, c))
    })
{
    let v = sha256(data);
    let u = upd(t, k, v, 0);
    assert(fits_at(k, t, 0));
    upd_canon(t, k, v, 0);
    upd_sides(t, k, v);
    path_nodes_lemma(t, u, k);
    upd_path(t, k, v, 0);
    spine_len(t, k, 0);
    let n = sibl(t, k, 0).len();
    spine_elem(t, k, n);
    assert(p[0] == node_of(spine(t, k, 0)[n as int], n));
    assert(place(spine(t, k, 0)[n as int], n, t, t));
    place_digest(spine(t, k, 0)[n as int], n, t, t);
    let c = climb(k, leaf_of(k, v), upd_list(leaf_of(k, v), p[0], q));
    assert forall|m: SMap| wrote_fmt(m, #[trigger] puts(m, c)) by { puts_fmt(m, c); }
}
pub proof fn upd_done(root: Node, m: SMap, t: Tree, full: bool, k: H32, data: Seq<u8>)
    requires op_pre(root, m, t, full, k, data), data.len() > 0, !need_bad(op_map(m, k, data), t, k)
    ensures op_done(root, m, node_of(next(t, k, data), 0), puts(op_map(m, k, data), up_seq(spine(next(t, k, data), k, 0))), t, full, k, data)
{
    let v = sha256(data);
    let u = upd(t, k, v, 0);
    let m1 = op_map(m, k, data);
    assert(fits_at(k, t, 0));
    upd_canon(t, k, v, 0);
    no_coll_self(t, u);
    upd_leaf(m, t, k, v, full);
    upd_part(m, t, k, v, full);
    upd_args(root, m, t, full, k, data, full_up(spine(t, k, 0)), side_seq(sibl(t, k, 0)));
    wrote_trans(m, m1, puts(m1, up_seq(spine(u, k, 0))));
}
/// updating an empty tree
pub proof fn upd_done_empty(root: Node, m: SMap, t: Tree, full: bool, k: H32, data: Seq<u8>)
    requires op_pre(root, m, t, full, k, data), data.len() > 0, t is Empty
    ensures op_done(root, m, leaf_of(k, sha256(data)), op_map(m, k, data), t, full, k, data)
{
    full_good(op_map(m, k, data), t, k);
    upd_done(root, m, t, full, k, data);
    let u = next(t, k, data);
    assert(spine(u, k, 0) =~= seq![u]);
    assert(up_seq(spine(u, k, 0)) =~= Seq::<Node>::empty());
}

@fn MerkleTree::update
@ret r
@spec
    requires
        clone_eq::<StorageError>(), StorageType::s_lawful(),
        exists|t: Tree| #[trigger] old(self).repr(t, false) && op_ok(t, *key, data@),
    ensures
        r is Err ==> final(self).root_node == old(self).root_node,
        r is Ok ==> final(self).storage.sfail() == old(self).storage.sfail(),
        final(self).storage.sfail() != old(self).storage.sfail() ==> (r matches Err(e) && Self::storage_err(e)),
        r is Ok && data@.len() == 0 ==> (forall|t: Tree, full: bool| #[trigger] old(self).repr(t, full) && op_ok(t, *key, data@) ==> op_done(old(self).root_node, old(self).storage.smap(), final(self).root_node, final(self).storage.smap(), t, full, *key, data@)),
        r is Ok && data@.len() > 0 ==> (forall|t: Tree, full: bool| #[trigger] old(self).repr(t, full) && op_ok(t, *key, data@) ==> op_done(old(self).root_node, old(self).storage.smap(), final(self).root_node, final(self).storage.smap(), t, full, *key, data@)),
        forall|t: Tree, full: bool| #[trigger] old(self).repr(t, full) && op_ok(t, *key, data@) ==> (r matches Err(e) ==> Self::storage_err(e) || need_bad(op_map(old(self).storage.smap(), *key, data@), t, *key)),
        forall|t: Tree, full: bool| #[trigger] old(self).repr(t, full) && op_ok(t, *key, data@) ==> r is Err && final(self).storage.sfail() == old(self).storage.sfail() ==> final(self).repr(t, full) && wrote_fmt(old(self).storage.smap(), final(self).storage.smap()),
@at start
    let ghost m0 = self.storage.smap();
    let ghost rn = self.root_node;
    let ghost k = *key;
    let ghost t0 = choose|t: Tree| #[trigger] old(self).repr(t, false) && op_ok(t, k, data@);
    proof { if data@.len() == 0 { assert(data@ =~= Seq::<u8>::empty()); } }
@at before if self.root_node() || after self.storage.insert
    let ghost m1 = self.storage.smap();
    proof {
        broadcast use array32_eq;
        assert(m1 == op_map(m0, k, data@));
        assert forall|t: Tree, full: bool| #[trigger] old(self).repr(t, full) && op_ok(t, k, data@) implies op_pre(rn, m0, t, full, k, data@) && holds(rn, m1, t) && self.repr(t, full) && wrote_fmt(m0, m1)
            && (t is Empty ==> op_done(rn, m0, leaf_of(k, sha256(data@)), m1, t, full, k, data@)) by {
            op_pre_holds(rn, m0, t, full, k, data@);
            if t is Empty { upd_done_empty(rn, m0, t, full, k, data@); }
        }
        assert(holds(rn, m1, t0));
        op_pre_holds(rn, m0, t0, false, k, data@);
    }
@at before self.update_with_path_set
    proof {
        assert forall|t: Tree, full: bool| #[trigger] old(self).repr(t, full) && op_ok(t, k, data@) implies
            op_done(rn, m0, node_of(next(t, k, data@), 0), puts(m1, up_seq(spine(next(t, k, data@), k, 0))), t, full, k, data@)
            && node_of(next(t, k, data@), 0) == top(leaf_node, climb(k, leaf_node, upd_list(leaf_node, path_nodes@[0], side_nodes@)))
            && climb(k, leaf_node, upd_list(leaf_node, path_nodes@[0], side_nodes@)) == up_seq(spine(next(t, k, data@), k, 0)) by {
            upd_args(rn, m0, t, full, k, data@, path_nodes@, side_nodes@);
            upd_done(rn, m0, t, full, k, data@);
        }
        upd_args(rn, m0, t0, false, k, data@, path_nodes@, side_nodes@);
    }
@items
/// the arguments of delete_with_path_set
pub proof fn del_args(root: Node, m: SMap, t: Tree, full: bool, k: H32, p: Seq<Node>, q: Seq<Node>)
    requires op_pre(root, m, t, full, k, Seq::empty()), p == full_up(spine(t, k, 0)), q == side_seq(sibl(t, k, 0))
    ensures
        p.len() > 0, p[0].leafish(),
        items(t).contains_key(k) == (!p[0].empty() && p[0].bytes_lo == k),
        items(t).contains_key(k) ==> ({
            let u = del(t, k, 0);
            let l = del_list(q);
            let s = del_start(q);
            let c = climb(k, s, l);
            &&& climb_ok(k, s, l)
            &&& top(s, c).leafish() || top(s, c).height == 256
            &&& top(s, c) == node_of(u, 0)
            &&& c == up_seq(spine(u, k, 0))
            &&& forall|m: SMap| wrote_fmt(m, #[trigger] puts(m, c))
        }),
{
    let u = del(t, k, 0);
    spine_len(t, k, 0);
    let n = sibl(t, k, 0).len();
    spine_elem(t, k, n);
    let x = spine(t, k, 0)[n as int];
    assert(x == spine(t, k, 0).last());
    assert(p[0] == node_of(x, n));
    assert(place(x, n, t, t));
    place_digest(x, n, t, t);
    spine_key(t, k, 0);
    if items(t).contains_key(k) {
        del_canon(t, k, 0);
        del_sides(t, k);
        path_nodes_lemma(t, u, k);
        let c = climb(k, del_start(q), del_list(q));
        assert forall|m: SMap| wrote_fmt(m, #[trigger] puts(m, c)) by { puts_fmt(m, c); }
    }
}
pub proof fn del_done(root: Node, m: SMap, t: Tree, full: bool, k: H32)
    requires op_pre(root, m, t, full, k, Seq::empty()), !need_bad(m, t, k)
    ensures
        items(t).contains_key(k) ==> op_done(root, m, node_of(del(t, k, 0), 0), puts(rems(m, full_up(spine(t, k, 0))), up_seq(spine(del(t, k, 0), k, 0))), t, full, k, Seq::empty()),
        !items(t).contains_key(k) ==> op_done(root, m, root, m, t, full, k, Seq::empty()),
{
    let u = del(t, k, 0);
    del_canon(t, k, 0);
    no_coll_self(t, u);
    if items(t).contains_key(k) {
        let m1 = rems(m, full_up(spine(t, k, 0)));
        del_part(m, t, k, full);
        del_args(root, m, t, full, k, full_up(spine(t, k, 0)), side_seq(sibl(t, k, 0)));
        rems_fmt(m, full_up(spine(t, k, 0)));
        wrote_trans(m, m1, puts(m1, up_seq(spine(u, k, 0))));
    }
}
pub open spec fn no_data() -> Seq<u8> { Seq::empty() }
@fn MerkleTree::delete
@ret r
@spec
    requires
        clone_eq::<StorageError>(), StorageType::s_lawful(),
        exists|t: Tree| #[trigger] old(self).repr(t, false) && op_ok(t, *key, no_data()),
    ensures
        r is Err ==> final(self).root_node == old(self).root_node,
        r is Ok ==> final(self).storage.sfail() == old(self).storage.sfail(),
        final(self).storage.sfail() != old(self).storage.sfail() ==> (r matches Err(e) && Self::storage_err(e)),
        r is Ok ==> (forall|t: Tree, full: bool| #[trigger] old(self).repr(t, full) && op_ok(t, *key, no_data()) ==> op_done(old(self).root_node, old(self).storage.smap(), final(self).root_node, final(self).storage.smap(), t, full, *key, no_data())),
        forall|t: Tree, full: bool| #[trigger] old(self).repr(t, full) && op_ok(t, *key, no_data()) ==> (r matches Err(e) ==> Self::storage_err(e) || need_bad(old(self).storage.smap(), t, *key)),
        forall|t: Tree, full: bool| #[trigger] old(self).repr(t, full) && op_ok(t, *key, no_data()) ==> r is Err && final(self).storage.sfail() == old(self).storage.sfail() ==> final(self).repr(t, full) && final(self).storage.smap() == old(self).storage.smap(),
@at start
    let ghost m0 = self.storage.smap();
    let ghost rn = self.root_node;
    let ghost k = *key;
    let ghost t0 = choose|t: Tree| #[trigger] old(self).repr(t, false) && op_ok(t, k, no_data());
    proof {
        broadcast use array32_eq;
        assert forall|t: Tree, full: bool| #[trigger] old(self).repr(t, full) && op_ok(t, k, no_data()) implies op_pre(rn, m0, t, full, k, no_data()) && holds(rn, m0, t)
            && (rn.digest() == hzero() ==> op_done(rn, m0, rn, m0, t, full, k, no_data())) by {
            op_pre_holds(rn, m0, t, full, k, no_data());
            if t is Empty { assert(part(m0, t, true)); full_good(m0, t, k); del_done(rn, m0, t, full, k); }
        }
        op_pre_holds(rn, m0, t0, false, k, no_data());
    }
@at before let actual_leaf_node
    proof {
        assert forall|t: Tree, full: bool| #[trigger] old(self).repr(t, full) && op_ok(t, k, no_data()) implies
            items(t).contains_key(k) == (!path_nodes@[0].empty() && path_nodes@[0].bytes_lo == k)
            && (!items(t).contains_key(k) ==> op_done(rn, m0, rn, m0, t, full, k, no_data()))
            && (items(t).contains_key(k) ==>
                op_done(rn, m0, node_of(del(t, k, 0), 0), puts(rems(m0, path_nodes@), up_seq(spine(del(t, k, 0), k, 0))), t, full, k, no_data())
                && node_of(del(t, k, 0), 0) == top(del_start(side_nodes@), climb(k, del_start(side_nodes@), del_list(side_nodes@)))
                && climb(k, del_start(side_nodes@), del_list(side_nodes@)) == up_seq(spine(del(t, k, 0), k, 0))) by {
            del_args(rn, m0, t, full, k, path_nodes@, side_nodes@);
            del_done(rn, m0, t, full, k);
        }
        del_args(rn, m0, t0, false, k, path_nodes@, side_nodes@);
    }
@items
// ---- the root as a function of the map ------------------------------------------------

/// the keys with the given bit d
pub open spec fn half(m: SItems, d: nat, right: bool) -> SItems { m.restrict(m.dom().filter(|k: H32| kbit(k, d as int) == right)) }
/// the sparse Merkle root of a map, at depth d
pub open spec fn smt(m: SItems, d: nat) -> H32
    decreases 256 - d
{
    if m.dom().len() == 0 { hzero() }
    else if m.dom().len() == 1 { let k = m.dom().choose(); sha256(node_pre(Prefix::Leaf, k, m[k])) }
    else if d >= 256 { arbitrary() }
    else { sha256(node_pre(Prefix::Node, smt(half(m, d, false), d + 1), smt(half(m, d, true), d + 1))) }
}
/// an inner node has two keys
pub proof fn two_keys(t: Tree, d: nat) -> (r: (H32, H32))
    requires canon(t, d), t is Inner
    ensures items(t).contains_key(r.0), items(t).contains_key(r.1), r.0 != r.1
    decreases t
{
    match t {
        Tree::Inner(l, r) => {
            if *l is Empty { two_keys(*r, d + 1) } else if *r is Empty { two_keys(*l, d + 1) }
            else {
                let a = some_key(*l, d + 1);
                let b = some_key(*r, d + 1);
                assert(kbit(a, d as int) != kbit(b, d as int));
                (a, b)
            }
        }
        _ => (hzero(), hzero()),
    }
}
pub proof fn thash_smt(t: Tree, d: nat)
    requires canon(t, d)
    ensures thash(t) == smt(items(t), d)
    decreases t
{
    let m = items(t);
    match t {
        Tree::Empty => { assert(m.dom() =~= Set::<H32>::empty()); }
        Tree::Leaf(k, v) => {
            assert(m.dom() =~= Set::<H32>::empty().insert(k));
            assert(m.dom().len() == 1);
            assert(m.dom().contains(m.dom().choose()));
        }
        Tree::Inner(l, r) => {
            let (a, b) = two_keys(t, d);
            assert(m.dom().contains(a) && m.dom().contains(b));
            if m.dom().len() <= 1 {
                vstd::set_lib::lemma_len_subset(set![a, b], m.dom());
                assert(set![a, b].len() == 2);
            }
            assert(half(m, d, false) =~= items(*l));
            assert(half(m, d, true) =~= items(*r));
            thash_smt(*l, d + 1);
            thash_smt(*r, d + 1);
        }
    }
}
@fn MerkleTree::load
@ret r
@spec
    ensures
        *root == hzero() ==> (r matches Ok(t) && t.root_node == placeholder() && t.storage == storage),
        *root != hzero() ==> match r {
            Ok(t) => t.storage == storage && storage.smap().contains_key(*root) && prim_node(storage.smap()[*root]) == Some(t.root_node),
            Err(MerkleTreeError::LoadError(_)) => !storage.smap().contains_key(*root),
            Err(MerkleTreeError::DeserializeError(_)) => storage.smap().contains_key(*root) && prim_node(storage.smap()[*root]) is None,
            Err(MerkleTreeError::StorageError(e)) => StorageType::serr(e),
            Err(MerkleTreeError::ChildError(_)) => false,
        },
@at start
    proof { clone_eq_primitive(); broadcast use array32_eq; }
@items
/// the tree after the operations (no data: the key is deleted)
pub open spec fn run(t: Tree, ops: Seq<(H32, Seq<u8>)>) -> Tree
    decreases ops.len()
{
    if ops.len() == 0 { t } else { next(run(t, ops.drop_last()), ops.last().0, ops.last().1) }
}
/// the map after the operations
pub open spec fn run_map(m: SItems, ops: Seq<(H32, Seq<u8>)>) -> SItems
    decreases ops.len()
{
    if ops.len() == 0 { m } else {
        let (k, d) = ops.last();
        let p = run_map(m, ops.drop_last());
        if d.len() == 0 { p.remove(k) } else { p.insert(k, sha256(d)) }
    }
}
#[verifier::opaque]
pub open spec fn run_ok(t: Tree, ops: Seq<(H32, Seq<u8>)>) -> bool {
    forall|i: int| 0 <= i < ops.len() ==> op_ok(run(t, ops.take(i)), (#[trigger] ops[i]).0, ops[i].1)
}
pub proof fn run_step(t: Tree, ops: Seq<(H32, Seq<u8>)>, i: int)
    requires 0 <= i < ops.len()
    ensures
        run(t, ops.take(i + 1)) == next(run(t, ops.take(i)), ops[i].0, ops[i].1),
        run_map(items(t), ops.take(i + 1)) == (if ops[i].1.len() == 0 { run_map(items(t), ops.take(i)).remove(ops[i].0) } else { run_map(items(t), ops.take(i)).insert(ops[i].0, sha256(ops[i].1)) }),
{ assert(ops.take(i + 1).drop_last() =~= ops.take(i)); }
/// what an operation does to the map, and the root as a function of the map
pub proof fn next_items(t: Tree, k: H32, data: Seq<u8>)
    requires canon(t, 0), op_ok(t, k, data)
    ensures
        canon(next(t, k, data), 0), no_coll(next(t, k, data), next(t, k, data)),
        items(next(t, k, data)) == (if data.len() == 0 { items(t).remove(k) } else { items(t).insert(k, sha256(data)) }),
        data.len() == 0 && !items(t).contains_key(k) ==> next(t, k, data) == t,
{
    no_coll_self(t, next(t, k, data));
    if data.len() == 0 { del_canon(t, k, 0); } else { assert(fits_at(k, t, 0)); upd_canon(t, k, sha256(data), 0); }
}
pub open spec fn ops_view(ops: Seq<(H32, Vec<u8>)>) -> Seq<(H32, Seq<u8>)> { Seq::new(ops.len(), |i: int| (ops[i].0, ops[i].1@)) }
/// an empty tree over any storage holds the empty tree
pub proof fn empty_repr<T, S, E>(t: MerkleTree<T, S>)
    where T: Mappable<Key = Bytes32, SetValue = Primitive, GetValue = Primitive>, S: StorageMutate<T, Error = E>, E: fmt::Debug + Clone + 'static
    ensures t.root_node == placeholder() ==> t.repr(Tree::Empty, true)
{ assert forall|x: Tree, e: nat| #[trigger] sub(x, e, Tree::Empty, 0) implies okx(t.storage.smap(), x, e, true) by {} }
/// the root is the sparse Merkle root of the map
pub proof fn root_smt<T, S, E>(s: MerkleTree<T, S>, t: Tree, full: bool)
    where T: Mappable<Key = Bytes32, SetValue = Primitive, GetValue = Primitive>, S: StorageMutate<T, Error = E>, E: fmt::Debug + Clone + 'static
    requires s.repr(t, full)
    ensures s.root_node.digest() == smt(items(t), 0), s.root_node.digest() == thash(t)
{
    assert(subt(t, t) && ins(t, t, t));
    digest_of(t, 0, t, t);
    thash_smt(t, 0);
}

/// one operation on a tree with all its nodes in storage: it succeeds unless the storage fails; deleting
/// (updating with no data) removes exactly that key, deleting an absent key changes nothing
pub fn theorem_step<T, S, E>(t: MerkleTree<T, S>, key: &H32, data: &[u8], Ghost(x): Ghost<Tree>) -> (r: Result<MerkleTree<T, S>, MerkleTreeError<E>>)
    where T: Mappable<Key = Bytes32, SetValue = Primitive, GetValue = Primitive>, S: StorageMutate<T, Error = E>, E: fmt::Debug + Clone + 'static
    requires S::s_lawful(), clone_eq::<E>(), t.repr(x, true), op_ok(x, *key, data@)
    ensures
        r matches Ok(u) ==> {
            &&& u.repr(next(x, *key, data@), true)
            &&& items(next(x, *key, data@)) == (if data@.len() == 0 { items(x).remove(*key) } else { items(x).insert(*key, sha256(data@)) })
            &&& wrote_fmt(t.storage.smap(), u.storage.smap())
            &&& u.storage.sfail() == t.storage.sfail()
            &&& data@.len() == 0 && !items(x).contains_key(*key) ==> u.root_node == t.root_node && u.storage.smap() == t.storage.smap()
        },
        r matches Err(e) ==> MerkleTree::<T, S>::storage_err(e),
{
    let ghost t0 = t;
    let mut t = t;
    proof {
        assert(t.repr(x, false)) by {
            assert forall|y: Tree, e: nat| #[trigger] sub(y, e, x, 0) implies okx(t.storage.smap(), y, e, false) by { assert(okx(t.storage.smap(), y, e, true)); }
        }
        next_items(x, *key, data@);
        op_pre_holds(t.root_node, t.storage.smap(), x, true, *key, data@);
        full_good(op_map(t.storage.smap(), *key, data@), x, *key);
    }
    t.update(key, data)?;
    proof { assert(t0.repr(x, true)); }
    Ok(t)
}
/// the tree after the first i operations
#[verifier::opaque]
pub open spec fn reached(root: Node, m: SMap, l: Seq<(H32, Seq<u8>)>, i: int) -> bool {
    let x = run(Tree::Empty, l.take(i));
    &&& canon(x, 0) && no_coll(x, x) && root == node_of(x, 0) && part(m, x, true)
    &&& items(x) == run_map(Map::empty(), l.take(i))
}
pub proof fn reached_none(root: Node, m: SMap, l: Seq<(H32, Seq<u8>)>)
    requires root == placeholder()
    ensures reached(root, m, l, 0)
{
    reveal(reached);
    assert(l.take(0).len() == 0);
    assert forall|x: Tree, e: nat| #[trigger] sub(x, e, Tree::Empty, 0) implies okx(m, x, e, true) by {}
}
pub proof fn reached_step(root: Node, m: SMap, root2: Node, m2: SMap, l: Seq<(H32, Seq<u8>)>, i: int)
    requires reached(root, m, l, i), 0 <= i < l.len(), run_ok(Tree::Empty, l)
    ensures
        op_pre(root, m, run(Tree::Empty, l.take(i)), true, l[i].0, l[i].1),
        root2 == node_of(next(run(Tree::Empty, l.take(i)), l[i].0, l[i].1), 0) && part(m2, next(run(Tree::Empty, l.take(i)), l[i].0, l[i].1), true) ==> reached(root2, m2, l, i + 1),
{
    reveal(reached);
    reveal(run_ok);
    run_step(Tree::Empty, l, i);
    next_items(run(Tree::Empty, l.take(i)), l[i].0, l[i].1);
    assert(items(Tree::Empty) == Map::<H32, H32>::empty());
}
pub proof fn reached_end<T, S, E>(t: MerkleTree<T, S>, l: Seq<(H32, Seq<u8>)>)
    where T: Mappable<Key = Bytes32, SetValue = Primitive, GetValue = Primitive>, S: StorageMutate<T, Error = E>, E: fmt::Debug + Clone + 'static
    requires reached(t.root_node, t.storage.smap(), l, l.len() as int)
    ensures t.repr(run(Tree::Empty, l), true), t.root_node.digest() == smt(run_map(Map::empty(), l), 0)
{
    reveal(reached);
    assert(l.take(l.len() as int) =~= l);
    root_smt(t, run(Tree::Empty, l), true);
}
pub proof fn wrote_self(m: SMap)
    ensures wrote_fmt(m, m)
{}
/// any history of updates and deletes on a new tree over any storage: every operation succeeds unless
/// the storage fails, and the root is the sparse Merkle root of the resulting map
pub fn theorem_history<T, S, E>(storage: S, ops: Vec<(H32, Vec<u8>)>) -> (r: Result<(MerkleTree<T, S>, H32), MerkleTreeError<E>>)
    where T: Mappable<Key = Bytes32, SetValue = Primitive, GetValue = Primitive>, S: StorageMutate<T, Error = E>, E: fmt::Debug + Clone + 'static
    requires
        S::s_lawful(), clone_eq::<E>(), run_ok(Tree::Empty, ops_view(ops@)),
    ensures
        r matches Ok((t, root)) ==> {
            &&& t.repr(run(Tree::Empty, ops_view(ops@)), true)
            &&& root == smt(run_map(Map::empty(), ops_view(ops@)), 0)
            &&& wrote_fmt(storage.smap(), t.storage.smap())
            &&& t.storage.sfail() == storage.sfail()
        },
        r matches Err(e) ==> MerkleTree::<T, S>::storage_err(e),
{
    let ghost m0 = storage.smap();
    let ghost f0 = storage.sfail();
    let ghost l = ops_view(ops@);
    let mut t: MerkleTree<T, S> = MerkleTree::new(storage);
    let mut i: usize = 0;
    proof { reached_none(t.root_node, t.storage.smap(), l); wrote_self(t.storage.smap()); }
    while i < ops.len()
        invariant
            S::s_lawful(), clone_eq::<E>(), run_ok(Tree::Empty, l), l == ops_view(ops@), 0 <= i <= ops@.len(),
            reached(t.root_node, t.storage.smap(), l, i as int),
            wrote_fmt(m0, t.storage.smap()), t.storage.sfail() == f0,
        decreases ops.len() - i,
    {
        let ghost m1 = t.storage.smap();
        let ghost rn = t.root_node;
        let ghost x = run(Tree::Empty, l.take(i as int));
        proof { reached_step(rn, m1, rn, m1, l, i as int); }
        match theorem_step(t, &ops[i].0, ops[i].1.as_slice(), Ghost(x)) {
            Ok(u) => { t = u; }
            Err(e) => { return Err(e); }
        }
        proof {
            reached_step(rn, m1, t.root_node, t.storage.smap(), l, i as int);
            wrote_trans(m0, m1, t.storage.smap());
        }
        i += 1;
    }
    proof { reached_end(t, l); }
    let root = t.root();
    Ok((t, root))
}

/// reloading from the current root: the same tree
pub fn theorem_load<T, S, E>(t: MerkleTree<T, S>, Ghost(x): Ghost<Tree>, Ghost(full): Ghost<bool>) -> (r: Result<MerkleTree<T, S>, MerkleTreeError<E>>)
    where T: Mappable<Key = Bytes32, SetValue = Primitive, GetValue = Primitive>, S: StorageMutate<T, Error = E>, E: fmt::Debug + Clone + 'static
    requires t.repr(x, full)
    ensures
        r matches Ok(u) ==> u == t && u.repr(x, full),
        full ==> (r matches Err(e) ==> MerkleTree::<T, S>::storage_err(e)),
        !full && !(x is Empty) && bad(t.storage.smap(), x) ==> r is Err,
{
    proof {
        root_smt(t, x, full);
        assert(sub(x, 0, x, 0));
        assert(okx(t.storage.smap(), x, 0, full));
        prim_roundtrip(node_of(x, 0));
        assert(ins(x, x, x));
        digest_of(x, 0, x, x);
    }
    let root = t.root();
    MerkleTree::load(t.storage, &root)
}

@module sparse::in_memory
@items
use crate::vx_deps::*;
use crate::sparse::hash::{H32, hzero};
use crate::sparse::merkle_tree::{Tree, SItems, canon, no_coll, items, smt, next, op_ok, no_data, next_items, root_smt, empty_repr, full_good, op_pre_holds, op_map, sub, okx};
impl MerkleTree {
    pub open spec fn holds(&self, t: Tree) -> bool { self.tree.repr(t, true) }
}
pub proof fn nodes_map_lawful()
    ensures <StorageMap<NodesTable> as StorageMutate<NodesTable>>::s_lawful(), clone_eq::<core::convert::Infallible>()
{
    broadcast use stored_as_same;
    crate::sparse::node::clone_eq_primitive();
    clone_eq_infallible();
}
pub proof fn ready(s: MerkleTree, t: Tree, k: H32, data: Seq<u8>)
    requires s.holds(t), op_ok(t, k, data)
    ensures
        s.tree.repr(t, false), s.tree.repr(t, true),
        !crate::sparse::merkle_tree::need_bad(op_map(s.tree.storage.smap(), k, data), t, k),
        items(next(t, k, data)) == (if data.len() == 0 { items(t).remove(k) } else { items(t).insert(k, sha256(data)) }),
{
    let m = s.tree.storage.smap();
    assert forall|y: Tree, e: nat| #[trigger] sub(y, e, t, 0) implies okx(m, y, e, false) by { assert(okx(m, y, e, true)); }
    op_pre_holds(s.tree.root_node, m, t, true, k, data);
    full_good(op_map(m, k, data), t, k);
    next_items(t, k, data);
}
@fn MerkleTree::new
@ret r
@spec
    ensures r.holds(Tree::Empty)
@at start
    proof {
        assert forall|tr: SparseMerkleTree| tr.root_node == crate::sparse::node::placeholder() implies #[trigger] tr.repr(Tree::Empty, true) by { empty_repr(tr); }
    }
@fn MerkleTree::update
@spec
    requires exists|t: Tree| #[trigger] old(self).holds(t) && op_ok(t, *key, data@)
    ensures forall|t: Tree| #[trigger] old(self).holds(t) && op_ok(t, *key, data@) ==> final(self).holds(next(t, *key, data@))
@at start
    proof {
        nodes_map_lawful();
        broadcast use no_infallible;
        assert forall|t: Tree| #[trigger] old(self).holds(t) && op_ok(t, *key, data@) implies
            old(self).tree.repr(t, false) && old(self).tree.repr(t, true) && !crate::sparse::merkle_tree::need_bad(op_map(old(self).tree.storage.smap(), *key, data@), t, *key) by { ready(*old(self), t, *key, data@); }
    }
@fn MerkleTree::delete
@spec
    requires exists|t: Tree| #[trigger] old(self).holds(t) && op_ok(t, *key, no_data())
    ensures forall|t: Tree| #[trigger] old(self).holds(t) && op_ok(t, *key, no_data()) ==> final(self).holds(next(t, *key, no_data()))
@at start
    proof {
        nodes_map_lawful();
        broadcast use no_infallible;
        assert forall|t: Tree| #[trigger] old(self).holds(t) && op_ok(t, *key, no_data()) implies
            old(self).tree.repr(t, false) && old(self).tree.repr(t, true) && !crate::sparse::merkle_tree::need_bad(op_map(old(self).tree.storage.smap(), *key, no_data()), t, *key) by { ready(*old(self), t, *key, no_data()); }
    }
@fn MerkleTree::root
@ret r
@spec
    ensures forall|t: Tree| #[trigger] self.holds(t) ==> r == smt(items(t), 0)
@at start
    proof {
        assert forall|t: Tree| #[trigger] self.holds(t) implies self.tree.root_node.digest() == smt(items(t), 0) by { root_smt(self.tree, t, true); }
    }
@fn MerkleTree@Default::default
@ret r
@spec
    ensures r.holds(Tree::Empty)

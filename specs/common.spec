@module common
@fn empty_sum_sha256
@ret r
@spec
    ensures r@ == empty_sum_bytes(),
@items
/// the constant of the source: SHA-256 of the empty string, as literal bytes
pub open spec fn empty_sum_bytes() -> Seq<u8> {
    seq![
        0xe3u8, 0xb0u8, 0xc4u8, 0x42u8, 0x98u8, 0xfcu8, 0x1cu8, 0x14u8, 0x9au8, 0xfbu8, 0xf4u8, 0xc8u8, 0x99u8, 0x6fu8, 0xb9u8,
        0x24u8, 0x27u8, 0xaeu8, 0x41u8, 0xe4u8, 0x64u8, 0x9bu8, 0x93u8, 0x4cu8, 0xa4u8, 0x95u8, 0x99u8, 0x1bu8, 0x78u8, 0x52u8,
        0xb8u8, 0x55u8,
    ]
}
/// SHA-256 of the empty string (checked natively on every run)
pub broadcast axiom fn axiom_sha256_empty()
    ensures (#[trigger] crate::vx_deps::sha256(Seq::<u8>::empty()))@ == empty_sum_bytes();

@module common::msb
@items
pub open spec fn bit_bool(b: Bit) -> bool { b == Bit::_1 }
/// bit `i` of a byte, counted from the most significant one
pub open spec fn byte_bit(b: u8, i: int) -> bool { (b >> ((7 - i) as u8)) & 1 == 1 }
/// bit `i` of a byte string, counted from the most significant bit of the first byte
pub open spec fn bits_msb(s: Seq<u8>, i: int) -> Option<bool> {
    if 0 <= i < 8 * s.len() { Some(byte_bit(s[i / 8], i % 8)) } else { None }
}
pub open spec fn obit(b: Option<Bit>) -> Option<bool> {
    match b { Some(b) => Some(bit_bool(b)), None => None }
}
/// bit `i` (from the most significant) of the big-endian bytes of `x`
pub proof fn be64_bit(x: u64, i: int)
    requires 0 <= i < 64
    ensures bits_msb(crate::vx_deps::be64(x), i) == Some(crate::lem_pos::ibit(x as nat, (63 - i) as nat) == 1)
{
    let q = (i / 8) as u64;
    let r = (i % 8) as u64;
    let s = (56 - 8 * q) as u64;
    let b = ((x >> s) & 0xff) as u8;
    assert(crate::vx_deps::be64(x)[i / 8] == b);
    let t = (7 - r) as u8;
    let u = (63 - i) as u64;
    assert((((x >> s) & 0xff) as u8 >> t) & 1 == (x >> u) & 1) by (bit_vector)
        requires s == sub(56, mul(8, q)), q < 8, r < 8, t == sub(7, r as u8), u == sub(63, add(mul(8, q), r));
    crate::lem_pos::ibit_shr(x, u as nat);
}
@trait GetBit
    spec fn gb_bit(&self, i: int) -> Option<bool>;
@fn GetBit::get_bit
@ret r
@spec
    ensures obit(r) == self.gb_bit(bit_index as int)
@impl u8@GetBit
    open spec fn gb_bit(&self, i: int) -> Option<bool> { if 0 <= i < 8 { Some(byte_bit(*self, i)) } else { None } }
@fn u8@GetBit::get_bit
@at start
    proof {
        if bit_index < 8 {
            let s = (7 - bit_index) as u8;
            let b = *self;
            let m = 1u8 << s;
            assert((b & m == 0) == ((b >> s) & 1 != 1)) by (bit_vector) requires m == 1u8 << s, s < 8;
            assert(s as usize == 7 - bit_index);
            let s2 = (7 - bit_index) as usize;
            assert(1u8 << s2 == 1u8 << s) by (bit_vector) requires s2 == s as usize, s < 8;
        }
    }
@trait Msb
    spec fn m_len(&self) -> nat;
    spec fn m_bit(&self, i: int) -> Option<bool>;
@fn Msb::get_bit_at_index_from_msb
@ret r
@spec
    ensures obit(r) == self.m_bit(index as int)
@fn Msb::common_prefix_count
@ret r
@spec
    requires self.m_len() <= usize::MAX, other.m_len() == self.m_len(),
    ensures
        r <= self.m_len(),
        forall|i: int| 0 <= i < r ==> self.m_bit(i) == other.m_bit(i),
        r < self.m_len() ==> self.m_bit(r as int) != other.m_bit(r as int),
@impl [u8;N]@Msb
    open spec fn m_len(&self) -> nat { 8 * N as nat }
    open spec fn m_bit(&self, i: int) -> Option<bool> { bits_msb(self@, i) }
@fn [u8;N]@Msb::common_prefix_count
@loop 1
    invariant_except_break
        count == vx_i,
    invariant
        vx_end == 8 * N, vx_i <= 8 * N, 8 * N <= usize::MAX,
        count <= 8 * N,
        forall|j: int| 0 <= j < count ==> self.m_bit(j) == other.m_bit(j),
    ensures
        count <= 8 * N,
        forall|j: int| 0 <= j < count ==> self.m_bit(j) == other.m_bit(j),
        count < 8 * N ==> self.m_bit(count as int) != other.m_bit(count as int),
    decreases vx_end - vx_i,

@module common::path
@items
pub open spec fn instr_bool(i: Instruction) -> bool { i is Right }
pub open spec fn oinstr(i: Option<Instruction>) -> Option<bool> {
    match i { Some(i) => Some(instr_bool(i)), None => None }
}
@item Instruction
impl vstd::std_specs::convert::FromSpecImpl<Bit> for Instruction {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Bit) -> Self { if crate::common::msb::bit_bool(v) { Instruction::Right } else { Instruction::Left } }
}
@fn Instruction@From<Bit>::from
@ret r
@spec
    ensures instr_bool(r) == crate::common::msb::bit_bool(bit)
@trait Path
    /// `Some(true)`: descend right, `Some(false)`: descend left
    spec fn p_bit(&self, i: int) -> Option<bool>;
@fn Path::get_instruction
@ret r
@spec
    ensures oinstr(r) == self.p_bit(index as int)
@impl T@Path
    open spec fn p_bit(&self, i: int) -> Option<bool> { self.m_bit(i) }
@trait ComparablePath
    spec fn c_len(&self) -> nat;
    spec fn c_bit(&self, i: int) -> Option<bool>;
@fn ComparablePath::common_path_length
@ret r
@spec
    requires self.c_len() <= usize::MAX, other.c_len() == self.c_len(),
    ensures
        r <= self.c_len(),
        forall|i: int| 0 <= i < r ==> self.c_bit(i) == other.c_bit(i),
        r < self.c_len() ==> self.c_bit(r as int) != other.c_bit(r as int),
@impl T@ComparablePath
    open spec fn c_len(&self) -> nat { self.m_len() }
    open spec fn c_bit(&self, i: int) -> Option<bool> { self.m_bit(i) }

@module common::node
@trait Node
    spec fn n_height(&self) -> nat;
    spec fn n_is_leaf(&self) -> bool;
    spec fn n_is_node(&self) -> bool;
    /// the node has a leaf key
    spec fn n_key_ok(&self) -> bool;
    spec fn n_leaf_key(&self) -> Self::Key;
    spec fn n_key_bits() -> nat;
    /// the key is as long as its type (checked by rustc: vx_deps, `global size_of`)
    proof fn key_bits_law()
        ensures Self::n_key_bits() == vstd::layout::size_of::<Self::Key>() * 8, Self::n_key_bits() <= 0xffff;
@fn Node::key_size_in_bits
@ret r
@spec
    ensures r == Self::n_key_bits()
@at start
    proof { Self::key_bits_law(); }
@fn Node::height
@ret r
@spec
    ensures r == self.n_height()
@fn Node::leaf_key
@ret r
@spec
    requires self.n_key_ok(),
    ensures r == self.n_leaf_key()
@fn Node::is_leaf
@ret r
@spec
    ensures r == self.n_is_leaf()
@fn Node::is_node
@ret r
@spec
    ensures r == self.n_is_node()
@trait ParentNode
    /// the children can be computed
    spec fn n_child_ok(&self) -> bool;
    spec fn left_rel(&self, r: ChildResult<Self>) -> bool;
    spec fn right_rel(&self, r: ChildResult<Self>) -> bool;
@fn ParentNode::left_child
@ret r
@spec
    requires self.n_child_ok(),
    ensures self.left_rel(r), r matches Ok(c) ==> (c.n_is_node() ==> c.n_child_ok()),
@fn ParentNode::right_child
@ret r
@spec
    requires self.n_child_ok(),
    ensures self.right_rel(r), r matches Ok(c) ==> (c.n_is_node() ==> c.n_child_ok()),
@item ChildError
impl<Key, E> vstd::std_specs::convert::FromSpecImpl<E> for ChildError<Key, E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: E) -> Self { ChildError::<Key, E>::Error(v) }
}
@fn ChildError@From<E>::from
@ret r
@spec
    ensures r == ChildError::<Key, E>::Error(e)

@module common::position
@items
use crate::lem_pos::*;
broadcast use crate::lem_pos::mul_pm1;
pub open spec fn pos_of(h: nat, k: nat) -> Position { Position(pidx(h, k) as u64) }
@fn Position::in_order_index
@ret r
@spec
    ensures r == self.0
@fn Position::leaf_index
@ret r
@spec
    requires self.0 % 2 == 0
    ensures r == self.0 / 2
@at start
    proof { bits_of(self.0); }
@fn Position::from_in_order_index
@ret r
@spec
    ensures r.0 == index
@fn Position::from_leaf_index
@ret r
@spec
    requires index < 0x8000_0000_0000_0000
    ensures r.0 == 2 * index
@at start
    proof { bits_of(index); }
@fn Position::height
@ret r
@spec
    ensures r == hof(self.0)
@fn Position::is_leaf
@ret r
@spec
    ensures r == (self.0 % 2 == 0)
@at start
    proof { bits_of(self.0); }
@fn Position::is_node
@ret r
@spec
    ensures r == (self.0 % 2 != 0)
@at start
    proof { bits_of(self.0); }
@fn Position::orientation
@ret r
@spec
    requires hof(self.0) <= 62
    ensures r == kof(self.0) % 2
@at start
    proof { orientation_bit(self.0); bits_of(self.0); orient_bits(self.0); }
@fn Position::direction
@ret r
@spec
    requires hof(self.0) <= 62
    ensures r == (if kof(self.0) % 2 == 0 { 1int } else { -1 })
@fn Position::sibling
@ret r
@spec
    requires self.0 < 0x8000_0000_0000_0000, hof(self.0) <= 61
    ensures r.0 == pidx(hof(self.0), sib(kof(self.0))), r.0 < 0x7fff_ffff_ffff_ffff,
        hof(r.0) == hof(self.0), kof(r.0) == sib(kof(self.0)),
@at start
    proof {
        pidx_of(self.0);
        let h = hof(self.0);
        let k = kof(self.0);
        shl_pow2_i64((h + 1) as u32);
        shl_pow2_u64((h + 1) as u32);
        pidx_sib(h, k); pidx_room(h, k); pidx_nonneg(h, sib(k));
        hof_pidx(pidx(h, sib(k)) as u64, h, sib(k));
    }
@fn Position::parent
@ret r
@spec
    requires self.0 < 0x8000_0000_0000_0000, hof(self.0) <= 62
    ensures r.0 == pidx(hof(self.0) + 1, kof(self.0) / 2), r.0 <= 0x7fff_ffff_ffff_ffff,
        hof(r.0) == hof(self.0) + 1, kof(r.0) == kof(self.0) / 2,
@at start
    proof {
        pidx_of(self.0);
        let h = hof(self.0);
        let k = kof(self.0);
        shl_pow2_i64(h as u32);
        shl_pow2_u64(h as u32);
        pidx_parent(h, k); pidx_room(h, k); pidx_nonneg(h + 1, k / 2);
        hof_pidx(pidx(h + 1, k / 2) as u64, h + 1, k / 2);
    }
@fn Position::uncle
@ret r
@spec
    requires self.0 < 0x8000_0000_0000_0000, hof(self.0) <= 60
    ensures r.0 == pidx(hof(self.0) + 1, sib(kof(self.0) / 2)), r.0 < 0x7fff_ffff_ffff_ffff,
        hof(r.0) == hof(self.0) + 1, kof(r.0) == sib(kof(self.0) / 2),
@fn Position::child
@ret r
@spec
    requires self.0 < 0x7fff_ffff_ffff_ffff, self.0 % 2 == 1, direction == 1 || direction == -1
    ensures
        r.0 == pidx((hof(self.0) - 1) as nat, if direction == -1 { 2 * kof(self.0) } else { 2 * kof(self.0) + 1 }),
        r.0 < 0x7fff_ffff_ffff_ffff,
        hof(r.0) == hof(self.0) - 1, hof(self.0) >= 1, hof(self.0) <= 62,
        kof(r.0) == (if direction == -1 { 2 * kof(self.0) } else { 2 * kof(self.0) + 1 }),
        direction == -1 ==> r.0 < self.0,
        direction == 1 ==> r.0 > self.0,
@at start
    proof {
        pidx_of(self.0);
        let h = hof(self.0);
        let k = kof(self.0);
        pidx_parity(h, k);
        shl_pow2_i64((h - 1) as u32);
        shl_pow2_u64((h - 1) as u32);
        pidx_child(h, k); pow2_pos((h - 1) as nat);
        pidx_child_room(h, k);
        let kk = if direction == -1 { 2 * k } else { 2 * k + 1 };
        pidx_nonneg((h - 1) as nat, kk);
        hof_pidx(pidx((h - 1) as nat, kk) as u64, (h - 1) as nat, kk);
    }
@fn Position::left_child
@ret r
@spec
    requires self.0 < 0x7fff_ffff_ffff_ffff, self.0 % 2 == 1
    ensures
        hof(self.0) >= 1, hof(self.0) <= 62,
        r.0 == pidx((hof(self.0) - 1) as nat, 2 * kof(self.0)),
        r.0 < 0x8000_0000_0000_0000, r.0 < self.0,
        hof(r.0) == hof(self.0) - 1, kof(r.0) == 2 * kof(self.0),
@fn Position::right_child
@ret r
@spec
    requires self.0 < 0x7fff_ffff_ffff_ffff, self.0 % 2 == 1
    ensures
        hof(self.0) >= 1, hof(self.0) <= 62,
        r.0 == pidx((hof(self.0) - 1) as nat, 2 * kof(self.0) + 1),
        r.0 < 0x7fff_ffff_ffff_ffff, r.0 > self.0,
        hof(r.0) == hof(self.0) - 1, kof(r.0) == 2 * kof(self.0) + 1,
@fn Position::path
@ret r
@spec
    ensures r.root == self, r.leaf == *leaf, r.leaves_count == leaves_count
@impl Position@Node
    open spec fn n_height(&self) -> nat { hof(self.0) }
    open spec fn n_is_leaf(&self) -> bool { self.0 % 2 == 0 }
    open spec fn n_is_node(&self) -> bool { self.0 % 2 != 0 }
    open spec fn n_key_ok(&self) -> bool { self.0 % 2 == 0 }
    open spec fn n_leaf_key(&self) -> Bytes8 { crate::vx_deps::be8((self.0 / 2) as u64) }
    open spec fn n_key_bits() -> nat { 64 }
    proof fn key_bits_law() { crate::vx_deps::size_of_bytes8(); }
@impl Position@ParentNode
    open spec fn n_child_ok(&self) -> bool { self.0 < 0x7fff_ffff_ffff_ffff && self.0 % 2 == 1 }
    open spec fn left_rel(&self, r: ChildResult<Self>) -> bool {
        r == Ok::<Self, crate::common::ChildError<Bytes8, Infallible>>(pos_of((hof(self.0) - 1) as nat, 2 * kof(self.0)))
    }
    open spec fn right_rel(&self, r: ChildResult<Self>) -> bool {
        r == Ok::<Self, crate::common::ChildError<Bytes8, Infallible>>(pos_of((hof(self.0) - 1) as nat, 2 * kof(self.0) + 1))
    }

@module common::path_iterator
@items
use crate::vx_deps::{clone_eq, clone_eq_pair, clone_eq_result, VxIter};
use crate::lem_pos::*;
pub type PathPair<T> = (ChildResult<T>, ChildResult<T>);

/// the pair of children along bit `b`
pub open spec fn step_rel<T: ParentNode>(p: T, b: bool, q: PathPair<T>) -> bool {
    if b { p.right_rel(q.0) && p.left_rel(q.1) } else { p.left_rel(q.0) && p.right_rel(q.1) }
}
@fn PathIter::new
@ret r
@spec
    requires root.n_height() <= T::n_key_bits(),
    ensures
        r.current_offset == T::n_key_bits() - root.n_height(),
        clone_eq::<T>() ==> r.leaf == *leaf,
        clone_eq::<T>() ==> r.current == Some::<PathPair<T>>((Ok(*root), Ok(*root))),
@impl PathIter@Iterator
    open spec fn it_inv(&self) -> bool {
        &&& clone_eq::<T>() && clone_eq::<T::Key>() && clone_eq::<T::Error>()
        &&& self.leaf.n_key_ok()
        &&& self.current matches Some((Ok(p), _)) ==> (p.n_is_node() ==> p.n_child_ok())
        &&& forall|i: int| i >= usize::MAX ==> (#[trigger] self.leaf.n_leaf_key().p_bit(i)) is None
    }
    open spec fn it_rel(pre: Self, post: Self, r: Option<PathPair<T>>) -> bool {
        &&& r == pre.current
        &&& post.leaf == pre.leaf
        &&& match pre.current {
            Some((Ok(p), _)) => if p.n_is_node() {
                match pre.leaf.n_leaf_key().p_bit(pre.current_offset as int) {
                    None => post.current is None && post.current_offset == pre.current_offset,
                    Some(b) => post.current_offset == pre.current_offset + 1
                        && (post.current matches Some(q) && step_rel(p, b, q)),
                }
            } else { post.current is None },
            _ => post.current is None,
        }
    }
@trait AsPathIterator
    spec fn api_pre(&self, leaf: &Self) -> bool;
    spec fn api_post(&self, leaf: &Self, r: PathIter<T>) -> bool;
@fn PathIter@Iterator::next
@at start
    proof {
        clone_eq_result::<T, crate::common::ChildError<T::Key, T::Error>>();
        clone_eq_pair::<ChildResult<T>, ChildResult<T>>();
    }
@fn AsPathIterator::as_path_iter
@ret r
@spec
    requires self.api_pre(leaf),
    ensures self.api_post(leaf, r),
@impl T@AsPathIterator<T>
    open spec fn api_pre(&self, leaf: &Self) -> bool { self.n_height() <= T::n_key_bits() }
    open spec fn api_post(&self, leaf: &Self, r: PathIter<T>) -> bool {
        &&& r.current_offset == T::n_key_bits() - self.n_height()
        &&& clone_eq::<T>() ==> r.leaf == *leaf && r.current == Some::<PathPair<T>>((Ok(*self), Ok(*self)))
    }

@module common::position_path
@items
use crate::lem_pos::*;
use crate::common::position::pos_of;
use crate::common::path::Path;
use crate::common::msb::be64_bit;
use crate::common::ChildResult;
use crate::vx_deps::*;
use vstd::arithmetic::power2::pow2;

pub type PosPair = (ChildResult<Position>, ChildResult<Position>);

/// the node (h, k) has a small index: relatives can be computed
pub open spec fn small(x: u64) -> bool { x < 0x7fff_ffff_ffff_ffff }
pub open spec fn hk(p: Position) -> (nat, nat) { (hof(p.0), kof(p.0)) }

pub proof fn hk_ppos(p: Position)
    requires small(p.0)
    ensures ppos(hk(p)) == p, hof(p.0) <= 62, hof(p.0) == 0 <==> p.0 % 2 == 0
{
    pidx_of(p.0);
    pidx_parity(hof(p.0), kof(p.0));
    if hof(p.0) > 62 {
        pow2_63();
        let k = kof(p.0);
        assert((2 * k + 1) * pow2(63) >= pow2(63)) by (nonlinear_arith) requires k >= 0, pow2(63) > 0;
    }
}

impl PositionPathIter {
    /// number of leaves of the tree
    pub open spec fn n(&self) -> nat { (self.rightmost_position.0 / 2 + 1) as nat }
    pub open spec fn i(&self) -> nat { (self.path_iter.leaf.0 / 2) as nat }
    pub open spec fn eff(&self) -> Position {
        match self.current_side_node {
            Some(s) => s,
            None => match self.path_iter.current { Some((_, Ok(s))) => s, _ => arbitrary() },
        }
    }
    pub open spec fn inv(&self) -> bool {
        &&& self.path_iter.it_inv()
        &&& self.rightmost_position.0 % 2 == 0 && self.rightmost_position.0 < 0x7fff_ffff_ffff_fffe
        &&& self.path_iter.leaf.0 % 2 == 0
        &&& match self.path_iter.current {
            Some((Ok(p), Ok(s))) => {
                &&& small(p.0) && small(self.eff().0)
                &&& self.path_iter.current_offset == 64 - hof(p.0)
                &&& first_leaf(hof(self.eff().0), kof(self.eff().0)) < self.n()
            },
            Some(_) => false,
            None => true,
        }
    }
    pub open spec fn left(&self) -> nat {
        match self.path_iter.current { Some((Ok(p), _)) => hof(p.0) + 1, _ => 0 }
    }
    pub open spec fn pending(&self) -> Seq<((nat, nat), (nat, nat))> {
        match self.path_iter.current {
            Some((Ok(p), Ok(s))) => pwalk(hof(p.0), kof(p.0), self.i(), self.n(), hk(self.eff())),
            _ => Seq::empty(),
        }
    }
}

/// one step of the underlying path iterator over positions
pub proof fn path_step(a: PositionPathIter, b: PathIter<Position>, r: Option<PosPair>)
    requires a.inv(), PathIter::<Position>::it_rel(a.path_iter, b, r), b.it_inv(),
    ensures
        r is None ==> a.pending().len() == 0 && b.current is None,
        r matches Some(q) ==> {
            &&& q.0 matches Ok(p)
            &&& q.1 matches Ok(s)
            &&& a.path_iter.current == Some::<PosPair>((Ok(p), Ok(s)))
            &&& small(p.0) && small(a.eff().0) && hof(p.0) <= 62
            &&& b.leaf == a.path_iter.leaf
            &&& (hof(p.0) == 0 ==> b.current is None)
            &&& hof(p.0) > 0 ==> ({
                let g = (hof(p.0) - 1) as nat;
                let c = ibit(a.i(), g);
                &&& c < 2
                &&& b.current == Some::<PosPair>((Ok(pos_of(g, 2 * kof(p.0) + c)), Ok(pos_of(g, (2 * kof(p.0) + 1 - c) as nat))))
                &&& b.current_offset == 64 - g
                &&& hk(pos_of(g, 2 * kof(p.0) + c)) == (g, 2 * kof(p.0) + c)
                &&& hk(pos_of(g, (2 * kof(p.0) + 1 - c) as nat)) == (g, (2 * kof(p.0) + 1 - c) as nat)
                &&& small(pos_of(g, 2 * kof(p.0) + c).0)
                &&& small(pos_of(g, (2 * kof(p.0) + 1 - c) as nat).0)
            })
        },
{
    if let Some((Ok(p), Ok(s))) = a.path_iter.current {
        hk_ppos(p);
        let h = hof(p.0);
        let k = kof(p.0);
        if h > 0 {
            let g = (h - 1) as nat;
            let x = (a.path_iter.leaf.0 / 2) as u64;
            pidx_of(p.0);
            be64_bit(x, 64 - h);
            be8_seq(x);
            ibit_shift(x as nat, g);
            pidx_child_room(h, k);
            pidx_nonneg(g, 2 * k);
            pidx_nonneg(g, 2 * k + 1);
            hof_pidx(pidx(g, 2 * k) as u64, g, 2 * k);
            hof_pidx(pidx(g, 2 * k + 1) as u64, g, 2 * k + 1);
        }
    }
}

/// what remains to be yielded, one step further down
pub proof fn walk_step(a: PositionPathIter, p: Position)
    requires a.inv(), a.path_iter.current matches Some((Ok(q), _)) && q == p, a.path_iter.current matches Some((_, Ok(_))),
    ensures
        pvalid(hof(p.0), kof(p.0), a.n()) == (p.0 <= a.rightmost_position.0),
        first_leaf(hof(a.eff().0), kof(a.eff().0)) < a.n(),
        pvalid(hof(p.0), kof(p.0), a.n()) && hof(p.0) > 0 ==>
            first_leaf((hof(p.0) - 1) as nat, 2 * kof(p.0)) < a.n() && first_leaf((hof(p.0) - 1) as nat, 2 * kof(p.0) + 1) < a.n(),
{
    pidx_of(p.0);
    hk_ppos(p);
    pvalid_idx(hof(p.0), kof(p.0), a.n());
    if hof(p.0) > 0 {
        first_leaf_left(hof(p.0), kof(p.0));
    }
}

/// a side position outside the tree is replaced by its left child
pub proof fn side_step(a: PositionPathIter, side: Position)
    requires a.inv(), small(side.0), first_leaf(hof(side.0), kof(side.0)) < a.n(), side.0 > a.rightmost_position.0,
    ensures side.0 % 2 == 1, hof(side.0) > 0,
        first_leaf((hof(side.0) - 1) as nat, 2 * kof(side.0)) < a.n(),
        ptop(hof(side.0), kof(side.0), a.n()) == ptop((hof(side.0) - 1) as nat, 2 * kof(side.0), a.n()),
{
    pidx_of(side.0);
    hk_ppos(side);
    pvalid_idx(hof(side.0), kof(side.0), a.n());
    pow2_63();
    if hof(side.0) == 0 {
        assert(kof(side.0) * 1 == kof(side.0));
    } else {
        first_leaf_left(hof(side.0), kof(side.0));
    }
}

pub proof fn side_done(a: PositionPathIter, side: Position)
    requires a.inv(), small(side.0), side.0 <= a.rightmost_position.0,
    ensures ptop(hof(side.0), kof(side.0), a.n()) == hk(side), ppos(hk(side)) == side,
{
    pidx_of(side.0);
    hk_ppos(side);
    pvalid_idx(hof(side.0), kof(side.0), a.n());
}

pub open spec fn ppos(p: (nat, nat)) -> Position { pos_of(p.0, p.1) }
pub open spec fn ppairs(s: Seq<((nat, nat), (nat, nat))>) -> Seq<(Position, Position)> {
    s.map_values(|q: ((nat, nat), (nat, nat))| (ppos(q.0), ppos(q.1)))
}

pub proof fn ppairs_cons(a: ((nat, nat), (nat, nat)), s: Seq<((nat, nat), (nat, nat))>)
    ensures ppairs(seq![a] + s) == seq![(ppos(a.0), ppos(a.1))] + ppairs(s)
{ assert(ppairs(seq![a] + s) =~= seq![(ppos(a.0), ppos(a.1))] + ppairs(s)); }
@fn PositionPath::iter
@ret r
@spec
    requires
        1 <= self.leaves_count <= 0x3fff_ffff_ffff_ffff,
        small(self.root.0), self.leaf.0 % 2 == 0,
        first_leaf(hof(self.root.0), kof(self.root.0)) < self.leaves_count,
    ensures
        r.it_inv(),
        r.rest() == ppairs(pwalk(hof(self.root.0), kof(self.root.0), (self.leaf.0 / 2) as nat, self.leaves_count as nat, hk(self.root))),
        // the leaf is one of the tree: the branching nodes above it, then the leaf,
        // each with the top of the subtree on the other side
        ({
            let i = (self.leaf.0 / 2) as nat;
            let n = self.leaves_count as nat;
            let top = ptop(hof(self.root.0), kof(self.root.0), n);
            i < n && under(hof(self.root.0), kof(self.root.0), i) ==>
                r.rest() == ppairs(tree_path(top.0, top.1, i, n, top))
        }),
@at start
    proof {
        let i = (self.leaf.0 / 2) as nat;
        let n = self.leaves_count as nat;
        if i < n && under(hof(self.root.0), kof(self.root.0), i) {
            pwalk_is_tree_path(hof(self.root.0), kof(self.root.0), i, n, hk(self.root));
        }
    }
@fn PositionPathIter::new
@ret r
@spec
    requires
        1 <= leaves_count <= 0x3fff_ffff_ffff_ffff,
        small(root.0), leaf.0 % 2 == 0,
        first_leaf(hof(root.0), kof(root.0)) < leaves_count,
    ensures
        r.it_inv(),
        r.rest() == ppairs(pwalk(hof(root.0), kof(root.0), (leaf.0 / 2) as nat, leaves_count as nat, hk(root))),
@at start
    proof {
        hk_ppos(root); be64_small((leaf.0 / 2) as u64);
        clone_eq_array::<u8, 8>();
        clone_eq_infallible();
        pidx_of(root.0);
    }
@impl PositionPathIter@Iterator
    open spec fn it_inv(&self) -> bool { self.inv() }
    open spec fn it_rel(pre: Self, post: Self, r: Option<(Position, Position)>) -> bool {
        &&& r is None ==> pre.pending().len() == 0 && post.pending().len() == 0
        &&& r matches Some(x) ==> ppairs(pre.pending()) == seq![x] + ppairs(post.pending())
    }
@fn PositionPathIter@Iterator::next
@at loop 1 before
    let ghost mut vx_prev = *self;
    let ghost vx_all = ppairs(self.pending());
@loop 1
    invariant_except_break
        self.inv(), vx_prev == *self, ppairs(self.pending()) == vx_all,
    invariant
        vx_all == ppairs(old(self).pending()),
    ensures
        self.inv(), vx_all.len() == 0, self.pending().len() == 0,
    decreases self.left(),
@at loop 1 start
    proof {
        path_step(vx_prev, self.path_iter, Some(vx_e));
        walk_step(vx_prev, vx_e.0->Ok_0);
    }
@loop 2
    invariant
        self.rightmost_position == vx_prev.rightmost_position,
        vx_prev.inv(),
        small(side.0),
        first_leaf(hof(side.0), kof(side.0)) < vx_prev.n(),
        ptop(hof(side.0), kof(side.0), vx_prev.n()) == ptop(hof(vx_prev.eff().0), kof(vx_prev.eff().0), vx_prev.n()),
    decreases side.0,
@at loop 2 start
    proof { side_step(vx_prev, side); }
@at loop 2 after
    proof {
        assert(ppairs(vx_prev.pending()) == vx_all);
        assert(vx_prev.pending() =~= seq![(hk(path), hk(side))] + self.pending()) by {
            let h = hof(path.0);
            let k = kof(path.0);
            side_done(vx_prev, side);
            if h == 0 {
                assert(self.pending() =~= Seq::<((nat, nat), (nat, nat))>::empty());
            }
        }
        side_done(vx_prev, side);
        hk_ppos(path);
        ppairs_cons((hk(path), hk(side)), self.pending());
        assert(vx_all == seq![(path, side)] + ppairs(self.pending()));
    }
@at loop 1 end
    proof {
        assert(Seq::<((nat, nat), (nat, nat))>::empty() + self.pending() =~= self.pending());
        vx_prev = *self;
    }
@item PositionPathIter
impl crate::vx_deps::VxSeq for PositionPathIter {
    open spec fn rest(&self) -> Seq<(Position, Position)> { ppairs(self.pending()) }
    proof fn rest_step(pre: Self, post: Self, r: Option<(Position, Position)>) {}
}
impl crate::vx_deps::VxPairs<Position, Position> for PositionPathIter {
    open spec fn pairs_ok(&self) -> bool { self.inv() }
    open spec fn pairs(&self) -> Seq<(Position, Position)> { self.rest() }
    fn into_pairs(self) -> (r: Vec<(Position, Position)>) { crate::vx_deps::vx_collect(self) }
}
@items
pub proof fn be64_small(x: u64)
    ensures forall|i: int| i >= usize::MAX ==> (#[trigger] be8(x).p_bit(i)) is None
{ be8_seq(x); }
@items
/// the j-th pair on the way from `root` down to leaf `i`: the node of that
/// height above the leaf, and its sibling (the root with itself)
pub open spec fn path_pair(root: Position, i: nat, j: nat) -> PosPair {
    let g = (hof(root.0) - j) as nat;
    let k = i / pow2(g);
    if j == 0 { (Ok(root), Ok(root)) } else { (Ok(pos_of(g, k)), Ok(pos_of(g, if k % 2 == 0 { k + 1 } else { (k - 1) as nat }))) }
}

/// the state of the path iterator after m steps
pub open spec fn at_step(root: Position, leaf: Position, it: PathIter<Position>, m: nat) -> bool {
    &&& it.leaf == leaf
    &&& m <= hof(root.0) ==> it.current_offset == 64 - (hof(root.0) - m) && it.current == Some(path_pair(root, (leaf.0 / 2) as nat, m))
    &&& m > hof(root.0) ==> it.current is None
}
pub open spec fn out_at(root: Position, leaf: Position, m: nat) -> Option<PosPair> {
    if m <= hof(root.0) { Some(path_pair(root, (leaf.0 / 2) as nat, m)) } else { None::<PosPair> }
}
/// the node at height f above the leaf and below `root`
pub proof fn on_path(root: Position, leaf: Position, f: nat)
    requires
        small(root.0), leaf.0 % 2 == 0, f <= hof(root.0),
        under(hof(root.0), kof(root.0), (leaf.0 / 2) as nat),
    ensures
        ({
            let i = (leaf.0 / 2) as nat;
            let p = pos_of(f, i / pow2(f));
            &&& hk(p) == (f, i / pow2(f)) && small(p.0)
            &&& f == hof(root.0) ==> p == root
            &&& hof(p.0) == f && kof(p.0) == i / pow2(f)
        })
{
    hk_ppos(root);
    pidx_of(root.0);
    let i = (leaf.0 / 2) as nat;
    path_room(root, i, f);
    hk_ppos(pos_of(f, i / pow2(f)));
}
pub proof fn path_iter_step(root: Position, leaf: Position, it: PathIter<Position>, it2: PathIter<Position>, out: Option<PosPair>, m: nat)
    requires
        small(root.0), leaf.0 % 2 == 0,
        under(hof(root.0), kof(root.0), (leaf.0 / 2) as nat),
        at_step(root, leaf, it, m), PathIter::<Position>::it_rel(it, it2, out),
    ensures
        out == out_at(root, leaf, m), at_step(root, leaf, it2, m + 1),
{
    hk_ppos(root);
    let h = hof(root.0);
    let i = (leaf.0 / 2) as nat;
    pidx_of(root.0);
    if m <= h {
        let f = (h - m) as nat;
        let k = i / pow2(f);
        pow2_pos(f);
        on_path(root, leaf, f);
        let p = pos_of(f, k);
        hk_ppos(p);
        if f > 0 {
            let g = (f - 1) as nat;
            let x = (leaf.0 / 2) as u64;
            pidx_of(p.0);
            be64_bit(x, 64 - f);
            be8_seq(x);
            ibit_shift(x as nat, g);
            pidx_child_room(f, k);
        }
    }
}
/// The path iterator over positions, started at `root` for a leaf below it and
/// asked any number of times, yields exactly the positions from root to leaf,
/// each once and with its sibling, and then nothing.
pub proof fn theorem_path_iter(root: Position, leaf: Position, its: Seq<PathIter<Position>>, outs: Seq<Option<PosPair>>, j: nat)
    requires
        small(root.0), leaf.0 % 2 == 0,
        under(hof(root.0), kof(root.0), (leaf.0 / 2) as nat),
        its.len() == outs.len() + 1,
        // what PathIter::new returns
        its[0].leaf == leaf,
        its[0].current_offset == 64 - hof(root.0),
        its[0].current == Some::<PosPair>((Ok(root), Ok(root))),
        // what PathIter::next does
        forall|j: int| 0 <= j < outs.len() ==> PathIter::<Position>::it_rel(#[trigger] its[j], its[j + 1], outs[j]),
        j < its.len(),
    ensures
        forall|m: int| 0 <= m < j ==> #[trigger] outs[m] ==
            (if m <= hof(root.0) { Some(path_pair(root, (leaf.0 / 2) as nat, m as nat)) } else { None::<PosPair> }),
        its[j as int].leaf == leaf,
        j <= hof(root.0) ==> its[j as int].current_offset == 64 - (hof(root.0) - j)
            && its[j as int].current == Some(path_pair(root, (leaf.0 / 2) as nat, j)),
        j > hof(root.0) ==> its[j as int].current is None,
    decreases j
{
    if j > 0 {
        let m = (j - 1) as nat;
        theorem_path_iter(root, leaf, its, outs, m);
        assert(PathIter::<Position>::it_rel(its[m as int], its[m as int + 1], outs[m as int]));
        path_iter_step(root, leaf, its[m as int], its[m as int + 1], outs[m as int], m);
    }
}

/// a node above leaf i and not above `root` fits
pub proof fn path_room(root: Position, i: nat, f: nat)
    requires small(root.0), f <= hof(root.0), under(hof(root.0), kof(root.0), i)
    ensures hk(pos_of(f, i / pow2(f))) == (f, i / pow2(f)), small(pos_of(f, i / pow2(f)).0)
    decreases hof(root.0) - f
{
    hk_ppos(root);
    pidx_of(root.0);
    if f < hof(root.0) {
        let e = (f + 1) as nat;
        path_room(root, i, e);
        let q = pos_of(e, i / pow2(e));
        pidx_of(q.0);
        hk_ppos(q);
        ibit_shift(i, f);
        pidx_child_room(e, i / pow2(e));
        pidx_nonneg(f, 2 * (i / pow2(e)));
        pidx_nonneg(f, 2 * (i / pow2(e)) + 1);
        hof_pidx(pidx(f, 2 * (i / pow2(e))) as u64, f, 2 * (i / pow2(e)));
        hof_pidx(pidx(f, 2 * (i / pow2(e)) + 1) as u64, f, 2 * (i / pow2(e)) + 1);
    }
}
@fn PositionPath::new
@ret r
@spec
    ensures r.root == root, r.leaf == leaf, r.leaves_count == leaves_count

@module common::prefix
@items
pub open spec fn prefix_u8(p: Prefix) -> u8 { match p { Prefix::Node => 1u8, Prefix::Leaf => 0u8 } }
pub open spec fn prefix_bytes(p: Prefix) -> Seq<u8> { seq![prefix_u8(p)] }
@item Prefix
impl vstd::std_specs::convert::FromSpecImpl<Prefix> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Prefix) -> Self { prefix_u8(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<Prefix> for [u8; 1] {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Prefix) -> Self { [prefix_u8(v)] }
}
impl vstd::std_specs::convert::TryFromSpecImpl<u8> for Prefix {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: u8) -> Result<Self, PrefixError> {
        if v == 0 { Ok(Prefix::Leaf) } else if v == 1 { Ok(Prefix::Node) } else { Err(PrefixError::InvalidPrefix(v)) }
    }
}
@fn Prefix@Default::default
@ret r
@spec
    ensures r == Prefix::Leaf
@fn u8@From<Prefix>::from
@ret r
@spec
    ensures r == prefix_u8(prefix)
@fn [u8;1]@From<Prefix>::from
@ret r
@spec
    ensures r@ == prefix_bytes(prefix)
@fn Prefix@TryFrom<u8>::try_from
@ret r
@spec
    ensures
        byte == 0 ==> r == Ok::<Prefix, PrefixError>(Prefix::Leaf),
        byte == 1 ==> r == Ok::<Prefix, PrefixError>(Prefix::Node),
        byte > 1 ==> r == Err::<Prefix, PrefixError>(PrefixError::InvalidPrefix(byte)),
@fn Prefix@AsRef<[u8]>::as_ref
@ret r
@spec
    ensures crate::vx_deps::slice_view(r) == prefix_bytes(*self)
@fn Prefix@AsRef<[u8;1]>::as_ref
@ret r
@spec
    ensures crate::vx_deps::arr_view(r) == prefix_bytes(*self)

@module common::storage_map
@items
use crate::vx_deps::{clone_eq, stored_as};
@fn StorageMap@Default::default
@ret r
@spec
    ensures r.map@ == Map::<Type::Key, Type::GetValue>::empty()
@fn StorageMap::new
@ret r
@spec
    ensures r.map@ == Map::<Type::Key, Type::GetValue>::empty()
@impl StorageMap@StorageInspect<Type>
    open spec fn smap(&self) -> Map<Type::Key, Type::GetValue> { self.map@ }
    open spec fn serr(e: Self::Error) -> bool { false }
    open spec fn sfail(&self) -> nat { 0 }
@impl StorageMap@StorageMutate<Type>
    open spec fn s_lawful() -> bool {
        clone_eq::<Type::Key>() && clone_eq::<Type::SetValue>()
        && (forall|v: Type::SetValue, r: Type::GetValue| #[trigger] call_ensures(<Type::GetValue as From<Type::SetValue>>::from, (v,), r)
            ==> r == stored_as::<Type::SetValue, Type::GetValue>(&v))
    }

@module common::error
@item DeserializeError
impl vstd::std_specs::convert::FromSpecImpl<PrefixError> for DeserializeError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: PrefixError) -> Self { DeserializeError::PrefixError(v) }
}
@fn DeserializeError@From<PrefixError>::from
@ret r
@spec
    ensures r == DeserializeError::PrefixError(err)

@module common::subtree
@fn Subtree::new
@ret r
@spec
    ensures r.node == node, r.next == next
@fn Subtree::next
@ret r
@spec
    ensures *r == self.next
@fn Subtree::next_mut
@ret r
@spec
    ensures *r == old(self).next, final(self).node == old(self).node, final(self).next == *final(r)
@fn Subtree::take_next
@ret r
@spec
    ensures r == old(self).next, final(self).next is None, final(self).node == old(self).node
@fn Subtree::node
@ret r
@spec
    ensures *r == self.node
@fn Subtree::node_mut
@ret r
@spec
    ensures *r == old(self).node, final(self).next == old(self).next, final(self).node == *final(r)
@fn Subtree::next_node
@ret r
@spec
    ensures
        r is None <==> self.next is None,
        r matches Some(n) ==> self.next matches Some(b) && *n == b.node,

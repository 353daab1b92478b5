@module sum::hash
@items
use crate::vx_deps::*;
pub type H32 = [u8; 32];
/// SHA-256 of the empty string
pub open spec fn hempty() -> H32 { sha256(Seq::empty()) }
/// the bytes hashed for a leaf: 0x00 || fee || data
pub open spec fn sleaf_pre(fee: u64, d: Seq<u8>) -> Seq<u8> { seq![0u8] + be64(fee) + d }
/// the bytes hashed for an internal node: 0x01 || left fee || left hash || right fee || right hash
pub open spec fn snode_pre(lf: u64, l: Seq<u8>, rf: u64, r: Seq<u8>) -> Seq<u8> { seq![1u8] + be64(lf) + l + be64(rf) + r }
/// a subtree's exact fee total and digest
pub type SV = (nat, H32);
/// the combining operation of the tree
pub open spec fn sop() -> crate::lem_mmr::Op<SV> {
    |l: SV, r: SV| (l.0 + r.0, sha256(snode_pre(l.0 as u64, l.1@, r.0 as u64, r.1@)))
}
@fn empty_sum
@ret r
@spec
    ensures *r == hempty()
@tail t
@at end
    proof {
        broadcast use crate::common::axiom_sha256_empty;
        assert(*t =~= hempty());
    }
@fn node_sum
@ret r
@spec
    ensures r == sha256(snode_pre(lhs_fee, lhs_data@, rhs_fee, rhs_data@))
@at start
    proof {
        broadcast use be8_seq;
        assert(Seq::<u8>::empty() + seq![1u8] =~= seq![1u8]);
    }
@fn leaf_sum
@ret r
@spec
    ensures r == sha256(sleaf_pre(fee, data@))
@at start
    proof {
        broadcast use be8_seq;
        assert(Seq::<u8>::empty() + seq![0u8] =~= seq![0u8]);
    }

@module sum::node
@items
use crate::vx_deps::*;
use crate::sum::hash::{sleaf_pre, snode_pre};
@fn Node::create_leaf
@ret r
@spec
    ensures r == (Node { height: 0, hash: sha256(sleaf_pre(fee, data@)), fee: fee, left_child_key: None, right_child_key: None })
@fn Node::create_node
@ret r
@spec
    requires lhs_fee + rhs_fee <= u64::MAX
    ensures r == (Node {
        height: height,
        hash: sha256(snode_pre(lhs_fee, lhs_key@, rhs_fee, rhs_key@)),
        fee: (lhs_fee + rhs_fee) as u64,
        left_child_key: Some(*lhs_key), right_child_key: Some(*rhs_key),
    })
@fn Node::height
@ret r
@spec
    ensures r == self.height
@fn Node::hash
@ret r
@spec
    ensures *r == self.hash
@fn Node::fee
@ret r
@spec
    ensures r == self.fee
@fn Node::left_child_key
@ret r
@spec
    ensures r == self.left_child_key
@fn Node::right_child_key
@ret r
@spec
    ensures r == self.right_child_key
@fn Node::is_leaf
@ret r
@spec
    ensures r == (self.height == 0)
@fn Node::is_node
@ret r
@spec
    ensures r == (self.height != 0)

@module sum::merkle_tree
@items
use crate::lem_pos::*;
use crate::lem_mmr::*;
use crate::vx_deps::*;
use crate::sum::hash::{H32, SV, hempty, sop, sleaf_pre, snode_pre};
use vstd::arithmetic::power2::pow2;
broadcast use {crate::vx_deps::stored_as_same, crate::vx_deps::question_from};

/// trees of up to 2^62 - 2 leaves
pub open spec fn max_leaves() -> nat { 0x3fff_ffff_ffff_fffe }
pub type SMap = Map<H32, Node>;
/// a leaf: its fee and data
pub type Leaf = (u64, Seq<u8>);

/// the nodes of a list of subtrees
pub open spec fn lst(o: Option<Box<Subtree<Node>>>) -> Seq<Node>
    decreases o
{ match o { None => Seq::empty(), Some(b) => seq![b.node] + lst(b.next) } }
pub open spec fn sub(t: Subtree<Node>) -> Seq<Node> { seq![t.node] + lst(t.next) }

// ---- what the code does to a list of subtrees -------------------------------

/// the parent of two nodes
pub open spec fn joined(l: Node, r: Node) -> Node {
    Node {
        height: (l.height + 1) as u32,
        hash: sha256(snode_pre(l.fee, l.hash@, r.fee, r.hash@)),
        fee: (l.fee + r.fee) as u64,
        left_child_key: Some(l.hash), right_child_key: Some(r.hash),
    }
}
pub open spec fn join_ok(l: Node, r: Node) -> bool { l.height < u32::MAX && l.fee + r.fee <= u64::MAX }
/// the two front subtrees replaced by their parent
pub open spec fn bag1(l: Seq<Node>) -> Seq<Node> { seq![joined(l[1], l[0])] + l.skip(2) }
/// the two front subtrees have the same height
pub open spec fn carries(l: Seq<Node>) -> bool { l.len() > 1 && l[1].height == l[0].height }
pub open spec fn carry_ok(l: Seq<Node>) -> bool
    decreases l.len()
{ carries(l) ==> join_ok(l[1], l[0]) && carry_ok(bag1(l)) }
/// joining while the two front subtrees have the same height
pub open spec fn carried(l: Seq<Node>) -> Seq<Node>
    decreases l.len()
{ if carries(l) { carried(bag1(l)) } else { l } }
/// ... storing each joined node under its digest
pub open spec fn carry_map(l: Seq<Node>, m: SMap) -> SMap
    decreases l.len()
{
    if carries(l) {
        let c = joined(l[1], l[0]);
        carry_map(bag1(l), m.insert(c.hash, c))
    } else { m }
}
pub open spec fn leaf_node(fee: u64, d: Seq<u8>) -> Node {
    Node { height: 0, hash: sha256(sleaf_pre(fee, d)), fee: fee, left_child_key: None, right_child_key: None }
}
pub open spec fn bag_ok(l: Seq<Node>) -> bool
    decreases l.len()
{ l.len() > 1 ==> join_ok(l[1], l[0]) && bag_ok(bag1(l)) }
/// joining all subtrees
pub open spec fn bagged(l: Seq<Node>) -> Node
    decreases l.len()
{ if l.len() <= 1 { l[0] } else { bagged(bag1(l)) } }
/// the nodes made in joining all subtrees
pub open spec fn bag_nodes(l: Seq<Node>) -> Seq<Node>
    decreases l.len()
{ if l.len() <= 1 { Seq::empty() } else { seq![joined(l[1], l[0])] + bag_nodes(bag1(l)) } }
/// every key that differs now holds one of the nodes ns under its digest
pub open spec fn wrote(a: SMap, b: SMap, ns: Seq<Node>) -> bool {
    forall|x: H32| #![trigger b.contains_key(x)] #![trigger b[x]]
        (a.contains_key(x) == b.contains_key(x) && a[x] == b[x])
        || (exists|i: int| #![trigger ns[i]] 0 <= i < ns.len() && ns[i].hash == x && b.contains_key(x) && b[x] == ns[i])
}
pub proof fn wrote_step(a: SMap, b: SMap, c: Node, ns: Seq<Node>)
    requires wrote(a.insert(c.hash, c), b, ns)
    ensures wrote(a, b, seq![c] + ns)
{
    let t = seq![c] + ns;
    assert forall|x: H32| #![trigger b.contains_key(x)] #![trigger b[x]]
        (a.contains_key(x) == b.contains_key(x) && a[x] == b[x])
        || (exists|i: int| #![trigger t[i]] 0 <= i < t.len() && t[i].hash == x && b.contains_key(x) && b[x] == t[i]) by {
        let a2 = a.insert(c.hash, c);
        if a2.contains_key(x) == b.contains_key(x) && a2[x] == b[x] {
            if x == c.hash { assert(t[0] == c); }
        } else {
            let i = choose|i: int| #![trigger ns[i]] 0 <= i < ns.len() && ns[i].hash == x && b.contains_key(x) && b[x] == ns[i];
            assert(t[i + 1] == ns[i]);
        }
    }
}
@fn MerkleTree::new
@ret r
@spec
    ensures r.storage == storage, lst(r.head) == Seq::<Node>::empty(),
@fn MerkleTree::root
@ret r
@spec
    requires StorageType::s_lawful(), bag_ok(lst(old(self).head)),
    ensures
        lst(final(self).head) == lst(old(self).head),
        r matches Ok(p) ==> {
            &&& p == root_of(lst(old(self).head))
            &&& wrote(old(self).storage.smap(), final(self).storage.smap(), bag_nodes(lst(old(self).head)))
            &&& final(self).storage.sfail() == old(self).storage.sfail()
        },
        r matches Err(e) ==> StorageType::serr(e) && final(self).storage.sfail() == old(self).storage.sfail() + 1,
@items
pub open spec fn root_of(l: Seq<Node>) -> (u64, H32) {
    if l.len() == 0 { (0, hempty()) } else { (bagged(l).fee, bagged(l).hash) }
}
@fn MerkleTree::push
@ret r
@spec
    requires StorageType::s_lawful(), carry_ok(seq![leaf_node(fee, data@)] + lst(old(self).head)),
    ensures
        r is Ok ==> ({
            let x = leaf_node(fee, data@);
            let l = seq![x] + lst(old(self).head);
            &&& lst(final(self).head) == carried(l)
            &&& final(self).storage.smap() == carry_map(l, old(self).storage.smap().insert(x.hash, x))
            &&& final(self).storage.sfail() == old(self).storage.sfail()
        }),
        r matches Err(e) ==> StorageType::serr(e) && final(self).storage.sfail() == old(self).storage.sfail() + 1,
@fn MerkleTree::root_node
@ret r
@spec
    requires StorageType::s_lawful(), bag_ok(lst(old(self).head)),
    ensures
        final(self).head == old(self).head,
        r matches Ok(p) ==> {
            &&& p is None <==> old(self).head is None
            &&& p matches Some(x) ==> x == bagged(lst(old(self).head))
            &&& wrote(old(self).storage.smap(), final(self).storage.smap(), bag_nodes(lst(old(self).head)))
            &&& final(self).storage.sfail() == old(self).storage.sfail()
        },
        r matches Err(e) ==> StorageType::serr(e) && final(self).storage.sfail() == old(self).storage.sfail() + 1,
@at start
    let ghost l0 = lst(self.head);
    let ghost m0 = self.storage.smap();
@loop 1
    invariant
        StorageType::s_lawful(),
        self.head == old(self).head,
        self.storage.sfail() == old(self).storage.sfail(),
        bag_ok(sub(*current)),
        bagged(sub(*current)) == bagged(l0),
        forall|b: SMap| #![trigger wrote(self.storage.smap(), b, bag_nodes(sub(*current)))]
            wrote(self.storage.smap(), b, bag_nodes(sub(*current))) ==> wrote(m0, b, bag_nodes(l0)),
    decreases sub(*current).len(),
@at loop 1 start
    let ghost l = sub(*current);
    let ghost mp = self.storage.smap();
    proof {
        let b = current.next->0;
        assert(lst(current.next) == seq![b.node] + lst(b.next));
        assert(l.skip(2) =~= lst(b.next));
    }
@at loop 1 end
    proof {
        let c = joined(l[1], l[0]);
        assert(sub(*current) =~= bag1(l));
        assert forall|b: SMap| #![trigger wrote(self.storage.smap(), b, bag_nodes(sub(*current)))]
            wrote(self.storage.smap(), b, bag_nodes(sub(*current))) implies wrote(m0, b, bag_nodes(l0)) by {
            wrote_step(mp, b, c, bag_nodes(bag1(l)));
            assert(wrote(mp, b, bag_nodes(l)));
        }
    }
@at loop 1 after
    proof {
        let l = sub(*current);
        assert(wrote(self.storage.smap(), self.storage.smap(), bag_nodes(l)));
    }
@fn MerkleTree::join_all_subtrees
@ret r
@spec
    requires StorageType::s_lawful(), old(self).head is Some, carry_ok(lst(old(self).head)),
    ensures
        r is Ok ==> {
            &&& lst(final(self).head) == carried(lst(old(self).head))
            &&& final(self).storage.smap() == carry_map(lst(old(self).head), old(self).storage.smap())
            &&& final(self).storage.sfail() == old(self).storage.sfail()
        },
        r matches Err(e) ==> StorageType::serr(e) && final(self).storage.sfail() == old(self).storage.sfail() + 1,
@loop 1
    invariant
        StorageType::s_lawful(), self.head is Some,
        carry_ok(lst(self.head)),
        carried(lst(self.head)) == carried(lst(old(self).head)),
        carry_map(lst(self.head), self.storage.smap()) == carry_map(lst(old(self).head), old(self).storage.smap()),
        self.storage.sfail() == old(self).storage.sfail(),
    ensures !carries(lst(self.head)),
    decreases lst(self.head).len(),
@at loop 1 start
    let ghost l = lst(self.head);
    proof {
        let b = self.head->0;
        assert(l == seq![b.node] + lst(b.next));
        if b.next is Some {
            assert(lst(b.next) == seq![b.next->0.node] + lst(b.next->0.next));
            assert(l.skip(2) =~= lst(b.next->0.next));
        }
    }
@at loop 1 end
    proof {
        assert(lst(self.head) =~= bag1(l));
    }
@fn MerkleTree::join_subtrees
@ret r
@spec
    requires StorageType::s_lawful(), join_ok(old(lhs).node, old(rhs).node),
    ensures
        final(self).head == old(self).head,
        r matches Ok(b) ==> {
            let c = joined(old(lhs).node, old(rhs).node);
            &&& b.node == c
            &&& b.next == old(lhs).next
            &&& final(self).storage.smap() == old(self).storage.smap().insert(c.hash, c)
            &&& final(self).storage.sfail() == old(self).storage.sfail()
        },
        r matches Err(e) ==> StorageType::serr(e) && final(self).storage.sfail() == old(self).storage.sfail() + 1,
@items
// ---- leaf sequences ---------------------------------------------------------

pub open spec fn lv(x: Leaf) -> SV { (x.0 as nat, sha256(sleaf_pre(x.0, x.1))) }
/// the leaves' fees and hashes
pub open spec fn vals(s: Seq<Leaf>) -> Seq<SV> { Seq::new(s.len(), |i: int| lv(s[i])) }
/// the sum of all fees
pub open spec fn total(s: Seq<Leaf>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { s[0].0 as nat + total(s.skip(1)) } }
/// the sequence fits in a tree
pub open spec fn fits(s: Seq<Leaf>) -> bool { total(s) <= u64::MAX && s.len() <= max_leaves() }
/// the root that the specification gives
pub open spec fn spec_root(s: Seq<Leaf>) -> (u64, H32) {
    if s.len() == 0 { (0, hempty()) } else { (total(s) as u64, mth(vals(s), sop()).1) }
}
/// the value of the subtree at (h, k)
pub open spec fn sv(h: nat, k: nat, s: Seq<Leaf>) -> SV { nh(h, k, vals(s), sop()) }
/// the entry of the subtree at (h, k)
pub open spec fn sn(h: nat, k: nat, s: Seq<Leaf>) -> Node {
    Node {
        height: h as u32,
        hash: sv(h, k, s).1,
        fee: sv(h, k, s).0 as u64,
        left_child_key: if h == 0 { None } else { Some(sv((h - 1) as nat, 2 * k, s).1) },
        right_child_key: if h == 0 { None } else { Some(sv((h - 1) as nat, 2 * k + 1, s).1) },
    }
}
pub open spec fn sns(l: Seq<HK>, s: Seq<Leaf>) -> Seq<Node> { Seq::new(l.len(), |i: int| sn(l[i].0, l[i].1, s)) }
/// every complete subtree of the leaves is stored under its digest
pub open spec fn stored(m: SMap, s: Seq<Leaf>) -> bool {
    forall|h: nat, k: nat| #![trigger complete(h, k, s.len())] complete(h, k, s.len()) ==> m.contains_key(sn(h, k, s).hash) && m[sn(h, k, s).hash] == sn(h, k, s)
}

pub proof fn total_cat(a: Seq<Leaf>, b: Seq<Leaf>)
    ensures total(a + b) == total(a) + total(b)
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
    } else {
        total_cat(a.skip(1), b);
        assert((a + b).skip(1) =~= a.skip(1) + b);
    }
}
pub proof fn total_sub(s: Seq<Leaf>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures total(s.subrange(a, b)) <= total(s)
{
    total_cat(s.take(a), s.subrange(a, b));
    total_cat(s.take(a) + s.subrange(a, b), s.skip(b));
    assert(s =~= (s.take(a) + s.subrange(a, b)) + s.skip(b));
}
/// the first component of the tree's value is the sum of the fees
pub proof fn mth_total(s: Seq<Leaf>)
    requires s.len() > 0
    ensures mth(vals(s), sop()).0 == total(s)
    decreases s.len()
{
    if s.len() == 1 {
        assert(s.skip(1) =~= Seq::<Leaf>::empty());
        assert(total(s.skip(1)) == 0);
        assert(vals(s)[0] == lv(s[0]));
    } else {
        lp2_range(s.len(), 1);
        let k = lp2(s.len(), 1) as int;
        assert(vals(s).take(k) =~= vals(s.take(k)));
        assert(vals(s).skip(k) =~= vals(s.skip(k)));
        mth_total(s.take(k));
        mth_total(s.skip(k));
        total_cat(s.take(k), s.skip(k));
        assert(s =~= s.take(k) + s.skip(k));
    }
}
pub proof fn sv_total(h: nat, k: nat, s: Seq<Leaf>)
    requires first_leaf(h, k) < s.len()
    ensures sv(h, k, s).0 <= total(s)
{
    nh_mth(h, k, vals(s), sop());
    let a = first_leaf(h, k) as int;
    let b = last_leaf(h, k, s.len()) as int;
    pow2_pos(h);
    let t = s.subrange(a, b);
    assert(leaves_of(h, k, vals(s)) =~= vals(t));
    mth_total(t);
    total_sub(s, a, b);
}
/// the parent of two sibling subtrees
pub proof fn sn_join(h: nat, k: nat, s: Seq<Leaf>)
    requires fits(s), h > 0, h <= 63, pvalid(h, k, s.len())
    ensures
        sv(h, k, s) == sop()(sv((h - 1) as nat, 2 * k, s), sv((h - 1) as nat, 2 * k + 1, s)),
        sv((h - 1) as nat, 2 * k, s).0 + sv((h - 1) as nat, 2 * k + 1, s).0 <= u64::MAX,
        ({
            let a = sv((h - 1) as nat, 2 * k, s);
            let b = sv((h - 1) as nat, 2 * k + 1, s);
            sn(h, k, s).hash == sha256(snode_pre(a.0 as u64, a.1@, b.0 as u64, b.1@))
        }),
{
    first_leaf_left(h, k);
    let g = (h - 1) as nat;
    pow2_pos(g);
    not_complete_is_part(h, k, s.len());
    sv_total(h, k, s);
    sv_total(g, 2 * k, s);
    sv_total(g, 2 * k + 1, s);
}
pub proof fn valid_small(h: nat, k: nat, n: nat)
    requires pvalid(h, k, n), n <= max_leaves()
    ensures h <= 62
{ pvalid_idx(h, k, n); pidx_nonneg(h, k); not_complete_is_part(h, k, n); assert(pidx(h, k) <= 0x7fff_ffff_ffff_fffe); hof_pidx(pidx(h, k) as u64, h, k); pow2_63(); if h >= 63 { pow2_mono(63, h); let p = pow2(h); assert((2 * k + 1) * p >= p) by (nonlinear_arith) requires k >= 0, p >= 0; } }

/// the list of subtrees while the last leaf is being joined: it has been joined up to (j, m)
pub open spec fn joining(l: Seq<Node>, j: nat, m: nat, s: Seq<Leaf>) -> bool {
    &&& (m + 1) * pow2(j) == s.len()
    &&& l == seq![sn(j, m, s)] + sns(pkl(j, m), s)
}
/// every key that differs holds one of the nodes completed by the last leaf, higher than j
pub open spec fn news(b: SMap, s: Seq<Leaf>, j: nat, a: SMap) -> bool {
    forall|x: H32| #![trigger b.contains_key(x)] #![trigger b[x]]
        (a.contains_key(x) == b.contains_key(x) && a[x] == b[x])
        || (exists|h: nat, k: nat| #![trigger complete(h, k, s.len())] h > j && complete(h, k, s.len()) && sn(h, k, s).hash == x && b.contains_key(x) && b[x] == sn(h, k, s))
}
/// all nodes completed by the last leaf, higher than j, have been stored
pub open spec fn have(b: SMap, s: Seq<Leaf>, j: nat) -> bool {
    forall|h: nat, k: nat| #![trigger complete(h, k, s.len())] h > j && complete(h, k, s.len()) && !complete(h, k, (s.len() - 1) as nat) ==>
        b.contains_key(sn(h, k, s).hash) && (exists|h2: nat, k2: nat| #![trigger complete(h2, k2, s.len())] complete(h2, k2, s.len()) && sn(h, k, s).hash == sn(h2, k2, s).hash && b[sn(h, k, s).hash] == sn(h2, k2, s))
}

pub proof fn new_node(j: nat, m: nat, n: nat)
    requires (m + 1) * pow2(j) == n + 1
    ensures complete(j, m, n + 1), !complete(j, m, n)
{
    let p = pow2(j);
    assert((m + 1) * p == m * p + p) by (nonlinear_arith);
}
/// subtrees completed by the same leaf: at most one per height, and none above one with an even offset
pub proof fn new_only(h: nat, k: nat, j: nat, m: nat, n: nat)
    requires complete(h, k, n + 1), !complete(h, k, n), (m + 1) * pow2(j) == n + 1
    ensures h == j ==> k == m, m % 2 == 0 ==> h <= j
{
    pow2_pos(h);
    pow2_pos(j);
    let z = pow2(h);
    assert((k + 1) * z == k * z + z) by (nonlinear_arith);
    if h == j {
        assert(k == m) by (nonlinear_arith) requires (k + 1) * z == (m + 1) * z, z > 0;
    }
    if h > j && m % 2 == 0 {
        let d = (h - j - 1) as nat;
        pow2_add(j + 1, d);
        pow2_step(j);
        let p = pow2(j);
        let q = pow2(d);
        let a = (k + 1) * q;
        assert(z == (2 * p) * q);
        assert((k + 1) * ((2 * p) * q) == (2 * a) * p) by (nonlinear_arith) requires a == (k + 1) * q;
        assert(2 * a == m + 1) by (nonlinear_arith) requires (2 * a) * p == (m + 1) * p, p > 0;
    }
}

/// joining gives the list of peaks, and stores the completed subtrees
pub proof fn carry_all(l: Seq<Node>, j: nat, m: nat, s: Seq<Leaf>, a: SMap)
    requires joining(l, j, m, s), fits(s), s.len() > 0
    ensures
        carry_ok(l), carried(l) == sns(pkl(0, s.len()), s),
        news(carry_map(l, a), s, j, a),
        have(carry_map(l, a), s, j),
    decreases m
{
    let n = (s.len() - 1) as nat;
    let p = pkl(j, m);
    new_node(j, m, n);
    complete_valid(j, m, s.len());
    valid_small(j, m, s.len());
    assert(l[0] == sn(j, m, s));
    if p.len() > 0 {
        pkl_elems(j, m, 0);
        let q = p[0];
        assert(l[1] == sn(q.0, q.1, s));
        pow2_pos(j);
        let w = pow2(j);
        assert(m * w + w == (m + 1) * w) by (nonlinear_arith);
        assert(complete(q.0, q.1, s.len()));
        complete_valid(q.0, q.1, s.len());
        valid_small(q.0, q.1, s.len());
    }
    if m % 2 == 1 {
        let q = m / 2;
        let w = pow2(j);
        pow2_step(j);
        assert((q + 1) * (2 * w) == (m + 1) * w) by (nonlinear_arith) requires m == 2 * q + 1;
        new_node(j + 1, q, n);
        complete_valid(j + 1, q, s.len());
        valid_small(j + 1, q, s.len());
        sn_join(j + 1, q, s);
        assert(pkl(j, m) == seq![(j, (m - 1) as nat)] + pkl(j + 1, q));
        assert(carries(l));
        let c = joined(l[1], l[0]);
        assert(c == sn(j + 1, q, s));
        assert(l.skip(2) =~= sns(pkl(j + 1, q), s));
        let a2 = a.insert(c.hash, c);
        carry_all(bag1(l), j + 1, q, s, a2);
        let b = carry_map(l, a);
        assert forall|x: H32| #![trigger b.contains_key(x)] #![trigger b[x]]
            (a.contains_key(x) == b.contains_key(x) && a[x] == b[x])
            || (exists|h: nat, k: nat| #![trigger complete(h, k, s.len())] h > j && complete(h, k, s.len()) && sn(h, k, s).hash == x && b.contains_key(x) && b[x] == sn(h, k, s)) by {
            if a2.contains_key(x) == b.contains_key(x) && a2[x] == b[x] {
                if x == c.hash { assert(complete(j + 1, q, s.len())); }
            } else {
                let (h, k) = choose|h: nat, k: nat| #![trigger complete(h, k, s.len())] h > j + 1 && complete(h, k, s.len()) && sn(h, k, s).hash == x && b.contains_key(x) && b[x] == sn(h, k, s);
                assert(h > j && complete(h, k, s.len()));
            }
        }
        assert forall|h: nat, k: nat| #![trigger complete(h, k, s.len())] h > j && complete(h, k, s.len()) && !complete(h, k, n) implies
            b.contains_key(sn(h, k, s).hash) && (exists|h2: nat, k2: nat| #![trigger complete(h2, k2, s.len())] complete(h2, k2, s.len()) && sn(h, k, s).hash == sn(h2, k2, s).hash && b[sn(h, k, s).hash] == sn(h2, k2, s)) by {
            if h == j + 1 {
                new_only(h, k, j + 1, q, n);
                let x = c.hash;
                assert(a2.contains_key(x) && a2[x] == c);
                assert(news(b, s, j + 1, a2));
                if a2.contains_key(x) == b.contains_key(x) && a2[x] == b[x] {
                    assert(complete(h, k, s.len()));
                } else {
                    let (h2, k2) = choose|h2: nat, k2: nat| #![trigger complete(h2, k2, s.len())] h2 > j + 1 && complete(h2, k2, s.len()) && sn(h2, k2, s).hash == x && b.contains_key(x) && b[x] == sn(h2, k2, s);
                    assert(complete(h2, k2, s.len()));
                }
            }
        }
    } else {
        assert(!carries(l));
        pkl_scale(0, m + 1, j);
        assert((m + 1) % 2 == 1 && (m + 1) / 2 == m / 2);
        assert(pkl(j, m + 1) == seq![(j, m)] + pkl(j + 1, m / 2));
        if m == 0 { assert(pkl(j + 1, 0) =~= pkl(j, 0)); }
        assert(l =~= sns(seq![(j, m)] + pkl(j, m), s));
        assert forall|h: nat, k: nat| #![trigger complete(h, k, s.len())] h > j && complete(h, k, s.len()) && !complete(h, k, n) implies false by {
            new_only(h, k, j, m, n);
        }
    }
}

/// the parts of the tree of the first x.2 leaves
pub type Part = (nat, nat, nat);
pub open spec fn is_part(x: Part, s: Seq<Leaf>) -> bool { x.2 <= s.len() && pvalid(x.0, x.1, x.2) && first_leaf(x.0, x.1) < x.2 }
/// the bytes hashed for it
pub open spec fn pre(x: Part, s: Seq<Leaf>) -> Seq<u8> {
    let t = s.take(x.2 as int);
    if x.0 == 0 { sleaf_pre(t[x.1 as int].0, t[x.1 as int].1) } else {
        let a = sv((x.0 - 1) as nat, 2 * x.1, t);
        let b = sv((x.0 - 1) as nat, 2 * x.1 + 1, t);
        snode_pre(a.0 as u64, a.1@, b.0 as u64, b.1@)
    }
}
/// SHA-256 has no collision among the byte strings hashed for the nodes of the trees of these leaves
pub open spec fn no_collision(s: Seq<Leaf>) -> bool {
    forall|x: Part, y: Part| #![trigger pre(x, s), pre(y, s)] is_part(x, s) && is_part(y, s) && sha256(pre(x, s)) == sha256(pre(y, s)) ==> pre(x, s) == pre(y, s)
}
pub open spec fn psn(x: Part, s: Seq<Leaf>) -> Node { sn(x.0, x.1, s.take(x.2 as int)) }

pub proof fn be64_inj(a: u64, b: u64)
    requires be64(a) == be64(b)
    ensures a == b
{
    assert(be64(a)[0] == ((a >> 56u64) & 0xffu64) as u8 && be64(b)[0] == ((b >> 56u64) & 0xffu64) as u8);
    assert(be64(a)[1] == ((a >> 48u64) & 0xffu64) as u8 && be64(b)[1] == ((b >> 48u64) & 0xffu64) as u8);
    assert(be64(a)[2] == ((a >> 40u64) & 0xffu64) as u8 && be64(b)[2] == ((b >> 40u64) & 0xffu64) as u8);
    assert(be64(a)[3] == ((a >> 32u64) & 0xffu64) as u8 && be64(b)[3] == ((b >> 32u64) & 0xffu64) as u8);
    assert(be64(a)[4] == ((a >> 24u64) & 0xffu64) as u8 && be64(b)[4] == ((b >> 24u64) & 0xffu64) as u8);
    assert(be64(a)[5] == ((a >> 16u64) & 0xffu64) as u8 && be64(b)[5] == ((b >> 16u64) & 0xffu64) as u8);
    assert(be64(a)[6] == ((a >> 8u64) & 0xffu64) as u8 && be64(b)[6] == ((b >> 8u64) & 0xffu64) as u8);
    assert(be64(a)[7] == ((a >> 0u64) & 0xffu64) as u8 && be64(b)[7] == ((b >> 0u64) & 0xffu64) as u8);
    assert(a == b) by (bit_vector) requires
        ((a >> 56u64) & 0xffu64) as u8 == ((b >> 56u64) & 0xffu64) as u8,
        ((a >> 48u64) & 0xffu64) as u8 == ((b >> 48u64) & 0xffu64) as u8,
        ((a >> 40u64) & 0xffu64) as u8 == ((b >> 40u64) & 0xffu64) as u8,
        ((a >> 32u64) & 0xffu64) as u8 == ((b >> 32u64) & 0xffu64) as u8,
        ((a >> 24u64) & 0xffu64) as u8 == ((b >> 24u64) & 0xffu64) as u8,
        ((a >> 16u64) & 0xffu64) as u8 == ((b >> 16u64) & 0xffu64) as u8,
        ((a >> 8u64) & 0xffu64) as u8 == ((b >> 8u64) & 0xffu64) as u8,
        ((a >> 0u64) & 0xffu64) as u8 == ((b >> 0u64) & 0xffu64) as u8;
}
pub proof fn snode_pre_inj(a: u64, l: H32, b: u64, r: H32, a2: u64, l2: H32, b2: u64, r2: H32)
    requires snode_pre(a, l@, b, r@) == snode_pre(a2, l2@, b2, r2@)
    ensures a == a2, l == l2, b == b2, r == r2
{
    let x = snode_pre(a, l@, b, r@);
    let y = snode_pre(a2, l2@, b2, r2@);
    assert(x.subrange(1, 9) =~= be64(a));
    assert(y.subrange(1, 9) =~= be64(a2));
    assert(x.subrange(9, 41) =~= l@);
    assert(y.subrange(9, 41) =~= l2@);
    assert(x.subrange(41, 49) =~= be64(b));
    assert(y.subrange(41, 49) =~= be64(b2));
    assert(x.subrange(49, 81) =~= r@);
    assert(y.subrange(49, 81) =~= r2@);
    be64_inj(a, a2);
    be64_inj(b, b2);
    assert(l =~= l2);
    assert(r =~= r2);
}

pub proof fn fits_take(s: Seq<Leaf>, n: nat)
    requires fits(s), n <= s.len()
    ensures fits(s.take(n as int))
{ total_sub(s, 0, n as int); }

pub proof fn psn_hash(x: Part, s: Seq<Leaf>)
    requires fits(s), is_part(x, s)
    ensures psn(x, s).hash == sha256(pre(x, s)), x.0 <= 62,
        x.0 == 0 ==> sv(x.0, x.1, s.take(x.2 as int)).0 == s[x.1 as int].0 && x.1 < x.2,
        x.0 > 0 ==> is_part(((x.0 - 1) as nat, 2 * x.1, x.2), s),
{
    let t = s.take(x.2 as int);
    fits_take(s, x.2);
    valid_small(x.0, x.1, x.2);
    if x.0 > 0 {
        sn_join(x.0, x.1, t);
        first_leaf_left(x.0, x.1);
        pow2_pos((x.0 - 1) as nat);
        let g = (x.0 - 1) as nat;
        assert(complete(g, 2 * x.1, x.2));
        complete_valid(g, 2 * x.1, x.2);
    } else {
        pow2_63();
        assert(x.1 * 1 == x.1);
    }
}

/// nodes with the same digest are the same
pub proof fn same_digest(x: Part, y: Part, s: Seq<Leaf>)
    requires no_collision(s), fits(s), is_part(x, s), is_part(y, s), psn(x, s).hash == psn(y, s).hash
    ensures psn(x, s) == psn(y, s)
    decreases x.0
{
    psn_hash(x, s);
    psn_hash(y, s);
    let p = pre(x, s);
    let q = pre(y, s);
    assert(p == q);
    let tx = s.take(x.2 as int);
    let ty = s.take(y.2 as int);
    if x.0 == 0 && y.0 == 0 {
        assert(p.subrange(1, 9) =~= be64(tx[x.1 as int].0));
        assert(q.subrange(1, 9) =~= be64(ty[y.1 as int].0));
        be64_inj(tx[x.1 as int].0, ty[y.1 as int].0);
    } else if x.0 > 0 && y.0 > 0 {
        let a = sv((x.0 - 1) as nat, 2 * x.1, tx);
        let b = sv((x.0 - 1) as nat, 2 * x.1 + 1, tx);
        let c = sv((y.0 - 1) as nat, 2 * y.1, ty);
        let d = sv((y.0 - 1) as nat, 2 * y.1 + 1, ty);
        snode_pre_inj(a.0 as u64, a.1, b.0 as u64, b.1, c.0 as u64, c.1, d.0 as u64, d.1);
        fits_take(s, x.2);
        fits_take(s, y.2);
        sn_join(x.0, x.1, tx);
        sn_join(y.0, y.1, ty);
        same_digest(((x.0 - 1) as nat, 2 * x.1, x.2), ((y.0 - 1) as nat, 2 * y.1, y.2), s);
        psn_hash(((x.0 - 1) as nat, 2 * x.1, x.2), s);
        psn_hash(((y.0 - 1) as nat, 2 * y.1, y.2), s);
    } else {
        assert(p[0] == 0u8 || p[0] == 1u8);
        assert(p[0] != q[0]);
    }
}

pub proof fn no_collision_prefix(s: Seq<Leaf>, n: nat)
    requires no_collision(s), n <= s.len()
    ensures no_collision(s.take(n as int))
{
    let t = s.take(n as int);
    assert forall|x: Part, y: Part| #![trigger pre(x, t), pre(y, t)] is_part(x, t) && is_part(y, t) && sha256(pre(x, t)) == sha256(pre(y, t)) implies pre(x, t) == pre(y, t) by {
        assert(t.take(x.2 as int) =~= s.take(x.2 as int));
        assert(t.take(y.2 as int) =~= s.take(y.2 as int));
        assert(pre(x, t) == pre(x, s) && pre(y, t) == pre(y, s));
    }
}

/// the tree of the leaves s: its list of subtrees and its storage
pub open spec fn tree_of(l: Seq<Node>, m: SMap, s: Seq<Leaf>) -> bool {
    &&& l == sns(pkl(0, s.len()), s)
    &&& no_collision(s) ==> stored(m, s)
}

pub proof fn sn_prefix(h: nat, k: nat, s: Seq<Leaf>, t: Seq<Leaf>)
    requires complete(h, k, s.len()), s.len() <= t.len(), forall|i: int| 0 <= i < s.len() ==> s[i] == t[i]
    ensures sn(h, k, s) == sn(h, k, t)
{
    nh_prefix(h, k, vals(s), vals(t), sop());
    if h > 0 {
        complete_child(h, k, s.len());
        nh_prefix((h - 1) as nat, 2 * k, vals(s), vals(t), sop());
        nh_prefix((h - 1) as nat, 2 * k + 1, vals(s), vals(t), sop());
    }
}

/// pushing a leaf
pub proof fn push_step(l: Seq<Node>, m: SMap, s: Seq<Leaf>, fee: u64, d: Seq<u8>)
    requires tree_of(l, m, s), fits(s.push((fee, d)))
    ensures ({
        let x = leaf_node(fee, d);
        let l2 = seq![x] + l;
        &&& carry_ok(l2)
        &&& tree_of(carried(l2), carry_map(l2, m.insert(x.hash, x)), s.push((fee, d)))
    })
{
    let n = s.len();
    let t = s.push((fee, d));
    let x = leaf_node(fee, d);
    let l2 = seq![x] + l;
    let a = m.insert(x.hash, x);
    let b = carry_map(l2, a);
    pow2_63();
    assert((n + 1) * pow2(0) == n + 1) by (nonlinear_arith) requires pow2(0) == 1;
    assert(n * pow2(0) == n) by (nonlinear_arith) requires pow2(0) == 1;
    new_node(0, n, n);
    complete_valid(0, n, n + 1);
    assert(sv(0, n, t) == lv((fee, d)));
    assert(sn(0, n, t) == x);
    assert forall|i: int| 0 <= i < pkl(0, n).len() implies sn((#[trigger] pkl(0, n)[i]).0, pkl(0, n)[i].1, s) == sn(pkl(0, n)[i].0, pkl(0, n)[i].1, t) by {
        pkl_elems(0, n, i);
        sn_prefix(pkl(0, n)[i].0, pkl(0, n)[i].1, s, t);
    }
    assert(sns(pkl(0, n), s) =~= sns(pkl(0, n), t));
    carry_all(l2, 0, n, t, a);
    if no_collision(t) {
        assert(t.take(n as int) =~= s);
        no_collision_prefix(t, n);
        assert(t.take((n + 1) as int) =~= t);
        assert forall|h: nat, k: nat| #![trigger complete(h, k, t.len())] complete(h, k, t.len()) implies b.contains_key(sn(h, k, t).hash) && b[sn(h, k, t).hash] == sn(h, k, t) by {
            let y = sn(h, k, t).hash;
            complete_valid(h, k, n + 1);
            let px = (h, k, n + 1);
            if complete(h, k, n) {
                assert(complete(h, k, s.len()));
                sn_prefix(h, k, s, t);
                assert(m.contains_key(y) && m[y] == sn(h, k, t));
            } else {
                if h == 0 { new_only(h, k, 0, n, n); }
            }
            if complete(h, k, n) || h == 0 {
                if y == x.hash { same_digest(px, (0nat, n, n + 1), t); }
                assert(a.contains_key(y) && a[y] == sn(h, k, t));
                if !(a.contains_key(y) == b.contains_key(y) && a[y] == b[y]) {
                    let (h2, k2) = choose|h2: nat, k2: nat| #![trigger complete(h2, k2, t.len())] h2 > 0 && complete(h2, k2, t.len()) && sn(h2, k2, t).hash == y && b.contains_key(y) && b[y] == sn(h2, k2, t);
                    complete_valid(h2, k2, n + 1);
                    same_digest(px, (h2, k2, n + 1), t);
                }
            } else {
                let (h2, k2) = choose|h2: nat, k2: nat| #![trigger complete(h2, k2, t.len())] complete(h2, k2, t.len()) && sn(h, k, t).hash == sn(h2, k2, t).hash && b[sn(h, k, t).hash] == sn(h2, k2, t);
                complete_valid(h2, k2, n + 1);
                same_digest(px, (h2, k2, n + 1), t);
            }
        }
    }
}

pub open spec fn bag_list(j: nat, m: nat, s: Seq<Leaf>) -> Seq<Node> {
    let t = ptop(j, m, s.len());
    seq![sn(t.0, t.1, s)] + sns(pkl(j, m), s)
}
/// all nodes of the list are parts of the tree
pub open spec fn all_parts(l: Seq<Node>, s: Seq<Leaf>) -> bool {
    forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> exists|h: nat, k: nat| #![trigger pvalid(h, k, s.len())] pvalid(h, k, s.len()) && l[i] == sn(h, k, s)
}
/// joining the peaks from part (j, m) on gives the root
pub proof fn bag_part(j: nat, m: nat, s: Seq<Leaf>)
    requires part(j, m, s.len()), fits(s)
    ensures
        bag_ok(bag_list(j, m, s)),
        bagged(bag_list(j, m, s)).hash == mth(vals(s), sop()).1,
        bagged(bag_list(j, m, s)).fee == total(s),
        all_parts(bag_nodes(bag_list(j, m, s)), s),
    decreases pkl(j, m).len()
{
    let n = s.len();
    let v = vals(s);
    let l = bag_list(j, m, s);
    skip_even_part(j, m, v, sop());
    let q = skip_even(j, m);
    let (g, x) = q;
    assert(l == bag_list(g, x, s));
    nh_top(g, x, v, sop());
    if x == 0 {
        assert(pkl(g, x) =~= Seq::<HK>::empty());
        assert(l.len() == 1);
        assert(first_leaf(g, 0) == 0) by (nonlinear_arith) requires first_leaf(g, 0) == 0 * pow2(g);
        nh_root(g, v, sop());
        mth_total(s);
    } else {
        part_up(g, x, n);
        let c = (x - 1) as nat;
        let y = x / 2;
        complete_valid(g, c, n);
        valid_small(g, c, n);
        valid_small(g + 1, y, n);
        assert(pkl(g, x) == seq![(g, c)] + pkl(g + 1, y));
        assert(l[1] == sn(g, c, s));
        assert(c == 2 * y && x == 2 * y + 1);
        sn_join(g + 1, y, s);
        let e = joined(l[1], l[0]);
        assert(ptop(g + 1, y, n) == (g + 1, y));
        assert(e == sn(g + 1, y, s));
        assert(bag1(l) =~= bag_list(g + 1, y, s));
        bag_part(g + 1, y, s);
        let ns = bag_nodes(l);
        let n2 = bag_nodes(bag1(l));
        assert(ns == seq![e] + n2);
        assert forall|i: int| #![trigger ns[i]] 0 <= i < ns.len() implies exists|h: nat, k: nat| #![trigger pvalid(h, k, s.len())] pvalid(h, k, s.len()) && ns[i] == sn(h, k, s) by {
            if i == 0 { assert(pvalid(g + 1, y, s.len())); } else {
                assert(ns[i] == n2[i - 1]);
            }
        }
    }
}
/// asking for the root
pub proof fn root_step(l: Seq<Node>, m: SMap, m2: SMap, s: Seq<Leaf>)
    requires tree_of(l, m, s), fits(s)
    ensures
        bag_ok(l), root_of(l) == spec_root(s),
        wrote(m, m2, bag_nodes(l)) ==> tree_of(l, m2, s),
{
    let n = s.len();
    if n == 0 {
        assert(pkl(0, 0) =~= Seq::<HK>::empty());
        assert(l =~= Seq::<Node>::empty());
        assert forall|h: nat, k: nat| #![trigger complete(h, k, 0)] !complete(h, k, 0) by { pow2_pos(h); }
    } else {
        pow2_63();
        assert(n * pow2(0) == n) by (nonlinear_arith) requires pow2(0) == 1;
        start_part_ok(0, n, vals(s), sop());
        let q = start_part(0, n);
        assert(l =~= bag_list(q.0, q.1, s));
        bag_part(q.0, q.1, s);
        if wrote(m, m2, bag_nodes(l)) && no_collision(s) {
            let ns = bag_nodes(l);
            assert(s.take(n as int) =~= s);
            assert forall|h: nat, k: nat| #![trigger complete(h, k, s.len())] complete(h, k, s.len()) implies m2.contains_key(sn(h, k, s).hash) && m2[sn(h, k, s).hash] == sn(h, k, s) by {
                let y = sn(h, k, s).hash;
                assert(m.contains_key(y) && m[y] == sn(h, k, s));
                if !(m.contains_key(y) == m2.contains_key(y) && m[y] == m2[y]) {
                    let i = choose|i: int| #![trigger ns[i]] 0 <= i < ns.len() && ns[i].hash == y && m2.contains_key(y) && m2[y] == ns[i];
                    let (h2, k2) = choose|h2: nat, k2: nat| #![trigger pvalid(h2, k2, s.len())] pvalid(h2, k2, s.len()) && ns[i] == sn(h2, k2, s);
                    complete_valid(h, k, n);
                    not_complete_is_part(h2, k2, n);
                    same_digest((h, k, n), (h2, k2, n), s);
                }
            }
        }
    }
}

// ---- what the contracts give for whole histories ----------------------------

/// a leaf pushed (`Some`), or the root asked for (`None`)
pub type SOp = Option<(u64, Vec<u8>)>;
/// the leaves a history pushes
pub open spec fn pushed(ops: Seq<SOp>) -> Seq<Leaf>
    decreases ops.len()
{
    if ops.len() == 0 { Seq::empty() } else {
        let p = pushed(ops.drop_last());
        match ops.last() { Some(x) => p.push((x.0, x.1@)), None => p }
    }
}
pub proof fn pushed_prefix(ops: Seq<SOp>, i: int)
    requires 0 <= i <= ops.len()
    ensures pushed(ops.take(i)).len() <= pushed(ops).len(), pushed(ops.take(i)) == pushed(ops).take(pushed(ops.take(i)).len() as int)
    decreases ops.len()
{
    if i < ops.len() {
        pushed_prefix(ops.drop_last(), i);
        assert(ops.drop_last().take(i) =~= ops.take(i));
        assert(pushed(ops.take(i)) =~= pushed(ops).take(pushed(ops.take(i)).len() as int));
    } else {
        assert(ops.take(i) =~= ops);
        assert(pushed(ops).take(pushed(ops).len() as int) =~= pushed(ops));
    }
}
/// Any history of pushes and root queries on a new tree whose total fee fits: the root is the spec's, and
/// every complete subtree is stored under its digest.
pub fn theorem_history<T, S, E>(storage: S, ops: Vec<SOp>) -> (r: Result<(MerkleTree<T, S>, (u64, H32)), E>)
    where T: Mappable<Key = Bytes32, SetValue = Node, GetValue = Node>, S: StorageMutate<T, Error = E>, E: fmt::Debug + Clone + 'static
    requires S::s_lawful(), fits(pushed(ops@))
    ensures
        r matches Ok(x) ==> {
            &&& x.1 == spec_root(pushed(ops@))
            &&& tree_of(lst(x.0.head), x.0.storage.smap(), pushed(ops@))
            &&& x.0.storage.sfail() == storage.sfail()
        },
        r matches Err(e) ==> S::serr(e),
{
    let mut t = MerkleTree::<T, S>::new(storage);
    let mut i: usize = 0;
    proof {
        assert(ops@.take(0) =~= Seq::<SOp>::empty());
        assert(pkl(0, 0) =~= Seq::<HK>::empty());
        assert(lst(t.head) =~= sns(pkl(0, 0), pushed(ops@.take(0))));
        assert forall|h: nat, k: nat| #![trigger complete(h, k, 0)] !complete(h, k, 0) by { pow2_pos(h); }
    }
    while i < ops.len()
        invariant
            S::s_lawful(), fits(pushed(ops@)), 0 <= i <= ops@.len(),
            tree_of(lst(t.head), t.storage.smap(), pushed(ops@.take(i as int))),
            t.storage.sfail() == storage.sfail(),
        decreases ops.len() - i,
    {
        let ghost s = pushed(ops@.take(i as int));
        let ghost s2 = pushed(ops@.take(i + 1));
        let ghost l = lst(t.head);
        let ghost m = t.storage.smap();
        proof {
            assert(ops@.take(i + 1).drop_last() =~= ops@.take(i as int));
            pushed_prefix(ops@, i + 1);
            pushed_prefix(ops@, i as int);
            fits_take(pushed(ops@), s2.len());
            fits_take(pushed(ops@), s.len());
        }
        match &ops[i] {
            Some(x) => {
                proof { push_step(l, m, s, x.0, x.1@); }
                t.push(x.0, x.1.as_slice())?;
            }
            None => {
                proof { root_step(l, m, m, s); }
                let _ = t.root()?;
                proof { root_step(l, m, t.storage.smap(), s); }
            }
        }
        i += 1;
    }
    proof {
        assert(ops@.take(i as int) =~= ops@);
        root_step(lst(t.head), t.storage.smap(), t.storage.smap(), pushed(ops@));
    }
    let ghost m = t.storage.smap();
    let p = t.root()?;
    proof { root_step(lst(t.head), m, t.storage.smap(), pushed(ops@)); }
    Ok((t, p))
}

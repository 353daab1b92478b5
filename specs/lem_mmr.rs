// The append-only Merkle tree over any combining operation `f`: the RFC 6962
// shape, the list of peaks, and the correspondence between the two.
use vstd::arithmetic::power2::*;
use crate::lem_pos::*;

pub type Op<T> = spec_fn(T, T) -> T;
pub type HK = (nat, nat);

/// the largest `p * 2^e` strictly below n (p itself if none)
pub open spec fn lp2(n: nat, p: nat) -> nat
    decreases n - p
{
    if p > 0 && 2 * p < n { lp2(n, 2 * p) } else { p }
}

pub proof fn lp2_range(n: nat, p: nat)
    requires 0 < p < n
    ensures p <= lp2(n, p) < n, 2 * lp2(n, p) >= n
    decreases n - p
{ if 2 * p < n { lp2_range(n, 2 * p); } }

/// RFC 6962 Merkle tree hash of a non-empty list whose leaves are hashed already
pub open spec fn mth<T>(s: Seq<T>, f: Op<T>) -> T
    decreases s.len() via mth_dec::<T>
{
    if s.len() <= 1 { s[0] } else {
        let k = lp2(s.len(), 1) as int;
        f(mth(s.take(k), f), mth(s.skip(k), f))
    }
}
#[via_fn]
proof fn mth_dec<T>(s: Seq<T>, f: Op<T>) { if s.len() > 1 { lp2_range(s.len(), 1); } }

/// RFC 6962 audit path of leaf `i`, from leaf to root
pub open spec fn audit<T>(i: int, s: Seq<T>, f: Op<T>) -> Seq<T>
    decreases s.len() via audit_dec::<T>
{
    if s.len() <= 1 { Seq::empty() } else {
        let k = lp2(s.len(), 1) as int;
        if i < k { audit(i, s.take(k), f).push(mth(s.skip(k), f)) } else { audit(i - k, s.skip(k), f).push(mth(s.take(k), f)) }
    }
}
#[via_fn]
proof fn audit_dec<T>(i: int, s: Seq<T>, f: Op<T>) { if s.len() > 1 { lp2_range(s.len(), 1); } }

/// fold an audit path of leaf `i` of `n` upwards, starting from the leaf's hash
pub open spec fn fold_path<T>(i: int, n: nat, x: T, p: Seq<T>, f: Op<T>) -> T
    decreases n via fold_dec::<T>
{
    if n <= 1 { x } else {
        let k = lp2(n, 1);
        if i < k { f(fold_path(i, k, x, p.drop_last(), f), p.last()) } else { f(p.last(), fold_path(i - k, (n - k) as nat, x, p.drop_last(), f)) }
    }
}
#[via_fn]
proof fn fold_dec<T>(i: int, n: nat, x: T, p: Seq<T>, f: Op<T>) { if n > 1 { lp2_range(n, 1); } }

/// an audit path verifies: folding it gives the root
pub proof fn audit_verifies<T>(i: int, s: Seq<T>, f: Op<T>)
    requires 0 <= i < s.len()
    ensures fold_path(i, s.len(), s[i], audit(i, s, f), f) == mth(s, f)
    decreases s.len()
{
    if s.len() > 1 {
        lp2_range(s.len(), 1);
        let k = lp2(s.len(), 1) as int;
        if i < k {
            audit_verifies(i, s.take(k), f);
            assert(audit(i, s, f).drop_last() =~= audit(i, s.take(k), f));
        } else {
            audit_verifies(i - k, s.skip(k), f);
            assert(audit(i, s, f).drop_last() =~= audit(i - k, s.skip(k), f));
        }
    }
}

/// all 2^h leaves of node (h, k) are among the first n
pub open spec fn complete(h: nat, k: nat, n: nat) -> bool { first_leaf(h, k) + pow2(h) <= n }

/// the value of the subtree at (h, k) in the tree of the leaves s
pub open spec fn nh<T>(h: nat, k: nat, s: Seq<T>, f: Op<T>) -> T
    decreases h
{
    if h == 0 { s[k as int] }
    else if first_leaf((h - 1) as nat, 2 * k + 1) >= s.len() { nh((h - 1) as nat, 2 * k, s, f) }
    else { f(nh((h - 1) as nat, 2 * k, s, f), nh((h - 1) as nat, 2 * k + 1, s, f)) }
}

pub proof fn lp2_pow(n: nat, d: nat, e: nat)
    requires pow2(e) < n <= pow2(e + 1), d <= e
    ensures lp2(n, pow2(d)) == pow2(e)
    decreases e - d
{
    pow2_step(d); pow2_pos(d); pow2_step(e);
    if d < e {
        pow2_mono(d + 1, e);
        lp2_pow(n, d + 1, e);
    }
}

pub open spec fn last_leaf(h: nat, k: nat, n: nat) -> nat { if complete(h, k, n) { first_leaf(h, k) + pow2(h) } else { n } }
pub open spec fn leaves_of<T>(h: nat, k: nat, s: Seq<T>) -> Seq<T> { s.subrange(first_leaf(h, k) as int, last_leaf(h, k, s.len()) as int) }

/// the subtree's value is the RFC 6962 tree hash of its leaves
pub proof fn nh_mth<T>(h: nat, k: nat, s: Seq<T>, f: Op<T>)
    requires first_leaf(h, k) < s.len()
    ensures nh(h, k, s, f) == mth(leaves_of(h, k, s), f), leaves_of(h, k, s).len() <= pow2(h), leaves_of(h, k, s).len() >= 1,
    decreases h
{
    pow2_pos(h);
    let r = leaves_of(h, k, s);
    if h == 0 {
        pow2_63();
        assert(k * 1 == k);
        assert(r[0] == s[k as int]);
    } else {
        let g = (h - 1) as nat;
        pow2_pos(g);
        first_leaf_left(h, k);
        nh_mth(g, 2 * k, s, f);
        if first_leaf(g, 2 * k + 1) >= s.len() {
            assert(leaves_of(g, 2 * k, s) =~= r);
        } else {
            nh_mth(g, 2 * k + 1, s, f);
            pow2_63();
            pow2_mono(0, g);
            lp2_pow(r.len(), 0, g);
            let p = pow2(g) as int;
            assert(leaves_of(g, 2 * k, s) =~= r.take(p));
            assert(leaves_of(g, 2 * k + 1, s) =~= r.skip(p));
        }
    }
}

/// the root of the whole tree
pub proof fn nh_root<T>(h: nat, s: Seq<T>, f: Op<T>)
    requires 1 <= s.len() <= pow2(h)
    ensures nh(h, 0, s, f) == mth(s, f)
{
    assert(first_leaf(h, 0) == 0) by (nonlinear_arith);
    nh_mth(h, 0, s, f);
    assert(leaves_of(h, 0, s) =~= s);
}

/// a complete subtree does not change when leaves are appended
pub proof fn nh_prefix<T>(h: nat, k: nat, s: Seq<T>, t: Seq<T>, f: Op<T>)
    requires complete(h, k, s.len()), s.len() <= t.len(), forall|i: int| 0 <= i < s.len() ==> s[i] == t[i],
    ensures nh(h, k, s, f) == nh(h, k, t, f)
    decreases h
{
    pow2_pos(h);
    if h == 0 {
        pow2_63();
        assert(k * 1 == k);
    } else {
        let g = (h - 1) as nat;
        first_leaf_left(h, k);
        pow2_pos(g);
        nh_prefix(g, 2 * k, s, t, f);
        nh_prefix(g, 2 * k + 1, s, t, f);
    }
}

/// the node standing for a subtree has the subtree's value
pub proof fn nh_top<T>(h: nat, k: nat, s: Seq<T>, f: Op<T>)
    requires first_leaf(h, k) < s.len()
    ensures nh(ptop(h, k, s.len()).0, ptop(h, k, s.len()).1, s, f) == nh(h, k, s, f)
    decreases h
{
    if h == 0 || pvalid(h, k, s.len()) {} else {
        first_leaf_left(h, k);
        nh_top((h - 1) as nat, 2 * k, s, f);
    }
}

pub proof fn complete_child(h: nat, k: nat, n: nat)
    requires h > 0, complete(h, k, n)
    ensures complete((h - 1) as nat, 2 * k, n), complete((h - 1) as nat, 2 * k + 1, n)
{ first_leaf_left(h, k); pow2_pos((h - 1) as nat); }

pub proof fn complete_valid(h: nat, k: nat, n: nat)
    requires complete(h, k, n)
    ensures pvalid(h, k, n), first_leaf(h, k) < n
{
    pow2_pos(h);
    if h > 0 { first_leaf_left(h, k); pow2_pos((h - 1) as nat); } else { pow2_63(); assert(k * 1 == k); }
}

// ---- peaks ------------------------------------------------------------------

/// the peaks of height >= j of a tree of m * 2^j leaves, smallest first
pub open spec fn pkl(j: nat, m: nat) -> Seq<HK>
    decreases m
{
    if m == 0 { Seq::empty() }
    else if m % 2 == 1 { seq![(j, (m - 1) as nat)] + pkl(j + 1, m / 2) }
    else { pkl(j + 1, m / 2) }
}

pub proof fn pkl_scale(j: nat, m: nat, d: nat)
    ensures pkl(j, m * pow2(d)) == pkl(j + d, m)
    decreases d
{
    pow2_63();
    if d == 0 {
        assert(m * 1 == m);
    } else {
        let c = (d - 1) as nat;
        let p = pow2(c);
        pow2_step(c);
        pow2_pos(c);
        let a = m * p;
        assert(m * (2 * p) == 2 * a) by (nonlinear_arith) requires a == m * p;
        pkl_scale(j + 1, m, c);
        assert(pkl(j, 2 * a) == pkl(j + 1, a)) by {
            assert((2 * a) / 2 == a && (2 * a) % 2 == 0);
            if a == 0 {
                assert(pkl(j + 1, 0) =~= Seq::<HK>::empty());
            }
        }
    }
}

/// every peak is a complete subtree with an even offset, of height at least j
pub proof fn pkl_elems(j: nat, m: nat, i: int)
    requires 0 <= i < pkl(j, m).len()
    ensures
        pkl(j, m)[i].0 >= j, pkl(j, m)[i].1 % 2 == 0,
        complete(pkl(j, m)[i].0, pkl(j, m)[i].1, m * pow2(j)),
        m % 2 == 0 ==> pkl(j, m)[i].0 > j,
    decreases m
{
    let q = m / 2;
    let p = pow2(j);
    pow2_pos(j);
    pow2_step(j);
    assert(q * (2 * p) <= m * p) by (nonlinear_arith) requires 2 * q <= m, p > 0;
    if m % 2 == 1 {
        if i == 0 {
            assert((m - 1) * p + p == m * p) by (nonlinear_arith);
        } else {
            pkl_elems(j + 1, q, i - 1);
        }
    } else {
        pkl_elems(j + 1, q, i);
    }
}

/// the node of the joined part and what follows it in the list of peaks: (j, m)
/// stands for the leaves from m * 2^j on; skip to the next height with a peak
pub open spec fn skip_even(j: nat, m: nat) -> HK
    decreases m
{ if m == 0 || m % 2 == 1 { (j, m) } else { skip_even(j + 1, m / 2) } }

/// (j, m) is the part of the n-leaf tree from leaf m * 2^j on, not filled up
pub open spec fn part(j: nat, m: nat, n: nat) -> bool { first_leaf(j, m) < n && n < first_leaf(j, m) + pow2(j) }

pub proof fn part_up(j: nat, m: nat, n: nat)
    requires part(j, m, n)
    ensures part(j + 1, m / 2, n),
        m % 2 == 1 ==> pvalid(j + 1, m / 2, n) && 2 * (m / 2) + 1 == m && complete(j, (m - 1) as nat, n),
        m % 2 == 0 ==> !pvalid(j + 1, m / 2, n) && 2 * (m / 2) == m,
        first_leaf(j, m) + pow2(j) == first_leaf(j, m + 1),
{
    first_leaf_left(j + 1, m / 2);
    pow2_step(j);
    pow2_pos(j);
    let p = pow2(j);
    assert((m + 1) * p == m * p + p) by (nonlinear_arith);
    if m % 2 == 1 {
        assert((m - 1) * p + p == m * p) by (nonlinear_arith);
    }
}

pub proof fn skip_even_part<T>(j: nat, m: nat, s: Seq<T>, f: Op<T>)
    requires part(j, m, s.len())
    ensures ({
        let q = skip_even(j, m);
        let n = s.len();
        &&& part(q.0, q.1, n)
        &&& q.0 >= j
        &&& pkl(q.0, q.1) == pkl(j, m)
        &&& ptop(q.0, q.1, n) == ptop(j, m, n)
        &&& nh(q.0, q.1, s, f) == nh(j, m, s, f)
        &&& (m > 0 <==> q.1 > 0)
        &&& (q.1 > 0 ==> q.1 % 2 == 1)
        &&& (forall|h: nat, k: nat| #![trigger pvalid(h, k, n)] j < h <= q.0 && pvalid(h, k, n) ==> complete(h, k, n))
    })
    decreases m
{
    let n = s.len();
    if m == 0 || m % 2 == 1 {
    } else {
        part_up(j, m, n);
        skip_even_part(j + 1, m / 2, s, f);
        assert forall|h: nat, k: nat| #![trigger pvalid(h, k, n)] h == j + 1 && pvalid(h, k, n) implies complete(h, k, n) by {
            not_complete_is_part(h, k, n);
            if !complete(h, k, n) {
                part_unique(h, k, m / 2, n);
            }
        }
    }
}

pub proof fn not_complete_is_part(h: nat, k: nat, n: nat)
    requires pvalid(h, k, n)
    ensures complete(h, k, n) || part(h, k, n), h == 0 ==> complete(h, k, n), first_leaf(h, k) < n
{
    pow2_pos(h);
    if h > 0 { first_leaf_left(h, k); } else { pow2_63(); assert(k * 1 == k); }
}

pub proof fn part_unique(h: nat, k: nat, k2: nat, n: nat)
    requires part(h, k, n), part(h, k2, n)
    ensures k == k2
{
    let p = pow2(h);
    pow2_pos(h);
    if k < k2 { assert(k * p + p <= k2 * p) by (nonlinear_arith) requires k + 1 <= k2, p > 0; }
    if k2 < k { assert(k2 * p + p <= k * p) by (nonlinear_arith) requires k2 + 1 <= k, p > 0; }
}

/// the first peak: where joining starts
pub open spec fn start_part(j: nat, m: nat) -> HK
    decreases m
{ if m == 0 { (j, m) } else if m % 2 == 1 { (j + 1, m / 2) } else { start_part(j + 1, m / 2) } }

pub proof fn start_part_ok<T>(j: nat, m: nat, s: Seq<T>, f: Op<T>)
    requires m > 0, s.len() == m * pow2(j)
    ensures ({
        let q = start_part(j, m);
        let n = s.len();
        &&& q.0 > j
        &&& part(q.0, q.1, n)
        &&& pkl(j, m).len() > 0
        &&& pkl(j, m)[0] == ptop(q.0, q.1, n)
        &&& pkl(j, m) == seq![ptop(q.0, q.1, n)] + pkl(q.0, q.1)
        &&& (forall|h: nat, k: nat| #![trigger pvalid(h, k, n)] j <= h <= q.0 && pvalid(h, k, n) ==> complete(h, k, n))
    })
    decreases m
{
    let n = s.len();
    let p = pow2(j);
    pow2_pos(j);
    pow2_step(j);
    let q = m / 2;
    assert forall|h: nat, k: nat| #![trigger pvalid(h, k, n)] h == j && pvalid(h, k, n) implies complete(h, k, n) by {
        not_complete_is_part(h, k, n);
        if part(h, k, n) {
            assert(k < m) by (nonlinear_arith) requires k * p < m * p, p > 0;
            assert(k * p + p <= m * p) by (nonlinear_arith) requires k + 1 <= m, p > 0;
        }
    }
    if m % 2 == 1 {
        first_leaf_left(j + 1, q);
        assert((2 * q + 1) * p == m * p) by (nonlinear_arith) requires 2 * q + 1 == m;
        assert((2 * q) * p + p == (2 * q + 1) * p) by (nonlinear_arith);
        assert(!pvalid(j + 1, q, n));
        assert(part(j + 1, q, n));
        complete_valid(j, 2 * q, n);
        assert(ptop(j + 1, q, n) == ptop(j, 2 * q, n));
        assert forall|h: nat, k: nat| #![trigger pvalid(h, k, n)] h == j + 1 && pvalid(h, k, n) implies complete(h, k, n) by {
            not_complete_is_part(h, k, n);
            if part(h, k, n) {
                part_unique(h, k, q, n);
            }
        }
    } else {
        assert(m == 2 * q);
        assert(q * (2 * p) == m * p) by (nonlinear_arith) requires m == 2 * q;
        start_part_ok(j + 1, q, s, f);
    }
}

// ---- peaks from the position path -----------------------------------------

/// the peaks of height below h of a tree of n leaves, largest first
pub open spec fn rpk(h: nat, n: nat) -> Seq<HK>
    decreases h
{
    if h == 0 { Seq::empty() } else {
        let g = (h - 1) as nat;
        let r = rpk(g, n);
        if ibit(n, g) == 1 { seq![(g, (n / pow2(g) - 1) as nat)] + r } else { r }
    }
}

pub open spec fn rev<A>(s: Seq<A>) -> Seq<A> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }

pub proof fn rev_cons<A>(a: A, s: Seq<A>)
    ensures rev(seq![a] + s) == rev(s) + seq![a]
{ assert(rev(seq![a] + s) =~= rev(s) + seq![a]); }

/// all peaks, smallest first, are those below height h reversed and those from h on
pub proof fn rpk_pkl(h: nat, n: nat)
    ensures pkl(0, n) == rev(rpk(h, n)) + pkl(h, n / pow2(h))
    decreases h
{
    pow2_63();
    if h == 0 {
        assert(rev(rpk(0, n)) =~= Seq::<HK>::empty());
        assert(Seq::<HK>::empty() + pkl(0, n) =~= pkl(0, n));
        assert(n / 1 == n);
    } else {
        let g = (h - 1) as nat;
        rpk_pkl(g, n);
        ibit_shift(n, g);
        let m = n / pow2(g);
        let r = rpk(g, n);
        let x = n / pow2(g + 1);
        assert(m == 2 * x + ibit(n, g));
        let b = ibit(n, g);
        assert(m / 2 == x) by (nonlinear_arith) requires m == 2 * x + b, 0 <= b < 2;
        assert(m % 2 == b) by (nonlinear_arith) requires m == 2 * x + b, 0 <= b < 2;
        assert(g + 1 == h);
        assert(n / pow2(h) == x);
        if ibit(n, g) == 1 {
            rev_cons((g, (m - 1) as nat), r);
            assert(rev(r) + (seq![(g, (m - 1) as nat)] + pkl(h, m / 2)) =~= (rev(r) + seq![(g, (m - 1) as nat)]) + pkl(h, m / 2));
        } else if m == 0 {
            assert(pkl(h, 0) =~= Seq::<HK>::empty());
            assert(pkl(g, 0) =~= Seq::<HK>::empty());
        }
    }
}

pub proof fn rpk_all(h: nat, n: nat)
    requires n < pow2(h)
    ensures rev(rpk(h, n)) == pkl(0, n)
{
    rpk_pkl(h, n);
    assert(n / pow2(h) == 0) by (nonlinear_arith) requires n < pow2(h);
    assert(rev(rpk(h, n)) + pkl(h, 0) =~= rev(rpk(h, n)));
}

pub open spec fn sides(s: Seq<(HK, HK)>) -> Seq<HK> { Seq::new(s.len(), |i: int| s[i].1) }

pub proof fn sides_cons(a: (HK, HK), s: Seq<(HK, HK)>)
    ensures sides(seq![a] + s) == seq![a.1] + sides(s)
{ assert(sides(seq![a] + s) =~= seq![a.1] + sides(s)); }

/// the side nodes on the path to leaf n in a tree of n + 1 leaves are the peaks of the tree of n leaves
pub proof fn pwalk_peaks(h: nat, k: nat, n: nat, eff: HK)
    requires under(h, k, n)
    ensures sides(pwalk(h, k, n, n + 1, eff)) == seq![ptop(eff.0, eff.1, n + 1)] + rpk(h, n)
    decreases h
{
    let v = pvalid(h, k, n + 1);
    under_range(h, k, n);
    pow2_63();
    let e = ptop(eff.0, eff.1, n + 1);
    if h == 0 {
        assert(k * 1 == k);
        assert(sides(pwalk(h, k, n, n + 1, eff)) =~= seq![e] + rpk(h, n));
    } else {
        let g = (h - 1) as nat;
        under_child(h, k, n);
        first_leaf_left(h, k);
        let b = ibit(n, g);
        let w = pwalk(g, 2 * k + b, n, n + 1, if v { (g, (2 * k + 1 - b) as nat) } else { eff });
        if v {
            assert(b == 1);
            pwalk_peaks(g, 2 * k + 1, n, (g, 2 * k));
            sides_cons(((h, k), e), w);
            under_range(g, 2 * k + 1, n);
            assert(complete(g, 2 * k, n + 1));
            complete_valid(g, 2 * k, n + 1);
            assert(n / pow2(g) == 2 * k + 1);
            assert(sides(w) == seq![(g, 2 * k)] + rpk(g, n));
        } else {
            assert(b == 0);
            pwalk_peaks(g, 2 * k, n, eff);
            assert(Seq::<(HK, HK)>::empty() + w =~= w);
        }
    }
}

// ---- audit paths from the position path ------------------------------------

/// the tree path's side nodes are those of the RFC 6962 audit path
pub proof fn tree_path_audit<T>(h: nat, k: nat, i: nat, side: HK, s: Seq<T>, f: Op<T>)
    requires pvalid(h, k, s.len()), under(h, k, i), i < s.len()
    ensures ({
        let n = s.len();
        let tp = tree_path(h, k, i, n, side);
        let a = audit(i - first_leaf(h, k), leaves_of(h, k, s), f);
        &&& tp.len() == a.len() + 1
        &&& tp[0].1 == side
        &&& forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j] == nh(tp[a.len() - j].1.0, tp[a.len() - j].1.1, s, f)
        &&& forall|j: int| 0 < j < tp.len() ==> pvalid((#[trigger] tp[j]).1.0, tp[j].1.1, n)
    })
    decreases h
{
    let n = s.len();
    let r = leaves_of(h, k, s);
    under_range(h, k, i);
    pow2_63();
    if h == 0 {
        assert(k * 1 == k);
    } else {
        let g = (h - 1) as nat;
        under_child(h, k, i);
        first_leaf_left(h, k);
        pow2_pos(g);
        let le = ptop(g, 2 * k, n);
        let ri = ptop(g, 2 * k + 1, n);
        ptop_le(g, 2 * k, n);
        ptop_le(g, 2 * k + 1, n);
        ptop_valid(g, 2 * k, n);
        ptop_valid(g, 2 * k + 1, n);
        nh_mth(g, 2 * k, s, f);
        nh_mth(g, 2 * k + 1, s, f);
        nh_top(g, 2 * k, s, f);
        nh_top(g, 2 * k + 1, s, f);
        pow2_mono(0, g);
        lp2_pow(r.len(), 0, g);
        let p = pow2(g) as int;
        assert(leaves_of(g, 2 * k, s) =~= r.take(p));
        assert(leaves_of(g, 2 * k + 1, s) =~= r.skip(p));
        let tp = tree_path(h, k, i, n, side);
        let a = audit(i - first_leaf(h, k), r, f);
        if i < first_leaf(g, 2 * k + 1) {
            top_leaves(g, 2 * k, i, s);
            tree_path_audit(le.0, le.1, i, ri, s, f);
            let t1 = tree_path(le.0, le.1, i, n, ri);
            let a1 = audit(i - first_leaf(g, 2 * k), r.take(p), f);
            assert(tp == seq![((h, k), side)] + t1);
            assert(a == a1.push(mth(r.skip(p), f)));
            assert forall|j: int| 0 <= j < a.len() implies #[trigger] a[j] == nh(tp[a.len() - j].1.0, tp[a.len() - j].1.1, s, f) by {
                assert(tp[a.len() - j] == t1[a1.len() - j]);
                if j < a1.len() { assert(a[j] == a1[j]); }
            }
            assert forall|j: int| 0 < j < tp.len() implies pvalid((#[trigger] tp[j]).1.0, tp[j].1.1, n) by {
                assert(tp[j] == t1[j - 1]);
            }
        } else {
            top_leaves(g, 2 * k + 1, i, s);
            tree_path_audit(ri.0, ri.1, i, le, s, f);
            let t1 = tree_path(ri.0, ri.1, i, n, le);
            let a1 = audit(i - first_leaf(g, 2 * k + 1), r.skip(p), f);
            assert(tp == seq![((h, k), side)] + t1);
            assert(a == a1.push(mth(r.take(p), f)));
            assert forall|j: int| 0 <= j < a.len() implies #[trigger] a[j] == nh(tp[a.len() - j].1.0, tp[a.len() - j].1.1, s, f) by {
                assert(tp[a.len() - j] == t1[a1.len() - j]);
                if j < a1.len() { assert(a[j] == a1[j]); }
            }
            assert forall|j: int| 0 < j < tp.len() implies pvalid((#[trigger] tp[j]).1.0, tp[j].1.1, n) by {
                assert(tp[j] == t1[j - 1]);
            }
        }
    }
}

/// the top node of a subtree holds the same leaves
pub proof fn top_leaves<T>(h: nat, k: nat, i: nat, s: Seq<T>)
    requires first_leaf(h, k) < s.len(), under(h, k, i), i < s.len()
    ensures ({
        let t = ptop(h, k, s.len());
        leaves_of(t.0, t.1, s) == leaves_of(h, k, s) && under(t.0, t.1, i) && first_leaf(t.0, t.1) == first_leaf(h, k)
    })
    decreases h
{
    under_range(h, k, i);
    if h == 0 || pvalid(h, k, s.len()) {} else {
        let g = (h - 1) as nat;
        first_leaf_left(h, k);
        pow2_pos(g);
        under_range(g, 2 * k, i);
        top_leaves(g, 2 * k, i, s);
        assert(leaves_of(g, 2 * k, s) =~= leaves_of(h, k, s));
    }
}

/// the position path from (h, 0) to leaf i gives the audit path of leaf i
pub proof fn pwalk_audit<T>(h: nat, i: nat, s: Seq<T>, f: Op<T>)
    requires i < s.len(), s.len() <= pow2(h)
    ensures ({
        let n = s.len();
        let w = pwalk(h, 0, i, n, (h, 0nat));
        let a = audit(i as int, s, f);
        &&& w.len() == a.len() + 1
        &&& forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j] == nh(w[a.len() - j].1.0, w[a.len() - j].1.1, s, f)
        &&& forall|j: int| 0 < j < w.len() ==> pvalid((#[trigger] w[j]).1.0, w[j].1.1, n)
    })
{
    let n = s.len();
    assert(first_leaf(h, 0) == 0) by (nonlinear_arith);
    under_range(h, 0, i);
    pwalk_is_tree_path(h, 0, i, n, (h, 0nat));
    ptop_valid(h, 0, n);
    top_leaves(h, 0, i, s);
    let t = ptop(h, 0, n);
    tree_path_audit(t.0, t.1, i, t, s, f);
    assert(leaves_of(h, 0, s) =~= s);
}

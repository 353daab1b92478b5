// Mathematical model of the in-order indexed binary tree, and lemmas.
use vstd::arithmetic::power2::*;
use vstd::std_specs::bits::*;

/// In-order index of the node of height `h` and offset `k`.
pub open spec fn pidx(h: nat, k: nat) -> int {
    (2 * k + 1) * pow2(h) - 1
}

pub proof fn pow2_pos(h: nat)
    ensures pow2(h) > 0
{ lemma_pow2_pos(h); }

pub proof fn pow2_step(h: nat)
    ensures pow2(h + 1) == 2 * pow2(h)
{ lemma_pow2_unfold(h + 1); }

pub proof fn pow2_add(a: nat, b: nat)
    ensures pow2(a + b) == pow2(a) * pow2(b)
{ lemma_pow2_adds(a, b); }

pub proof fn pow2_mono(a: nat, b: nat)
    requires a <= b
    ensures pow2(a) <= pow2(b)
{ if a < b { lemma_pow2_strictly_increases(a, b); } }

pub proof fn pow2_strict(a: nat, b: nat)
    requires a < b
    ensures pow2(a) < pow2(b)
{ lemma_pow2_strictly_increases(a, b); }

/// height of the node with index `x`
pub open spec fn hof(x: u64) -> nat { u64_trailing_zeros(!x) as nat }
/// offset of the node with index `x`
pub open spec fn kof(x: u64) -> nat { ((x as nat + 1) / pow2(hof(x) + 1)) as nat }

pub proof fn shl_pow2(h: u64)
    requires h < 64
    ensures 1u64 << h == pow2(h as nat), 
{
    lemma_pow2_strictly_increases(h as nat, 64);
    lemma2_to64_rest();
    vstd::bits::lemma_u64_shl_is_mul(1, h);
}

pub proof fn shl_pow2_i64(h: u32)
    requires h <= 62
    ensures 1i64 << h == pow2(h as nat), pow2(h as nat) <= 0x4000_0000_0000_0000,
{
    shl_pow2(h as u64);
    let a = 1i64 << h;
    let b = 1u64 << (h as u64);
    assert(a as u64 == b && a > 0 && b <= 0x4000_0000_0000_0000u64) by (bit_vector)
        requires a == 1i64 << h, b == 1u64 << (h as u64), h <= 62u32;
}

pub proof fn shl_pow2_u64(h: u32)
    requires h <= 63
    ensures 1u64 << h == pow2(h as nat)
{
    shl_pow2(h as u64);
    assert(1u64 << h == 1u64 << (h as u64)) by (bit_vector) requires h <= 63u32;
}

/// bit-level and arithmetic ways to write the same thing
pub proof fn bits_of(x: u64)
    ensures
        x & 1 == x % 2, x | 1 == (if x % 2 == 0 { add(x, 1) } else { x }), x ^ 1 == (if x % 2 == 0 { add(x, 1) } else { sub(x, 1) }),
        x >> 1 == x / 2, x < 0x8000_0000_0000_0000 ==> x << 1 == 2 * x,
{
    assert(x & 1 == x % 2) by (bit_vector);
    assert(x | 1 == (if x % 2 == 0 { add(x, 1) } else { x })) by (bit_vector);
    assert(x ^ 1 == (if x % 2 == 0 { add(x, 1) } else { sub(x, 1) })) by (bit_vector);
    assert(x >> 1 == x / 2) by (bit_vector);
    assert(x < 0x8000_0000_0000_0000u64 ==> x << 1 == mul(2, x)) by (bit_vector);
}

pub proof fn pidx_unique(h: nat, k: nat, h2: nat, k2: nat)
    requires pidx(h, k) == pidx(h2, k2)
    ensures h == h2, k == k2
    decreases h + h2, h
{
    pow2_pos(h); pow2_pos(h2);
    if h == 0 {
        if h2 == 0 {
            assert(pow2(0) == 1) by { lemma2_to64(); }
            assert((2 * k + 1) * pow2(0) == 2 * k + 1) by (nonlinear_arith) requires pow2(0) == 1;
            assert((2 * k2 + 1) * pow2(0) == 2 * k2 + 1) by (nonlinear_arith) requires pow2(0) == 1;
        } else {
            lemma2_to64();
            assert((2 * k + 1) * pow2(0) == 2 * k + 1) by (nonlinear_arith) requires pow2(0) == 1;
            pow2_step((h2 - 1) as nat);
            let p = pow2((h2 - 1) as nat);
            assert((2 * k2 + 1) * (2 * p) == 2 * ((2 * k2 + 1) * p)) by (nonlinear_arith);
            assert(2 * k + 1 == 2 * ((2 * k2 + 1) * p));
        }
    } else if h2 == 0 {
        pidx_unique(h2, k2, h, k);
    } else {
        let p = pow2((h - 1) as nat);
        let q = pow2((h2 - 1) as nat);
        pow2_step((h - 1) as nat);
        pow2_step((h2 - 1) as nat);
        assert((2 * k2 + 1) * (2 * q) == 2 * ((2 * k2 + 1) * q)) by (nonlinear_arith);
        assert((2 * k + 1) * (2 * p) == 2 * ((2 * k + 1) * p)) by (nonlinear_arith);
        pidx_unique((h - 1) as nat, k, (h2 - 1) as nat, k2);
    }
}

/// Every index below 2^64 - 1 is the index of a node.
pub proof fn pidx_of(x: u64)
    requires x != u64::MAX
    ensures hof(x) < 64, x == pidx(hof(x), kof(x)), hof(x) == u64_trailing_zeros(!x)
{
    let y = !x;
    axiom_u64_trailing_zeros(y);
    let r = u64_trailing_zeros(y) as u64;
    assert(y != 0) by (bit_vector) requires y == !x, x != 0xffff_ffff_ffff_ffffu64;
    assert(r < 64);
    shl_pow2(r);
    let k = if r == 63 { 0u64 } else { x >> ((r + 1) as u64) };
    let p = 1u64 << r;
    // x + 1 == (2k + 1) * 2^r
    assert(p >= 1) by (bit_vector) requires p == 1u64 << r, r < 64;
    assert((x & sub(p, 1)) == sub(p, 1)) by (bit_vector)
        requires p == 1u64 << r, y == !x, r < 64, y << sub(64, r) == 0 || r == 0;
    if r == 63 {
        assert(x == sub(p, 1)) by (bit_vector)
            requires p == 1u64 << r, r == 63, (x & sub(p, 1)) == sub(p, 1), (y >> r) & 1 == 1, y == !x;
        lemma2_to64_rest();
        pow2_step(63);
        assert(kof(x) == 0) by (nonlinear_arith) requires kof(x) == (x as nat + 1) / pow2(64), x + 1 == 0x8000_0000_0000_0000int, pow2(64) == 0x1_0000_0000_0000_0000int;
        assert((2 * 0 + 1) * pow2(63) == pow2(63)) by (nonlinear_arith);
    } else {
        let r1 = (r + 1) as u64;
        assert(x == add(mul(k, shl_u(r1)), sub(p, 1)) && k <= sub(0xffff_ffff_ffff_ffffu64 >> r1, 0)) by (bit_vector)
            requires p == 1u64 << r, r1 == add(r, 1), r < 63, k == x >> r1, (x & sub(p, 1)) == sub(p, 1), (y >> r) & 1 == 1, y == !x;
        shl_pow2(r1);
        vstd::bits::lemma_u64_shr_is_div(x, r1);
        let q = pow2(r1 as nat);
        pow2_step(r as nat);
        assert(k == x as nat / q);
        assert(q > 0) by { pow2_pos(r1 as nat); }
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x as int, q as int);
        // x = k*q + (p - 1), 2p = q
        let m = x as int % q as int;
        assert(x as int == q as int * k as int + m);
        assert(m == p as int - 1) by {
            lemma_mod_low(x, r1, p, k);
        }
        assert(x + 1 == q * k + p);
        assert(q * k + p == (2 * k + 1) * p) by (nonlinear_arith) requires q == 2 * p;
        assert((x as nat + 1) / q == k) by {
            assert(q as int * k as int == k as int * q as int) by (nonlinear_arith);
            assert(p < q);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x as int + 1, q as int, k as int, p as int);
            assert(q as int * k as int == k as int * q as int) by (nonlinear_arith);
        }
    }
}

pub open spec fn shl_u(r: u64) -> u64 { 1u64 << r }

pub proof fn lemma_mod_low(x: u64, r1: u64, p: u64, k: u64)
    requires 1 <= r1 < 64, p == 1u64 << ((r1 - 1) as u64), k == x >> r1,
        x & sub(p, 1) == sub(p, 1), (!x >> ((r1 - 1) as u64)) & 1 == 1,
    ensures x as int % pow2(r1 as nat) as int == p - 1
{
    let r = (r1 - 1) as u64;
    let q = 1u64 << r1;
    shl_pow2(r1);
    shl_pow2(r);
    pow2_pos(r as nat);
    vstd::bits::lemma_u64_low_bits_mask_is_mod(x, r1 as nat);
    let mask = vstd::bits::low_bits_mask(r1 as nat);
    assert(mask == q - 1) by { vstd::bits::lemma_low_bits_mask_values(); pow2_pos(r1 as nat); reveal(vstd::bits::low_bits_mask); }
    assert(x & sub(q, 1) == sub(p, 1)) by (bit_vector)
        requires q == 1u64 << r1, p == 1u64 << r, r1 == add(r, 1), r < 63, x & sub(p, 1) == sub(p, 1), (!x >> r) & 1 == 1;
    pow2_pos(r1 as nat);
}

pub proof fn hof_pidx(x: u64, h: nat, k: nat)
    requires x == pidx(h, k), x != u64::MAX
    ensures hof(x) == h, kof(x) == k, h < 64
{
    pidx_of(x);
    pidx_unique(h, k, hof(x), kof(x));
}

pub proof fn pidx_parity(h: nat, k: nat)
    ensures h == 0 ==> pidx(h, k) == 2 * k, h > 0 ==> pidx(h, k) % 2 == 1, pidx(h, k) >= 0
{
    pow2_pos(h);
    assert((2 * k + 1) * pow2(h) >= 1) by (nonlinear_arith) requires pow2(h) >= 1, k >= 0;
    if h == 0 {
        lemma2_to64();
    } else {
        pow2_step((h - 1) as nat);
        let p = pow2((h - 1) as nat);
        assert((2 * k + 1) * (2 * p) == 2 * ((2 * k + 1) * p)) by (nonlinear_arith);
    }
}

/// the sibling's offset
pub open spec fn sib(k: nat) -> nat { if k % 2 == 0 { k + 1 } else { (k - 1) as nat } }

pub proof fn pow2_63() ensures pow2(63) == 0x8000_0000_0000_0000nat, pow2(62) == 0x4000_0000_0000_0000nat,
    pow2(64) == 0x1_0000_0000_0000_0000nat, pow2(0) == 1, pow2(1) == 2
{ lemma2_to64(); lemma2_to64_rest(); }

pub proof fn pidx_nonneg(h: nat, k: nat) ensures pidx(h, k) >= 0
{ pidx_parity(h, k); }

/// parent, sibling and children in terms of in-order indices
pub proof fn pidx_parent(h: nat, k: nat)
    ensures pidx(h + 1, k / 2) == (if k % 2 == 0 { pidx(h, k) + pow2(h) } else { pidx(h, k) - pow2(h) })
{
    pow2_step(h);
    let p = pow2(h);
    let j = k / 2;
    assert((2 * j + 1) * (2 * p) == (4 * j + 2) * p) by (nonlinear_arith);
    if k % 2 == 0 {
        assert(k == 2 * j);
        assert((2 * k + 1) * p + p == (4 * j + 2) * p) by (nonlinear_arith) requires k == 2 * j;
    } else {
        assert(k == 2 * j + 1);
        assert((2 * k + 1) * p - p == (4 * j + 2) * p) by (nonlinear_arith) requires k == 2 * j + 1;
    }
}

pub proof fn pidx_sib(h: nat, k: nat)
    ensures pidx(h, sib(k)) == (if k % 2 == 0 { pidx(h, k) + pow2(h + 1) } else { pidx(h, k) - pow2(h + 1) })
{
    pow2_step(h);
    let p = pow2(h);
    if k % 2 == 0 {
        assert((2 * (k + 1) + 1) * p == (2 * k + 1) * p + 2 * p) by (nonlinear_arith);
    } else {
        assert((2 * (k - 1) + 1) * p == (2 * k + 1) * p - 2 * p) by (nonlinear_arith);
        assert(sib(k) as int == k - 1);
    }
}

pub proof fn pidx_child(h: nat, k: nat)
    requires h > 0
    ensures pidx((h - 1) as nat, 2 * k) == pidx(h, k) - pow2((h - 1) as nat),
        pidx((h - 1) as nat, 2 * k + 1) == pidx(h, k) + pow2((h - 1) as nat),
{
    let g = (h - 1) as nat;
    pidx_parent(g, 2 * k);
    pidx_parent(g, 2 * k + 1);
    assert((2 * k) / 2 == k && (2 * k + 1) / 2 == k && (2 * k) % 2 == 0 && (2 * k + 1) % 2 == 1);
}

/// (2k+1) * 2^h < 2^63 leaves room for the sibling (h <= 61) and the parent (h <= 62)
pub proof fn pidx_room(h: nat, k: nat)
    requires pidx(h, k) < 0x8000_0000_0000_0000, h <= 62
    ensures pidx(h + 1, k / 2) <= 0x7fff_ffff_ffff_ffff,
        h <= 61 ==> pidx(h, sib(k)) < 0x7fff_ffff_ffff_ffff,
        h <= 61 ==> pidx(h, k) < 0x7fff_ffff_ffff_ffff,
{
    let p = pow2(h);
    let g = (63 - h) as nat;
    pow2_pos(h);
    pow2_63();
    pow2_add(h, g);
    let q = pow2(g);
    assert((2 * k + 1) * p <= q * p) by (nonlinear_arith) requires (2 * k + 1) * p - 1 < 0x8000_0000_0000_0000, q * p == 0x8000_0000_0000_0000;
    assert(2 * k + 1 <= q) by (nonlinear_arith) requires (2 * k + 1) * p <= q * p, p >= 1;
    pow2_step((g - 1) as nat);
    let q2 = pow2((g - 1) as nat);
    assert(2 * k + 1 <= q - 1);
    pidx_parent(h, k);
    pidx_sib(h, k);
    pow2_step(h);
    if k % 2 == 0 {
        assert((2 * k + 1) * p + p <= q * p) by (nonlinear_arith) requires 2 * k + 1 <= q - 1, p >= 1;
    }
    if h <= 61 {
        pow2_step((g - 2) as nat);
        let q4 = pow2((g - 2) as nat);
        assert(q == 4 * q4);
        if k % 2 == 0 {
            let j = k / 2;
            assert(k == 2 * j);
            assert(2 * k + 1 <= q - 3);
            assert((2 * k + 1) * p + 2 * p <= q * p - p) by (nonlinear_arith) requires 2 * k + 1 <= q - 3, p >= 1;
            assert(p >= 1);
        } else {
            assert((2 * k + 1) * p <= q * p - p) by (nonlinear_arith) requires 2 * k + 1 <= q - 1, p >= 1;
        }
        pow2_add(h, 1);
        // q*p - p - 1 < 2^63 - 1
    }
}

/// the bit just above the trailing ones tells whether the offset is odd
pub proof fn orientation_bit(x: u64)
    requires hof(x) <= 62
    ensures (x & (1u64 << ((hof(x) + 1) as u64)) != 0) == (kof(x) % 2 == 1)
{
    let r = u64_trailing_zeros(!x) as u64;
    let r1 = (r + 1) as u64;
    assert(x != u64::MAX) by {
        if x == u64::MAX { assert(!x == 0) by (bit_vector) requires x == 0xffff_ffff_ffff_ffffu64; axiom_u64_trailing_zeros(0); }
    }
    pidx_of(x);
    kof_shift(x);
    let k = x >> r1;
    assert((x & (1u64 << r1) != 0) == (k & 1 == 1)) by (bit_vector) requires r1 < 64, k == x >> r1;
    assert((k & 1 == 1) == (k % 2 == 1)) by (bit_vector);
}

pub proof fn orient_bits(x: u64)
    requires hof(x) <= 62
    ensures
        ({ let s = (hof(x) + 1) as u32; let y = x >> s; y & 1 == kof(x) % 2 && y % 2 == kof(x) % 2 && y == kof(x) }),
{
    orientation_bit(x);
    let h = hof(x);
    let s = (h + 1) as u32;
    let y = x >> s;
    assert(x >> s == x >> (s as u64)) by (bit_vector) requires s <= 63u32;
    vstd::bits::lemma_u64_shr_is_div(x, s as u64);
    assert(x != u64::MAX) by { if x == u64::MAX { axiom_u64_trailing_zeros(!x); assert(!x == 0) by (bit_vector) requires x == 0xffff_ffff_ffff_ffffu64; } }
    pidx_of(x);
    let p = pow2(h);
    pow2_step(h); pow2_pos(h);
    let k = kof(x);
    assert((2 * k + 1) * p - 1 == k * (2 * p) + (p - 1)) by (nonlinear_arith);
    assert((x as nat) / (2 * p) == k) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x as int, 2 * p as int, k as int, p - 1); }
    assert(y == k);
    bits_of(y);
}

pub proof fn kof_shift(x: u64)
    requires hof(x) <= 62
    ensures kof(x) == x >> ((hof(x) + 1) as u64)
{
    let h = hof(x);
    let r1 = (h + 1) as u64;
    assert(x != u64::MAX) by {
        if x == u64::MAX { assert(!x == 0) by (bit_vector) requires x == 0xffff_ffff_ffff_ffffu64; axiom_u64_trailing_zeros(0); }
    }
    pidx_of(x);
    shl_pow2(r1);
    vstd::bits::lemma_u64_shr_is_div(x, r1);
    pow2_step(h);
    pow2_pos(h);
    let q = pow2(h + 1);
    let p = pow2(h);
    let k = kof(x);
    assert((2 * k + 1) * p == q * k + p) by (nonlinear_arith) requires q == 2 * p;
    assert(x as int == q as int * k as int + (p - 1));
    assert(q as int * k as int == k as int * q as int) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x as int, q as int, k as int, p as int - 1);
}

pub proof fn pidx_child_room(h: nat, k: nat)
    requires h > 0, pidx(h, k) < 0x7fff_ffff_ffff_ffff
    ensures pidx((h - 1) as nat, 2 * k) < pidx(h, k), pidx((h - 1) as nat, 2 * k + 1) < 0x7fff_ffff_ffff_ffff,
        h <= 62
{
    if pidx((h - 1) as nat, 2 * k + 1) == 0x7fff_ffff_ffff_ffff {
        pow2_63();
        assert(pidx(63, 0) == 0x7fff_ffff_ffff_ffff);
        pidx_unique((h - 1) as nat, 2 * k + 1, 63, 0);
    }
    let g = (h - 1) as nat;
    let p = pow2(g);
    pow2_pos(g);
    pow2_63();
    pidx_child(h, k);
    pow2_step(g);
    let q = 0x8000_0000_0000_0000int;
    // pidx(h,k) + 1 = (4k+2) p <= 2^63
    assert((2 * k + 1) * (2 * p) == (4 * k + 2) * p) by (nonlinear_arith);
    if h > 63 {
        pow2_mono(64, h);
        assert((2 * k + 1) * pow2(h) >= pow2(h)) by (nonlinear_arith) requires k >= 0, pow2(h) >= 0;
    } else {
        // 2^63 = p * 2^(63-g)
        let e = (63 - g) as nat;
        pow2_add(g, e);
        let w = pow2(e);
        assert((4 * k + 2) <= w) by (nonlinear_arith) requires (4 * k + 2) * p <= p * w, p >= 1;
        pow2_step((e - 1) as nat);
        if h == 63 {
            assert((4 * k + 2) * p >= 2 * p) by (nonlinear_arith) requires k >= 0, p >= 1;
        } else {
            pow2_step((e - 2) as nat);
            assert(4 * k + 3 <= w);
            assert((4 * k + 3) * p <= w * p) by (nonlinear_arith) requires 4 * k + 3 <= w, p >= 1;
            assert(p * w == w * p) by (nonlinear_arith);
            assert((2 * (2 * k + 1) + 1) * p == (4 * k + 3) * p) by (nonlinear_arith);
        }
    }
}

pub broadcast proof fn mul_pm1(a: int, b: int)
    ensures b == 1 ==> #[trigger] (a * b) == a, b == -1 ==> a * b == -a
{ assert(b == 1 ==> a * b == a) by (nonlinear_arith); assert(b == -1 ==> a * b == -a) by (nonlinear_arith); }

// ---- trees of n leaves ------------------------------------------------------

/// bit `j` of `i`
pub open spec fn ibit(i: nat, j: nat) -> nat { (i / pow2(j)) % 2 }

/// first leaf below node (h, k)
pub open spec fn first_leaf(h: nat, k: nat) -> nat { k * pow2(h) }

/// node (h, k) branches (or is a leaf) in the tree of n leaves: its right subtree is not empty
pub open spec fn pvalid(h: nat, k: nat, n: nat) -> bool {
    if h == 0 { k < n } else { first_leaf((h - 1) as nat, 2 * k + 1) < n }
}

/// the node of the n-leaf tree that stands for the subtree at (h, k)
pub open spec fn ptop(h: nat, k: nat, n: nat) -> (nat, nat)
    decreases h
{
    if h == 0 || pvalid(h, k, n) { (h, k) } else { ptop((h - 1) as nat, 2 * k, n) }
}

/// what the position path iterator yields from node (h, k) downwards; `eff` is the pending side node
pub open spec fn pwalk(h: nat, k: nat, i: nat, n: nat, eff: (nat, nat)) -> Seq<((nat, nat), (nat, nat))>
    decreases h
{
    let v = pvalid(h, k, n);
    let head = if v { seq![((h, k), ptop(eff.0, eff.1, n))] } else { Seq::<((nat, nat), (nat, nat))>::empty() };
    if h == 0 { head } else {
        let g = (h - 1) as nat;
        let b = ibit(i, g);
        head + pwalk(g, 2 * k + b, i, n, if v { (g, (2 * k + 1 - b) as nat) } else { eff })
    }
}

/// the branching nodes of the n-leaf tree from (h, k) down to leaf i, each with the top of the other subtree
pub open spec fn tree_path(h: nat, k: nat, i: nat, n: nat, side: (nat, nat)) -> Seq<((nat, nat), (nat, nat))>
    decreases h
{
    let head = seq![((h, k), side)];
    if h == 0 { head } else {
        let g = (h - 1) as nat;
        let l = ptop(g, 2 * k, n);
        let r = ptop(g, 2 * k + 1, n);
        if l.0 >= h || r.0 >= h { head }
        else if i < first_leaf(g, 2 * k + 1) { head + tree_path(l.0, l.1, i, n, r) }
        else { head + tree_path(r.0, r.1, i, n, l) }
    }
}

pub proof fn ptop_le(h: nat, k: nat, n: nat)
    ensures ptop(h, k, n).0 <= h
    decreases h
{ if h == 0 || pvalid(h, k, n) {} else { ptop_le((h - 1) as nat, 2 * k, n); } }

/// a subtree with at least one leaf has a top node, with the same first leaf
pub proof fn ptop_valid(h: nat, k: nat, n: nat)
    requires first_leaf(h, k) < n
    ensures pvalid(ptop(h, k, n).0, ptop(h, k, n).1, n),
        first_leaf(ptop(h, k, n).0, ptop(h, k, n).1) == first_leaf(h, k),
        ptop(h, k, n).0 <= h,
    decreases h
{
    pow2_63();
    if h == 0 {
        assert(k * 1 == k);
    } else if pvalid(h, k, n) {
    } else {
        first_leaf_left(h, k);
        ptop_valid((h - 1) as nat, 2 * k, n);
    }
}

pub proof fn first_leaf_left(h: nat, k: nat)
    requires h > 0
    ensures first_leaf((h - 1) as nat, 2 * k) == first_leaf(h, k),
        first_leaf((h - 1) as nat, 2 * k + 1) == first_leaf(h, k) + pow2((h - 1) as nat),
        pow2(h) == 2 * pow2((h - 1) as nat),
{
    let p = pow2((h - 1) as nat);
    pow2_step((h - 1) as nat);
    assert((2 * k) * p == k * (2 * p)) by (nonlinear_arith);
    assert((2 * k + 1) * p == k * (2 * p) + p) by (nonlinear_arith);
}

/// validity in terms of in-order indices
pub proof fn pvalid_idx(h: nat, k: nat, n: nat)
    requires n >= 1
    ensures pvalid(h, k, n) == (pidx(h, k) <= 2 * (n - 1))
{
    pow2_63();
    if h == 0 {
        assert((2 * k + 1) * 1 == 2 * k + 1);
    } else {
        let p = pow2((h - 1) as nat);
        pow2_step((h - 1) as nat);
        assert((2 * k + 1) * (2 * p) == 2 * ((2 * k + 1) * p)) by (nonlinear_arith);
    }
}

pub proof fn ibit_shift(i: nat, h: nat)
    ensures i / pow2(h) == 2 * (i / pow2(h + 1)) + ibit(i, h), ibit(i, h) < 2
{
    pow2_pos(h);
    pow2_step(h);
    let p = pow2(h);
    vstd::arithmetic::div_mod::lemma_div_denominator(i as int, p as int, 2);
    assert(p * 2 == pow2(h + 1));
}

/// the descendant of (h, k) towards leaf i
pub open spec fn under(h: nat, k: nat, i: nat) -> bool { i / pow2(h) == k }

pub proof fn under_range(h: nat, k: nat, i: nat)
    ensures under(h, k, i) == (first_leaf(h, k) <= i < first_leaf(h, k) + pow2(h))
{
    pow2_pos(h);
    let p = pow2(h);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i as int, p as int);
    let q = i / p;
    let m = i % p;
    assert(i == p * q + m);
    assert(p * q == q * p) by (nonlinear_arith);
    if k * p <= i && i < k * p + p {
        assert(q == k) by (nonlinear_arith) requires k * p <= i, i < k * p + p, i == q * p + m, 0 <= m < p, p > 0;
    }
}

pub proof fn under_child(h: nat, k: nat, i: nat)
    requires under(h, k, i), h > 0
    ensures under((h - 1) as nat, 2 * k + ibit(i, (h - 1) as nat), i),
        ibit(i, (h - 1) as nat) == (if i < first_leaf((h - 1) as nat, 2 * k + 1) { 0nat } else { 1nat }),
        ibit(i, (h - 1) as nat) < 2,
{
    let g = (h - 1) as nat;
    ibit_shift(i, g);
    first_leaf_left(h, k);
    under_range(h, k, i);
    under_range(g, 2 * k, i);
    under_range(g, 2 * k + 1, i);
}

/// the iterator's walk is the path in the n-leaf tree
pub proof fn pwalk_is_tree_path(h: nat, k: nat, i: nat, n: nat, eff: (nat, nat))
    requires under(h, k, i), i < n
    ensures ({
        let t = ptop(h, k, n);
        pwalk(h, k, i, n, eff) == tree_path(t.0, t.1, i, n, ptop(eff.0, eff.1, n))
    })
    decreases h
{
    under_range(h, k, i);
    pow2_63();
    if h == 0 {
        assert(k * 1 == k);
    } else {
        let g = (h - 1) as nat;
        under_child(h, k, i);
        first_leaf_left(h, k);
        let b = ibit(i, g);
        if pvalid(h, k, n) {
            let l = ptop(g, 2 * k, n);
            let r = ptop(g, 2 * k + 1, n);
            ptop_le(g, 2 * k, n);
            ptop_le(g, 2 * k + 1, n);
            pwalk_is_tree_path(g, 2 * k + b, i, n, (g, (2 * k + 1 - b) as nat));
        } else {
            assert(b == 0);
            pwalk_is_tree_path(g, 2 * k, i, n, eff);
            assert(Seq::<((nat, nat), (nat, nat))>::empty() + pwalk(g, 2 * k, i, n, eff) =~= pwalk(g, 2 * k, i, n, eff));
        }
    }
}

/// bit `j` of `i`, as a shift
pub proof fn ibit_shr(i: u64, j: nat)
    requires j < 64
    ensures (i >> (j as u64)) & 1 == ibit(i as nat, j)
{
    vstd::bits::lemma_u64_shr_is_div(i, j as u64);
    let a = i >> (j as u64);
    assert(a & 1 == a % 2) by (bit_vector);
}

//! Independent reference definitions (from the RFC and the Fuel specification), not from /repo.
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;

pub type H = [u8; 32];

pub fn sha(parts: &[&[u8]]) -> H {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn empty() -> H {
    sha(&[])
}
pub fn leaf(d: &[u8]) -> H {
    sha(&[&[0], d])
}
pub fn node(l: &H, r: &H) -> H {
    sha(&[&[1], l, r])
}

/// in-order index of the node at height h with offset k
pub fn ix(h: u32, k: u64) -> u64 {
    (((2 * k as u128 + 1) << h) - 1) as u64
}

/// largest power of two strictly below n
pub fn split(n: u64) -> u64 {
    assert!(n >= 2);
    let mut s = 1u64;
    while s <= (n - 1) / 2 {
        s *= 2;
    }
    s
}

/// A source of hashes of complete aligned subtrees: the leaves [k*2^h, (k+1)*2^h).
pub trait Leaves {
    fn complete(&self, h: u32, k: u64) -> H;
}

/// RFC 6962 hash of the leaves [a, a+n), where a is a multiple of a power of two >= n
pub fn mth(l: &dyn Leaves, a: u64, n: u64) -> H {
    if n == 0 {
        return empty();
    }
    if n & (n - 1) == 0 {
        let h = n.trailing_zeros();
        return l.complete(h, a >> h);
    }
    let s = split(n);
    node(&mth(l, a, s), &mth(l, a + s, n - s))
}

/// RFC 6962 audit path of leaf i (relative) among [a, a+n), leaf side first
pub fn audit(l: &dyn Leaves, a: u64, n: u64, i: u64) -> Vec<H> {
    if n <= 1 {
        return vec![];
    }
    let s = split(n);
    if i < s {
        let mut v = audit(l, a, s, i);
        v.push(mth(l, a + s, n - s));
        v
    } else {
        let mut v = audit(l, a + s, n - s, i - s);
        v.push(mth(l, a, s));
        v
    }
}

/// fold an audit path upwards (RFC 9162 2.1.3.2)
pub fn fold(leafh: &H, path: &[H], i: u64, n: u64) -> Option<H> {
    if i >= n {
        return None;
    }
    let (mut f, mut s) = (i, n - 1);
    let mut r = *leafh;
    for p in path {
        if s == 0 {
            return None;
        }
        if f & 1 == 1 || f == s {
            r = node(p, &r);
            if f & 1 == 0 {
                while f & 1 == 0 && f != 0 {
                    f >>= 1;
                    s >>= 1;
                }
            }
        } else {
            r = node(&r, p);
        }
        f >>= 1;
        s >>= 1;
    }
    if s == 0 { Some(r) } else { None }
}

pub struct VecLeaves<'a>(pub &'a [H]);
impl Leaves for VecLeaves<'_> {
    fn complete(&self, h: u32, k: u64) -> H {
        if h == 0 {
            return self.0[k as usize];
        }
        node(&self.complete(h - 1, 2 * k), &self.complete(h - 1, 2 * k + 1))
    }
}

/// precomputed levels of complete subtrees
pub struct Levels<'a>(pub &'a [Vec<H>]);
impl Leaves for Levels<'_> {
    fn complete(&self, h: u32, k: u64) -> H {
        self.0[h as usize][k as usize]
    }
}

/// A tree with a huge number `n0` of made-up leaves, followed by real ones.
pub struct Synth {
    pub n0: u64,
    pub salt: u64,
    pub more: Vec<H>,
}
impl Synth {
    pub fn made_up(&self, h: u32, k: u64) -> H {
        sha(&[b"made-up", &self.salt.to_be_bytes(), &h.to_be_bytes(), &k.to_be_bytes()])
    }
    pub fn is_old(&self, h: u32, k: u64) -> bool {
        (((k as u128) + 1) << h) <= self.n0 as u128
    }
}
impl Leaves for Synth {
    fn complete(&self, h: u32, k: u64) -> H {
        if self.is_old(h, k) {
            return self.made_up(h, k);
        }
        if h == 0 {
            return self.more[(k - self.n0) as usize];
        }
        node(&self.complete(h - 1, 2 * k), &self.complete(h - 1, 2 * k + 1))
    }
}

/// All complete aligned subtrees of the leaves [0, n): (height, offset).
pub fn complete_nodes(n: u64) -> Vec<(u32, u64)> {
    let mut v = vec![];
    let mut h = 0;
    while h < 64 && (1u128 << h) <= n as u128 {
        for k in 0..(n >> h) {
            v.push((h, k));
        }
        h += 1;
    }
    v
}
/// Peaks of n leaves, left to right.
pub fn peaks(n: u64) -> Vec<(u32, u64)> {
    let mut v = vec![];
    for h in (0..64).rev() {
        if n >> h & 1 == 1 {
            let a = if h == 63 { 0 } else { n >> (h + 1) << (h + 1) };
            v.push((h as u32, a >> h));
        }
    }
    v
}

// ---- sum tree ----
pub fn sleaf(fee: u64, d: &[u8]) -> (u64, H) {
    (fee, sha(&[&[0], &fee.to_be_bytes(), d]))
}
pub fn snode(l: &(u64, H), r: &(u64, H)) -> (u64, H) {
    (
        (l.0 as u128 + r.0 as u128) as u64,
        sha(&[&[1], &l.0.to_be_bytes(), &l.1, &r.0.to_be_bytes(), &r.1]),
    )
}
pub fn smth(l: &[(u64, H)]) -> (u64, H) {
    match l.len() {
        0 => (0, empty()),
        1 => l[0],
        n => {
            let s = split(n as u64) as usize;
            snode(&smth(&l[..s]), &smth(&l[s..]))
        }
    }
}

// ---- sparse tree ----
pub type Kv = BTreeMap<H, Vec<u8>>;
pub fn bit(k: &H, i: usize) -> bool {
    k[i / 8] >> (7 - i % 8) & 1 == 1
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SpNode {
    pub hash: H,
    pub value: (u32, u8, H, H),
}
/// root of the sorted key-value list whose keys agree on their first d bits; the nodes it consists of
pub fn smt(kv: &[(H, H)], d: usize, out: &mut Vec<SpNode>) -> H {
    match kv.len() {
        0 => [0; 32],
        1 => {
            let h = sha(&[&[0], &kv[0].0, &kv[0].1]);
            out.push(SpNode { hash: h, value: (0, 0, kv[0].0, kv[0].1) });
            h
        }
        _ => {
            let m = kv.partition_point(|(k, _)| !bit(k, d));
            let l = smt(&kv[..m], d + 1, out);
            let r = smt(&kv[m..], d + 1, out);
            let h = sha(&[&[1], &l, &r]);
            out.push(SpNode { hash: h, value: (256 - d as u32, 1, l, r) });
            h
        }
    }
}
pub fn sp_list(m: &Kv) -> Vec<(H, H)> {
    m.iter().map(|(k, v)| (*k, sha(&[v]))).collect()
}
pub fn sp_root(m: &Kv) -> H {
    let mut o = vec![];
    smt(&sp_list(m), 0, &mut o)
}
pub fn sp_nodes(m: &Kv) -> (H, Vec<SpNode>) {
    let mut o = vec![];
    let r = smt(&sp_list(m), 0, &mut o);
    (r, o)
}

//! Sum tree searches: C06, C14 and its part of C16.
use crate::ck;
use crate::oracle::*;
use crate::store::*;
use crate::util::*;
use fuel_merkle::{common::StorageMap, sum};
use fuel_storage::StorageInspect;

/// fees whose total is below 2^64
fn fees(rng: &mut Rng, n: u64) -> Vec<u64> {
    let mode = rng.below(5);
    let mut left = u64::MAX;
    if let Some(w) = rng.word(1, 4, u64::MAX / n.max(1)) {
        // pairs of leaves whose fees add up to the word
        let mut v = vec![];
        while (v.len() as u64) < n {
            let a = rng.below(w + 1);
            v.extend([a, w - a]);
        }
        v.truncate(n as usize);
        return v;
    }
    (0..n)
        .map(|i| {
            let f = match mode {
                0 => rng.below(3),
                1 => rng.wild(64),
                2 => {
                    if i == 0 { u64::MAX - n } else { 1 }
                }
                3 => 1000 + i,
                _ => rng.u64() >> 20,
            }
            .min(left);
            left -= f;
            f
        })
        .collect()
}

fn leaves(rng: &mut Rng, n: u64) -> Vec<(u64, Vec<u8>)> {
    match rng.below(8) {
        // repeated leaves
        0 => {
            let (f, d) = (rng.below(2) * rng.below(1000), rng.data());
            (0..n).map(|_| (f, d.clone())).collect()
        }
        1 => {
            let p: Vec<_> = (0..3).map(|_| (rng.below(3), rng.data())).collect();
            (0..n).map(|_| p[rng.below(3) as usize].clone()).collect()
        }
        _ => fees(rng, n).into_iter().map(|f| (f, rng.data())).collect(),
    }
}
fn show(l: &[(u64, Vec<u8>)]) -> String {
    let v: Vec<String> = l.iter().take(12).map(|(f, d)| format!("({f}, {})", sh(d))).collect();
    format!("{} pushes: {}{}", l.len(), v.join(", "), if l.len() > 12 { ", .." } else { "" })
}

fn complete(l: &[(u64, H)], h: u32, k: u64) -> (u64, H) {
    if h == 0 { l[k as usize] } else { snode(&complete(l, h - 1, 2 * k), &complete(l, h - 1, 2 * k + 1)) }
}

fn case(c: &mut Case, l: &[(u64, Vec<u8>)], ask: u64, storage: bool) -> Result<(), String> {
    let o: Vec<(u64, H)> = l.iter().map(|(f, d)| sleaf(*f, d)).collect();
    let s: Store<H, _> = Store::new();
    let mut t = sum::MerkleTree::<Tab<H, _>, Store<H, _>>::new(s.clone());
    for (i, (f, d)) in l.iter().enumerate() {
        if ask == 1 || (ask == 2 && i % 3 == 0) {
            let r = t.root().map_err(|e| format!("root failed: {e:?}"))?;
            let w = smth(&o[..i]);
            ck!(c, r == w, "root after {i} pushes is ({}, {}) instead of ({}, {})", r.0, hex(&r.1), w.0, hex(&w.1));
        }
        t.push(*f, d).map_err(|e| format!("push failed: {e:?}"))?;
        if storage && (l.len() < 20 || i + 1 == l.len()) {
            let m = s.map();
            for (h, k) in complete_nodes(i as u64 + 1) {
                let w = complete(&o, h, k);
                c.tick();
                let Some(g) = m.get(&w.1) else {
                    return Err(format!("after {} pushes: the subtree of height {h}, offset {k} is not stored under its digest {}", i + 1, hex(&w.1)));
                };
                let (wl, wr) = if h == 0 {
                    (None, None)
                } else {
                    (Some(complete(&o, h - 1, 2 * k).1), Some(complete(&o, h - 1, 2 * k + 1).1))
                };
                if g.height() != h || g.fee() != w.0 || *g.hash() != w.1 || g.left_child_key() != wl || g.right_child_key() != wr {
                    return Err(format!(
                        "after {} pushes: the subtree of height {h}, offset {k} is stored as height {}, fee {}, digest {}, children {:?} {:?}; expected fee {}, digest {}, children {:?} {:?}",
                        i + 1, g.height(), g.fee(), hex(g.hash()), g.left_child_key().map(|h| hex(&h)), g.right_child_key().map(|h| hex(&h)),
                        w.0, hex(&w.1), wl.map(|h| hex(&h)), wr.map(|h| hex(&h))
                    ));
                }
                if g.is_leaf() != (h == 0) || g.is_node() != (h != 0) {
                    return Err(format!("node kind of the subtree of height {h}, offset {k}"));
                }
            }
        }
    }
    for _ in 0..2 {
        let r = t.root().map_err(|e| format!("root failed: {e:?}"))?;
        let w = smth(&o);
        ck!(c, r == w, "root after {} pushes is ({}, {}) instead of ({}, {})", l.len(), r.0, hex(&r.1), w.0, hex(&w.1));
    }
    Ok(())
}

/// many leaves, checked against the complete subtrees kept on the way
fn many(i: u64, rng: &mut Rng, c: &mut Case, storage: bool) -> Result<(), String> {
    let n = rng.word(1, 3, 400_000).filter(|n| *n > 300).unwrap_or(crate::bin_tree::MANY[i as usize]);
    let salt = rng.u64();
    let top = rng.below(31) as u32;
    // growing fees, equal fees, no fees, and fees that repeat from one subtree to the next
    let fee = |j: u64| match i % 4 {
        1 => 1 + salt % 1000,
        2 => 0,
        3 => (j % 8) << (top / 2),
        _ => (j << top) / 7,
    };
    c.describe(format!("{n} pushes of ({}, the 8-byte number {salt} + j)", ["j * 2^top / 7", "a constant", "0", "a power of two times j % 8"][i as usize % 4]));
    let mut s = StorageMap::<Tab<H, _>>::new();
    let mut l: Vec<(u64, H)> = vec![];
    let root;
    {
        let mut t = sum::MerkleTree::<Tab<H, _>, _>::new(&mut s);
        for j in 0..n {
            let (f, d) = (fee(j), salt.wrapping_add(j).to_be_bytes());
            t.push(f, &d).map_err(|e| format!("push failed: {e:?}"))?;
            l.push(sleaf(f, &d));
        }
        root = t.root().map_err(|e| format!("root failed: {e:?}"))?;
    }
    let w = smth(&l);
    ck!(c, root == w, "root after {n} pushes is ({}, {}) instead of ({}, {})", root.0, hex(&root.1), w.0, hex(&w.1));
    let mut h = 0;
    let mut below: Vec<(u64, H)> = vec![];
    while storage && !l.is_empty() {
        for (k, w) in l.iter().enumerate() {
            let g = s.get(&w.1).unwrap().map(|g| g.into_owned());
            let (wl, wr) = if h == 0 { (None, None) } else { (Some(below[2 * k].1), Some(below[2 * k + 1].1)) };
            ck!(c, g.is_some_and(|g| g.height() == h && g.fee() == w.0 && *g.hash() == w.1 && g.left_child_key() == wl && g.right_child_key() == wr),
                "{n} pushes: the subtree of height {h}, offset {k} is not stored as it should");
        }
        below = l;
        l = below.chunks_exact(2).map(|p| snode(&p[0], &p[1])).collect();
        h += 1;
    }
    Ok(())
}

pub fn c06(x: &mut Ctx) {
    x.run("many", Some(8), 0., |i, rng, c| many(i, rng, c, false));
    x.run("leaf-length", Some(LENGTHS), 0., |i, rng, c| {
        let n = length(i, rng);
        let l = vec![(rng.wild(30), rng.bytes(n)), (rng.below(2), rng.data())];
        c.describe(show(&l));
        case(c, &l, 1, true)
    });
    x.run("every-count", Some(140), 0., |n, rng, c| {
        let l = leaves(rng, n);
        c.describe(show(&l));
        case(c, &l, n % 3, false)
    });
    x.run("random", None, 1.0, |_, rng, c| {
        let n = if rng.chance(1, 4) { rng.range(1, 900) } else { rng.range(1, 40) };
        let l = leaves(rng, n);
        c.describe(show(&l));
        case(c, &l, rng.below(3), false)
    });
}

pub fn c14(x: &mut Ctx) {
    x.run("many", Some(8), 0., |i, rng, c| many(i, rng, c, true));
    x.run("every-count", Some(100), 0., |n, rng, c| {
        let l = leaves(rng, n);
        c.describe(show(&l));
        case(c, &l, n % 3, true)
    });
    x.run("random", None, 1.0, |_, rng, c| {
        let n = if rng.chance(1, 5) { rng.range(1, 300) } else { rng.range(1, 40) };
        let l = leaves(rng, n);
        c.describe(show(&l));
        case(c, &l, rng.below(3), true)
    });
}

pub fn c16(x: &mut Ctx) {
    x.run("sum-every-call", Some(40), 0., |n, rng, c| {
        let l = leaves(rng, n + 1);
        c.describe(format!("sum tree, every storage call of push and root fails once; {}", show(&l)));
        for on in [false, true] {
            for root in [false, true] {
                let mut j = 1;
                loop {
                    let s: Store<H, _> = Store::new();
                    let mut t = sum::MerkleTree::<Tab<H, _>, Store<H, _>>::new(s.clone());
                    for (f, d) in &l[..n as usize] {
                        t.push(*f, d).map_err(|e| format!("push failed: {e:?}"))?;
                    }
                    s.arm(j, on);
                    let (r, what) = if root {
                        (t.root().map(|_| ()), "root")
                    } else {
                        (t.push(l[n as usize].0, &l[n as usize].1), "push")
                    };
                    c.tick();
                    match (&r, s.failed()) {
                        (Ok(_), 0) => break,
                        (Ok(_), _) => return Err(format!("{what} after {n} pushes succeeded although storage call {j} failed")),
                        (Err(e), 0) => return Err(format!("{what} after {n} pushes returned {e:?}, but no storage call failed")),
                        (Err(_), _) => {}
                    }
                    j += 1;
                }
            }
        }
        Ok(())
    });
}

//! Positions and paths: C11, C12; and StorageMap: C15.
use crate::ck;
use crate::oracle::ix;
use crate::store::{Op, Tab};
use crate::util::*;
use fuel_merkle::common::{AsPathIterator, Node, ParentNode, Position, StorageMap};
use fuel_merkle::storage::{Mappable, StorageInspect, StorageInspectInfallible, StorageMutate, StorageMutateInfallible};
use std::borrow::Cow;
use std::collections::BTreeMap;

fn p(i: u64) -> Position {
    Position::from_in_order_index(i)
}

fn check_pos(c: &mut Case, i: u64) -> Result<(), String> {
    let q = p(i);
    ck!(c, q.in_order_index() == i, "in_order_index of {i} is {}", q.in_order_index());
    let h = i.trailing_ones();
    ck!(c, q.height() == h, "height of {i} is {} instead of {h}", q.height());
    ck!(c, Node::height(&q) == h, "trait height of {i}");
    ck!(c, q.is_leaf() == (i % 2 == 0) && q.is_node() == (i % 2 == 1), "leaf/node of {i}");
    ck!(c, Node::is_leaf(&q) == (i % 2 == 0) && Node::is_node(&q) == (i % 2 == 1), "trait leaf/node of {i}");
    if h >= 64 {
        return Ok(());
    }
    let k = ((i as u128 + 1) >> (h + 1)) as u64;
    ck!(c, ix(h, k) == i, "oracle");
    if h == 0 {
        ck!(c, q.leaf_index() == k, "leaf index of {i} is {}", q.leaf_index());
        ck!(c, Position::from_leaf_index(k) == q, "from_leaf_index({k}) is {:?}", Position::from_leaf_index(k));
        ck!(c, Node::leaf_key(&q) == k.to_be_bytes(), "leaf key of {i}");
    }
    // the parent of (62, 1) is the one case where the 64-bit indices do not suffice
    if h <= 61 || (h == 62 && k == 0) {
        ck!(c, q.parent() == p(ix(h + 1, k / 2)), "parent of {i} is {:?} instead of {}", q.parent(), ix(h + 1, k / 2));
    }
    if h <= 61 {
        ck!(c, q.sibling() == p(ix(h, k ^ 1)), "sibling of {i} is {:?} instead of {}", q.sibling(), ix(h, k ^ 1));
    }
    if h <= 60 {
        ck!(c, q.uncle() == p(ix(h + 1, (k / 2) ^ 1)), "uncle of {i} is {:?} instead of {}", q.uncle(), ix(h + 1, (k / 2) ^ 1));
    }
    if h >= 1 && h <= 62 {
        ck!(c, q.left_child() == p(ix(h - 1, 2 * k)), "left child of {i} is {:?} instead of {}", q.left_child(), ix(h - 1, 2 * k));
        ck!(c, q.right_child() == p(ix(h - 1, 2 * k + 1)), "right child of {i} is {:?} instead of {}", q.right_child(), ix(h - 1, 2 * k + 1));
        ck!(c, matches!(ParentNode::left_child(&q), Ok(x) if x == q.left_child()), "trait left child of {i}");
        ck!(c, matches!(ParentNode::right_child(&q), Ok(x) if x == q.right_child()), "trait right child of {i}");
    }
    Ok(())
}

pub fn c11(x: &mut Ctx) {
    x.run("small-indices", Some(64), 0., |n, _, c| {
        c.describe(format!("all indices from {} to {}", n * 1024, n * 1024 + 1023));
        for i in n * 1024..(n + 1) * 1024 {
            check_pos(c, i)?;
        }
        Ok(())
    });
    x.run("each-height", Some(64), 0., |h, rng, c| {
        c.describe(format!("positions of height {h}: smallest, largest and random offsets"));
        let h = h as u32;
        let kmax = if h == 0 { u64::MAX >> 1 } else { (u64::MAX >> h) >> 1 };
        let mut ks = vec![0, 1, 2, 3, kmax, kmax.saturating_sub(1), kmax.saturating_sub(2), kmax / 2, kmax / 2 + 1];
        for _ in 0..200 {
            ks.push(rng.u64());
        }
        for k in ks {
            check_pos(c, ix(h, k & kmax))?;
        }
        check_pos(c, u64::MAX)
    });
    x.run("random", None, 0.6, |_, rng, c| {
        let i = rng.wild(64);
        c.describe(format!("around index {i}"));
        for d in 0..40u64 {
            check_pos(c, i.wrapping_add(d * d).wrapping_sub(7))?;
            let j = rng.wild(64);
            check_pos(c, j)?;
        }
        Ok(())
    });
}

/// top position of the part of the subtree (h, k) that exists in a tree of n leaves
fn top(mut h: u32, mut k: u64, n: u64) -> (u32, u64) {
    while h > 0 && ((2 * k as u128 + 1) << (h - 1)) >= n as u128 {
        h -= 1;
        k *= 2;
    }
    (h, k)
}

fn want_path(root_h: u32, i: u64, n: u64) -> Vec<(u64, u64)> {
    let (mut h, mut k) = top(root_h, 0, n);
    let mut out = vec![(ix(h, k), ix(h, k))];
    while h > 0 {
        let b = i >> (h - 1) & 1;
        let a = top(h - 1, 2 * k + b, n);
        let s = top(h - 1, 2 * k + 1 - b, n);
        out.push((ix(a.0, a.1), ix(s.0, s.1)));
        (h, k) = a;
    }
    out
}

/// the iterator gives `w` however it is consumed
fn ways<I: Iterator>(mk: impl Fn() -> I, show: impl Fn(I::Item) -> (u64, u64), w: &[(u64, u64)]) -> Result<(), String> {
    let n = w.len();
    let all = |v: Vec<I::Item>| v.into_iter().map(&show).collect::<Vec<_>>();
    let bad = |how: &str| Err(format!("the path differs when it is consumed with {how}: it should be {w:?}"));
    if all(mk().collect()) != w {
        return bad("collect");
    }
    let mut v = vec![];
    mk().for_each(|x| v.push(show(x)));
    if v != w {
        return bad("for_each");
    }
    if mk().count() != n {
        return bad("count");
    }
    if mk().last().map(&show) != w.last().copied() {
        return bad("last");
    }
    let (lo, hi) = mk().size_hint();
    if lo > n || hi.map_or(false, |h| h < n) {
        return Err(format!("size_hint of a path of {n} is ({lo}, {hi:?})"));
    }
    for k in [0, 1, 2, 3, n / 2, n.saturating_sub(1), n, n + 1] {
        let mut it = mk();
        if it.nth(k).map(&show) != w.get(k).copied() {
            return bad(&format!("nth({k})"));
        }
        if all(it.collect()) != w[(k + 1).min(n)..] {
            return bad(&format!("nth({k}), collect"));
        }
        if all(mk().skip(k).collect()) != w[k.min(n)..] {
            return bad(&format!("skip({k})"));
        }
        let mut it = mk();
        if all(it.by_ref().take(k).collect()) != w[..k.min(n)] || all(it.collect()) != w[k.min(n)..] {
            return bad(&format!("take({k}), then the rest"));
        }
        if k > 0 && all(mk().step_by(k).collect()) != w.iter().copied().step_by(k).collect::<Vec<_>>() {
            return bad(&format!("step_by({k})"));
        }
        if let Some(x) = w.get(k) {
            let mut it = mk();
            if it.position(|y| show(y) == *x) != w.iter().position(|y| y == x) {
                return bad("position");
            }
        }
    }
    let (a, b): (Vec<u64>, Vec<u64>) = mk().map(&show).unzip();
    if a.into_iter().zip(b).collect::<Vec<_>>() != w {
        return bad("unzip");
    }
    Ok(())
}

fn check_path(c: &mut Case, root_h: u32, i: u64, n: u64) -> Result<(), String> {
    let w = want_path(root_h, i, n);
    let g: Vec<(u64, u64)> = p(ix(root_h, 0))
        .path(&Position::from_leaf_index(i), n)
        .iter()
        .take(200)
        .map(|(a, b)| (a.in_order_index(), b.in_order_index()))
        .collect();
    ck!(c, g == w, "path from the root of height {root_h} to leaf {i} of {n}: {g:?} instead of {w:?}");
    let q = p(ix(root_h, 0));
    let l = Position::from_leaf_index(i);
    ways(|| q.path(&l, n).iter(), |(a, b)| (a.in_order_index(), b.in_order_index()), &w).map_err(|e| format!("path from the root of height {root_h} to leaf {i} of {n}: {e}"))
}

fn check_iter(c: &mut Case, root_h: u32, i: u64) -> Result<(), String> {
    let mut w = vec![(ix(root_h, 0), ix(root_h, 0))];
    for h in (0..root_h).rev() {
        let k = i >> h;
        w.push((ix(h, k), ix(h, k ^ 1)));
    }
    let mut g = vec![];
    for (a, b) in p(ix(root_h, 0)).as_path_iter(&Position::from_leaf_index(i)).take(200) {
        match (a, b) {
            (Ok(a), Ok(b)) => g.push((a.in_order_index(), b.in_order_index())),
            _ => return Err(format!("path iterator from height {root_h} to leaf {i} yields an error")),
        }
    }
    ck!(c, g == w, "path iterator from height {root_h} to leaf {i}: {g:?} instead of {w:?}");
    let q = p(ix(root_h, 0));
    let l = Position::from_leaf_index(i);
    let show = |(a, b): (_, _)| match (a, b) {
        (Ok::<Position, _>(a), Ok::<Position, _>(b)) => (a.in_order_index(), b.in_order_index()),
        _ => (u64::MAX, u64::MAX),
    };
    ways(|| q.as_path_iter(&l), show, &w).map_err(|e| format!("path iterator from height {root_h} to leaf {i}: {e}"))
}

fn height_for(n: u64) -> u32 {
    if n <= 1 { 0 } else { 64 - (n - 1).leading_zeros() }
}

pub fn c12(x: &mut Ctx) {
    x.run("small-trees", Some(130), 0., |n, _, c| {
        if n == 0 {
            c.trivial = true;
            return Ok(());
        }
        c.describe(format!("all leaves of a tree of {n} leaves, roots of every height up to 62"));
        let h0 = height_for(n);
        for i in 0..n {
            for h in (h0..h0 + 4).chain([20, 32, 33, 61, 62]) {
                check_path(c, h, i, n)?;
                check_iter(c, h, i)?;
            }
        }
        Ok(())
    });
    x.run("random", None, 1.0, |_, rng, c| {
        let n = rng.wild(62).max(1).min((1 << 62) - 1);
        let h0 = height_for(n);
        c.describe(format!("tree of {n} leaves"));
        for _ in 0..10 {
            let i = match rng.below(5) {
                0 => n - 1,
                1 => 0,
                2 => n - 1 - rng.below(n.min(5)),
                3 => (n >> rng.below(62) << rng.below(10)).min(n - 1),
                _ => rng.below(n),
            };
            check_path(c, h0, i, n)?;
            let h = rng.range(h0 as u64, 62) as u32;
            check_path(c, h, i, n)?;
            check_iter(c, h, i)?;
        }
        Ok(())
    });
}

// ---- StorageMap ----

#[derive(Debug)]
struct Boxed;
#[derive(Debug, Clone, PartialEq, Eq)]
struct Wrapped(Vec<u8>);
impl From<[u8; 4]> for Wrapped {
    fn from(x: [u8; 4]) -> Self {
        Wrapped(x.iter().rev().map(|b| b ^ 0x55).collect())
    }
}
impl Mappable for Boxed {
    type Key = String;
    type SetValue = [u8; 4];
    type GetValue = Wrapped;
}

/// an infallible storage that records what it is asked
#[derive(Default)]
struct Rec {
    map: BTreeMap<u64, u64>,
    log: std::cell::RefCell<Vec<Op<u64>>>,
}
impl StorageInspect<Tab<u64, u64>> for Rec {
    type Error = core::convert::Infallible;
    fn get(&self, k: &u64) -> Result<Option<Cow<'_, u64>>, Self::Error> {
        self.log.borrow_mut().push(Op::Get(*k));
        Ok(self.map.get(k).map(Cow::Borrowed))
    }
    fn contains_key(&self, k: &u64) -> Result<bool, Self::Error> {
        self.log.borrow_mut().push(Op::Has(*k));
        Ok(self.map.contains_key(k))
    }
}
impl StorageMutate<Tab<u64, u64>> for Rec {
    fn insert(&mut self, k: &u64, v: &u64) -> Result<Option<u64>, Self::Error> {
        self.log.borrow_mut().push(Op::Put(*k));
        Ok(self.map.insert(*k, *v))
    }
    fn remove(&mut self, k: &u64) -> Result<Option<u64>, Self::Error> {
        self.log.borrow_mut().push(Op::Del(*k));
        Ok(self.map.remove(k))
    }
}

fn drive<S>(c: &mut Case, rng: &mut Rng, s: &mut S, len: u64, uni: u64, what: &str) -> Result<(), String>
where
    S: StorageMutate<Tab<u64, u64>, Error = core::convert::Infallible>,
{
    let mut m: BTreeMap<u64, u64> = BTreeMap::new();
    let mut hist = String::new();
    for step in 0..len {
        let k = rng.below(uni);
        let v = rng.below(5);
        let inf = rng.chance(1, 2);
        let op = rng.below(6);
        match op {
            0 | 1 | 2 => {
                hist.push_str(&format!(" insert({k},{v})"));
                let r = if inf { StorageMutateInfallible::<Tab<u64, u64>>::insert(s, &k, &v) } else { StorageMutate::insert(s, &k, &v).unwrap() };
                let w = m.insert(k, v);
                ck!(c, r == w, "{what}: insert({k},{v}) returned {r:?} instead of {w:?} after{hist}");
            }
            3 => {
                hist.push_str(&format!(" remove({k})"));
                let r = if inf { StorageMutateInfallible::<Tab<u64, u64>>::remove(s, &k) } else { StorageMutate::remove(s, &k).unwrap() };
                let w = m.remove(&k);
                ck!(c, r == w, "{what}: remove({k}) returned {r:?} instead of {w:?} after{hist}");
            }
            _ => {}
        }
        if len < 200 || step + 1 == len {
            for k in 0..uni {
                let g = if inf {
                    StorageInspectInfallible::<Tab<u64, u64>>::get(s, &k).map(|x| *x)
                } else {
                    StorageInspect::get(s, &k).unwrap().map(|x| *x)
                };
                ck!(c, g == m.get(&k).copied(), "{what}: get({k}) is {g:?} instead of {:?} after{hist}", m.get(&k));
                let b = if inf { StorageInspectInfallible::<Tab<u64, u64>>::contains_key(s, &k) } else { StorageInspect::contains_key(s, &k).unwrap() };
                ck!(c, b == m.contains_key(&k), "{what}: contains_key({k}) is {b} after{hist}");
            }
        }
    }
    Ok(())
}

pub fn c15(x: &mut Ctx) {
    x.run("histories", None, 1.0, |i, rng, c| {
        let uni = rng.range(1, 6);
        let len = if i % 16 == 15 { 3000 } else { rng.range(1, 40) };
        c.describe(format!("history of {len} random operations on {uni} keys (case {i})"));
        let mut s = if i % 2 == 0 { StorageMap::<Tab<u64, u64>>::new() } else { StorageMap::default() };
        drive(c, rng, &mut s, len, uni, "StorageMap")?;
        let mut r = Rec::default();
        drive(c, rng, &mut r, len, uni, "wrapper")?;
        // the wrappers make exactly the call they stand for
        let mut r = Rec::default();
        StorageMutateInfallible::<Tab<u64, u64>>::insert(&mut r, &1, &2);
        StorageInspectInfallible::<Tab<u64, u64>>::get(&r, &1);
        StorageInspectInfallible::<Tab<u64, u64>>::contains_key(&r, &3);
        StorageMutateInfallible::<Tab<u64, u64>>::remove(&mut r, &4);
        let l = r.log.borrow().clone();
        ck!(c, l.last() == Some(&Op::Del(4)) && r.map.get(&1) == Some(&2), "wrapper calls: {l:?}");
        // distinct set and get types, string keys
        let mut s = StorageMap::<Boxed>::new();
        let mut m: BTreeMap<String, Wrapped> = BTreeMap::new();
        for _ in 0..len.min(30) {
            let k = "k".repeat(rng.below(4) as usize);
            let v = (rng.u64() as u32).to_be_bytes();
            if rng.chance(2, 3) {
                let r = StorageMutate::<Boxed>::insert(&mut s, &k, &v).unwrap();
                ck!(c, r == m.insert(k.clone(), v.into()), "insert({k:?}) returned {r:?}");
            } else {
                let r = StorageMutate::<Boxed>::remove(&mut s, &k).unwrap();
                ck!(c, r == m.remove(&k), "remove({k:?}) returned {r:?}");
            }
            for n in 0..4 {
                let k = "k".repeat(n);
                let g = StorageInspect::<Boxed>::get(&s, &k).unwrap().map(|x| x.into_owned());
                ck!(c, g.as_ref() == m.get(&k), "get({k:?}) is {g:?}");
                let b = StorageInspect::<Boxed>::contains_key(&s, &k).unwrap();
                ck!(c, b == m.contains_key(&k), "contains_key({k:?}) is {b}");
            }
        }
        Ok(())
    });
}

//! Binary tree searches: C01-C05, and the binary parts of C16 and C17.
use crate::ck;
use crate::oracle::*;
use crate::store::*;
use crate::util::*;
use fuel_merkle::{binary, common::StorageMap};
use fuel_storage::StorageInspect;
use std::collections::BTreeMap;

type Prim = (u64, H);
type BTab = Tab<u64, Prim>;
type BStore = Store<u64, Prim>;
type Tree<S> = binary::MerkleTree<BTab, S>;

fn datas(rng: &mut Rng, n: u64) -> Vec<Vec<u8>> {
    match rng.below(4) {
        0 => {
            let d = rng.data();
            (0..n).map(|_| d.clone()).collect()
        }
        1 => (0..n).map(|i| i.to_be_bytes().to_vec()).collect(),
        _ => (0..n).map(|_| rng.data()).collect(),
    }
}
fn hashes(d: &[Vec<u8>]) -> Vec<H> {
    d.iter().map(|x| leaf(x)).collect()
}
fn root_of(l: &[H]) -> H {
    mth(&VecLeaves(l), 0, l.len() as u64)
}
fn filled(d: &[Vec<u8>]) -> Result<(Tree<BStore>, BStore), String> {
    let s = BStore::new();
    let mut t = Tree::new(s.clone());
    for x in d {
        t.push(x).map_err(|e| format!("push failed: {e:?}"))?;
    }
    Ok((t, s))
}

/// storage that already holds every complete subtree of n0 made-up leaves
fn synth_store(n0: u64, salt: u64, missing: Vec<u64>) -> BStore {
    let sy = Synth { n0, salt, more: vec![] };
    Store::with_base(move |k: &u64| {
        let h = k.trailing_ones();
        if h >= 63 {
            return None;
        }
        let off = k >> (h + 1);
        if sy.is_old(h, off) && !missing.contains(k) { Some((*k, sy.made_up(h, off))) } else { None }
    })
}
fn big_n(rng: &mut Rng) -> u64 {
    rng.wild(61).max(1)
}
fn index_of(rng: &mut Rng, n: u64) -> u64 {
    if let Some(i) = rng.word(1, 5, n - 1) {
        return i;
    }
    match rng.below(6) {
        0 => n - 1,
        1 => 0,
        2 => n - 1 - rng.below(n.min(4)),
        3 => {
            // just around a peak boundary
            let p = peaks(n);
            let (h, k) = p[rng.below(p.len() as u64) as usize];
            let a = k << h;
            let b = a + (1 << h) - 1;
            [a, b, a.saturating_sub(1)][rng.below(3) as usize]
        }
        _ => rng.below(n),
    }
}

struct Big {
    t: Tree<BStore>,
    s: BStore,
    o: Synth,
    n: u64,
}
fn big(rng: &mut Rng, c: &mut Case, what: &str, maxpush: u64) -> Result<Big, String> {
    let n0 = big_n(rng);
    let salt = rng.u64();
    let m = rng.below(maxpush + 1);
    c.describe(format!("{what}: tree of {n0} made-up leaves (salt {salt}) loaded from storage, then {m} pushes"));
    let s = synth_store(n0, salt, vec![]);
    let mut t = Tree::load(s.clone(), n0).map_err(|e| format!("load({n0}) failed: {e:?}"))?;
    let mut o = Synth { n0, salt, more: vec![] };
    for _ in 0..m {
        let d = rng.data();
        t.push(&d).map_err(|e| format!("push failed: {e:?}"))?;
        o.more.push(leaf(&d));
    }
    Ok(Big { t, s, o, n: n0 + m })
}

/// sizes of trees that are pushed leaf by leaf
pub const MANY: [u64; 8] = [(1 << 18) + 7, (1 << 17) + 3, (1 << 18) - 1, 3 << 16, (1 << 16) + 1, 100_003, 65_535, 199_999];

/// a tree of many leaves, checked against the complete subtrees kept on the way
fn many(i: u64, rng: &mut Rng, c: &mut Case, what: &str) -> Result<(), String> {
    let n = rng.word(1, 3, 400_000).filter(|n| *n > 300).unwrap_or(MANY[i as usize]);
    let salt = rng.u64();
    c.describe(format!("{n} leaves, the 8-byte numbers from {salt}"));
    let mut s = StorageMap::<BTab>::new();
    let mut l: Vec<H> = vec![];
    let root;
    {
        let mut t = binary::MerkleTree::<BTab, _>::new(&mut s);
        for j in 0..n {
            let d = (salt.wrapping_add(j)).to_be_bytes();
            t.push(&d).map_err(|e| format!("push failed: {e:?}"))?;
            l.push(leaf(&d));
        }
        root = t.root();
    }
    // all levels of complete subtrees
    let mut lv = vec![l];
    while lv.last().unwrap().len() > 1 {
        let up = lv.last().unwrap().chunks_exact(2).map(|p| node(&p[0], &p[1])).collect();
        lv.push(up);
    }
    let w = mth(&Levels(&lv), 0, n);
    if what == "root" {
        ck!(c, root == w, "root of {n} leaves is {} but RFC 6962 says {}", hex(&root), hex(&w));
    }
    if what == "storage" {
        for (h, v) in lv.iter().enumerate() {
            for (k, x) in v.iter().enumerate() {
                let key = ix(h as u32, k as u64);
                let g = s.get(&key).unwrap().map(|g| g.into_owned());
                ck!(c, g == Some((key, *x)), "{n} leaves: key {key} holds {:?}", g.map(|g| (g.0, hex(&g.1))));
            }
        }
    }
    for _ in 0..20 {
        if what == "load" {
            let m = n - rng.wild(17).min(n - 1);
            let t = binary::MerkleTree::<BTab, _>::load(&mut s, m).map_err(|e| format!("load({m}) after {n} pushes failed: {e:?}"))?;
            let r = t.root();
            ck!(c, r == mth(&Levels(&lv), 0, m), "{n} leaves, reloaded with {m}: root {}", hex(&r));
        }
        if what == "proof" {
            let t = binary::MerkleTree::<BTab, _>::load(&mut s, n).map_err(|e| format!("load({n}) after {n} pushes failed: {e:?}"))?;
            let i = index_of(rng, n);
            let (r, p) = t.prove(i).map_err(|e| format!("prove({i}) of {n} leaves failed: {e:?}"))?;
            let mut wp = vec![lv[0][i as usize]];
            wp.extend(audit(&Levels(&lv), 0, n, i));
            ck!(c, r == w && p == wp, "proof of leaf {i} of {n} leaves is wrong");
        }
    }
    Ok(())
}

pub fn c01(x: &mut Ctx) {
    x.run("many", Some(8), 0., |i, rng, c| many(i, rng, c, "root"));
    x.run("every-count", Some(140), 0., |i, rng, c| {
        let d = datas(rng, i);
        let l = hashes(&d);
        c.describe(format!("{i} leaves {:?}, root asked {} times in between", d.iter().take(4).map(|v| sh(v)).collect::<Vec<_>>(), i % 3));
        let want = root_of(&l);
        let (t, s) = filled(&d)?;
        let before = s.map();
        let r1 = t.root();
        let r2 = t.root();
        ck!(c, r1 == want, "root of {i} leaves is {} but RFC 6962 says {}", hex(&r1), hex(&want));
        ck!(c, r2 == r1, "asking twice changed the root");
        ck!(c, s.map() == before, "asking for the root changed the storage");
        // through StorageMap, with root queries in between
        let mut sm = StorageMap::<BTab>::new();
        let mut t = binary::MerkleTree::<BTab, _>::new(&mut sm);
        for (j, v) in d.iter().enumerate() {
            t.push(v).map_err(|e| format!("push failed: {e:?}"))?;
            if i % 3 != 0 && j as u64 % (i % 3) == 0 {
                let r = t.root();
                ck!(c, r == root_of(&l[..j + 1]), "root after {} of {i} pushes is {}", j + 1, hex(&r));
            }
        }
        let r = t.root();
        ck!(c, r == want, "StorageMap: root of {i} leaves is {} but RFC 6962 says {}", hex(&r), hex(&want));
        Ok(())
    });
    x.run("leaf-length", Some(LENGTHS), 0., |i, rng, c| {
        let n = length(i, rng);
        let d = [rng.bytes(n), rng.data()];
        c.describe(format!("leaves of {n} and {} bytes", d[1].len()));
        let l = hashes(&d);
        let (t, _) = filled(&d)?;
        ck!(c, t.root() == root_of(&l), "root of leaves of {n} and {} bytes is wrong", d[1].len());
        let (t, _) = filled(&d[..1])?;
        ck!(c, t.root() == l[0], "root of one leaf of {n} bytes is wrong");
        Ok(())
    });
    x.run("huge-count", None, 0.6, |_, rng, c| {
        let b = big(rng, c, "root", 20)?;
        let r = b.t.root();
        let want = mth(&b.o, 0, b.n);
        ck!(c, r == want, "root of {} leaves is {} but RFC 6962 says {}", b.n, hex(&r), hex(&want));
        Ok(())
    });
    x.run("random-count", None, 0.4, |_, rng, c| {
        let n = rng.range(100, 1500);
        let d = datas(rng, n);
        let l = hashes(&d);
        c.describe(format!("{n} leaves, first {}", sh(&d[0])));
        let (t, _) = filled(&d)?;
        let r = t.root();
        ck!(c, r == root_of(&l), "root of {n} leaves is {} but RFC 6962 says {}", hex(&r), hex(&root_of(&l)));
        Ok(())
    });
}

fn check_proof<S>(c: &mut Case, t: &Tree<S>, o: &dyn Leaves, n: u64, i: u64, real: bool) -> Result<(), String>
where
    S: fuel_storage::StorageInspect<BTab>,
    S::Error: std::fmt::Debug,
{
    let want = mth(o, 0, n);
    let (r, p) = t.prove(i).map_err(|e| format!("prove({i}) of {n} leaves failed: {e:?}"))?;
    ck!(c, r == want, "prove({i}) of {n} leaves: root {} instead of {}", hex(&r), hex(&want));
    let mut wp = vec![o.complete(0, i)];
    wp.extend(audit(o, 0, n, i));
    ck!(c, p == wp, "prove({i}) of {n} leaves: proof {:?} instead of {:?}", p.iter().map(|h| hex(&h[..4])).collect::<Vec<_>>(), wp.iter().map(|h| hex(&h[..4])).collect::<Vec<_>>());
    // (made-up subtrees do not hash together)
    let f = if !real { Some(want) } else { fold(&p[0], &p[1..], i, n) };
    ck!(c, f == Some(want), "prove({i}) of {n} leaves does not fold to the root");
    Ok(())
}

pub fn c02(x: &mut Ctx) {
    x.run("many", Some(8), 0., |i, rng, c| many(i, rng, c, "proof"));
    x.run("every-index", Some(72), 0., |n, rng, c| {
        let d = datas(rng, n);
        let l = hashes(&d);
        c.describe(format!("{n} leaves, every index"));
        let (t, _) = filled(&d)?;
        for i in 0..n {
            check_proof(c, &t, &VecLeaves(&l), n, i, true)?;
        }
        Ok(())
    });
    x.run("huge", None, 0.7, |_, rng, c| {
        let b = big(rng, c, "prove", 12)?;
        for _ in 0..6 {
            let i = index_of(rng, b.n);
            check_proof(c, &b.t, &b.o, b.n, i, false)?;
        }
        Ok(())
    });
    x.run("random", None, 0.3, |_, rng, c| {
        let n = rng.range(64, 700);
        let d = datas(rng, n);
        let l = hashes(&d);
        c.describe(format!("{n} leaves, first {}", sh(&d[0])));
        let (t, _) = filled(&d)?;
        for _ in 0..8 {
            check_proof(c, &t, &VecLeaves(&l), n, index_of(rng, n), true)?;
        }
        Ok(())
    });
}

pub fn c03(x: &mut Ctx) {
    let outside = |rng: &mut Rng, n: u64| -> u64 {
        let i = match rng.below(6) {
            0 => n,
            1 => n + rng.below(3),
            2 => u64::MAX - rng.below(3),
            3 => n | 1 << rng.below(64),
            _ => rng.wild(64),
        };
        i.max(n)
    };
    let bad = move |c: &mut Case, r: Result<(H, Vec<H>), binary::MerkleTreeError<Injected>>, n: u64, i: u64| -> Result<(), String> {
        c.tick();
        match r {
            Err(binary::MerkleTreeError::InvalidProofIndex(j)) if j == i => Ok(()),
            Err(e) => Err(format!("prove({i}) of {n} leaves: {e:?} instead of InvalidProofIndex({i})")),
            Ok(_) => Err(format!("prove({i}) of {n} leaves succeeded")),
        }
    };
    x.run("every-count", Some(70), 0., |n, rng, c| {
        let d = datas(rng, n);
        c.describe(format!("{n} leaves: indices n..n+70, powers of two, u64::MAX; and every valid index"));
        let (t, _) = filled(&d)?;
        let mut m = binary::in_memory::MerkleTree::new();
        for v in &d {
            m.push(v);
        }
        let mut ix: Vec<u64> = (n..n + 70).collect();
        ix.extend((0..64).map(|b| 1u64 << b).filter(|i| *i >= n));
        ix.extend([u64::MAX, u64::MAX - 1, u64::MAX / 2, u64::MAX / 2 + 1]);
        for i in ix {
            bad(c, t.prove(i), n, i)?;
            ck!(c, m.prove(i).is_none(), "in-memory prove({i}) of {n} leaves is not None");
        }
        for i in 0..n {
            c.tick();
            if let Err(e) = t.prove(i) {
                return Err(format!("prove({i}) of {n} leaves: {e:?}"));
            }
            ck!(c, m.prove(i).is_some(), "in-memory prove({i}) of {n} leaves is None");
        }
        Ok(())
    });
    x.run("huge", None, 1.0, |_, rng, c| {
        let b = big(rng, c, "invalid index", 6)?;
        for _ in 0..12 {
            let i = outside(rng, b.n);
            bad(c, b.t.prove(i), b.n, i)?;
        }
        let i = index_of(rng, b.n);
        c.tick();
        if let Err(e) = b.t.prove(i) {
            return Err(format!("prove({i}) of {} leaves: {e:?}", b.n));
        }
        Ok(())
    });
}

pub fn c04(x: &mut Ctx) {
    x.run("many", Some(8), 0., |i, rng, c| many(i, rng, c, "load"));
    x.run("diverge", Some(300), 0., |i, rng, c| {
        let n = rng.range(1, 20 + i / 6);
        let m = rng.below(n + 1);
        let d = datas(rng, n);
        let (_, s) = filled(&d)?;
        let mut l = hashes(&d[..m as usize]);
        c.describe(format!("{n} leaves, reloaded with count {m}, then other leaves, proved and reloaded again"));
        let mut t = Tree::load(s.clone(), m).map_err(|e| format!("load({m}) after {n} pushes failed: {e:?}"))?;
        for _ in 0..rng.range(1, 12) {
            let v = rng.data();
            t.push(&v).map_err(|e| format!("push failed: {e:?}"))?;
            l.push(leaf(&v));
            let k = l.len() as u64;
            check_proof(c, &t, &VecLeaves(&l), k, rng.below(k), true)?;
            let u = Tree::load(s.clone(), k).map_err(|e| format!("load({k}) failed: {e:?}"))?;
            check_proof(c, &u, &VecLeaves(&l), k, rng.below(k), true)?;
        }
        Ok(())
    });
    x.run("every-prefix", Some(70), 0., |n, rng, c| {
        let d = datas(rng, n + 6);
        let l = hashes(&d);
        c.describe(format!("{n} leaves, reloaded with every count up to {n}, then 6 more pushes"));
        let (_, s) = filled(&d[..n as usize])?;
        for m in 0..=n {
            let s2 = Store::of(s.map());
            let mut t = Tree::load(s2.clone(), m).map_err(|e| format!("load({m}) after {n} pushes failed: {e:?}"))?;
            let r = t.root();
            ck!(c, r == root_of(&l[..m as usize]), "load({m}) after {n} pushes: root {}", hex(&r));
            if m == n || m % 5 == 0 {
                for i in 0..m {
                    check_proof(c, &t, &VecLeaves(&l[..m as usize]), m, i, true)?;
                }
            }
            if m == n {
                for j in 0..6 {
                    let k = (m + j) as usize;
                    t.push(&d[k]).map_err(|e| format!("push after load({m}) failed: {e:?}"))?;
                    let r = t.root();
                    ck!(c, r == root_of(&l[..k + 1]), "load({m}) then {} pushes: root {}", j + 1, hex(&r));
                    check_proof(c, &t, &VecLeaves(&l[..k + 1]), k as u64 + 1, rng.below(k as u64 + 1), true)?;
                }
                let (_, full) = filled(&d)?;
                ck!(c, full.map() == s2.map(), "storage after load({m}) and 6 pushes differs from the storage of {} pushes", n + 6);
            }
        }
        // a missing peak is reported
        for (h, k) in peaks(n) {
            let mut m = s.map();
            m.remove(&ix(h, k));
            c.tick();
            match Tree::load(Store::of(m), n) {
                Err(binary::MerkleTreeError::LoadError(_)) => {}
                Err(e) => return Err(format!("load({n}) without node {}: {e:?} instead of a load error", ix(h, k))),
                Ok(_) => return Err(format!("load({n}) without node {} succeeded", ix(h, k))),
            }
        }
        Ok(())
    });
    x.run("huge", None, 0.6, |_, rng, c| {
        let mut b = big(rng, c, "reload", 8)?;
        let mut t = Tree::load(b.s.clone(), b.n).map_err(|e| format!("load({}) failed: {e:?}", b.n))?;
        let r = t.root();
        ck!(c, r == mth(&b.o, 0, b.n), "load({}): root {}", b.n, hex(&r));
        let m = rng.range(1, b.n);
        let t2 = Tree::load(b.s.clone(), m).map_err(|e| format!("load({m}) failed: {e:?}"))?;
        if m <= b.o.n0 {
            // peaks of the shorter tree
            let p = peaks(m);
            let mut it = p.iter().rev();
            let (h, k) = it.next().unwrap();
            let mut w = b.o.complete(*h, *k);
            for (h, k) in it {
                w = node(&b.o.complete(*h, *k), &w);
            }
            let r = t2.root();
            ck!(c, r == w, "load({m}) of a tree of {}: root {} instead of {}", b.n, hex(&r), hex(&w));
        }
        for _ in 0..4 {
            let d = rng.data();
            t.push(&d).map_err(|e| format!("push after load failed: {e:?}"))?;
            b.o.more.push(leaf(&d));
            b.n += 1;
            let r = t.root();
            ck!(c, r == mth(&b.o, 0, b.n), "load, then pushes up to {}: root {}", b.n, hex(&r));
            check_proof(c, &t, &b.o, b.n, index_of(rng, b.n), false)?;
        }
        Ok(())
    });
    x.run("huge-missing", None, 0.4, |_, rng, c| {
        let n = big_n(rng);
        let p = peaks(n);
        let (h, k) = p[rng.below(p.len() as u64) as usize];
        c.describe(format!("load({n}) with the node of height {h}, offset {k} (key {}) missing", ix(h, k)));
        let s = synth_store(n, 1, vec![ix(h, k)]);
        c.tick();
        match Tree::load(s, n) {
            Err(binary::MerkleTreeError::LoadError(_)) => Ok(()),
            Err(e) => Err(format!("{e:?} instead of a load error")),
            Ok(_) => Err("load succeeded".into()),
        }
    });
}

fn want_store(l: &[H]) -> BTreeMap<u64, Prim> {
    complete_nodes(l.len() as u64).into_iter().map(|(h, k)| (ix(h, k), (ix(h, k), VecLeaves(l).complete(h, k)))).collect()
}
fn first_diff(got: &BTreeMap<u64, Prim>, want: &BTreeMap<u64, Prim>) -> String {
    for (k, v) in want {
        match got.get(k) {
            None => return format!("key {k} is missing"),
            Some(g) if g != v => return format!("key {k} holds ({}, {}) instead of ({}, {})", g.0, hex(&g.1), v.0, hex(&v.1)),
            _ => {}
        }
    }
    for k in got.keys() {
        if !want.contains_key(k) {
            return format!("unexpected key {k}");
        }
    }
    "equal".into()
}

/// a tree of n leaves is reloaded with the count m, and other leaves are pushed
fn diverge(rng: &mut Rng, c: &mut Case, n: u64, m: u64, p: u64) -> Result<(), String> {
    let d = datas(rng, n);
    let e: Vec<Vec<u8>> = (0..p).map(|i| if rng.chance(1, 5) && m + i < n { d[(m + i) as usize].clone() } else { rng.data() }).collect();
    c.describe(format!("{n} leaves, reloaded with count {m}, then {p} other leaves"));
    let (_, s) = filled(&d)?;
    let mut w = s.map();
    let mut l = hashes(&d[..m as usize]);
    let mut t = Tree::load(s.clone(), m).map_err(|e| format!("load({m}) after {n} pushes failed: {e:?}"))?;
    for (i, v) in e.iter().enumerate() {
        t.push(v).map_err(|e| format!("push failed: {e:?}"))?;
        let a = complete_nodes(l.len() as u64);
        l.push(leaf(v));
        for (h, k) in complete_nodes(l.len() as u64) {
            if !a.contains(&(h, k)) {
                w.insert(ix(h, k), (ix(h, k), VecLeaves(&l).complete(h, k)));
            }
        }
        let g = s.map();
        ck!(c, g == w, "{n} pushes, load({m}), then {} pushes: {}", i + 1, first_diff(&g, &w));
        ck!(c, t.root() == root_of(&l), "{n} pushes, load({m}), then {} pushes: root {}", i + 1, hex(&t.root()));
    }
    Ok(())
}

pub fn c05(x: &mut Ctx) {
    x.run("many", Some(8), 0., |i, rng, c| many(i, rng, c, "storage"));
    x.run("diverge-small", Some(20 * 20), 0., |i, rng, c| {
        let (n, m) = (i / 20, i % 20);
        if m > n {
            c.trivial = true;
            return Ok(());
        }
        diverge(rng, c, n, m, 7)
    });
    x.run("diverge", None, 0.3, |_, rng, c| {
        let n = rng.range(1, 150);
        let m = rng.below(n + 1);
        let p = rng.range(1, 20);
        diverge(rng, c, n, m, p)
    });
    x.run("every-push", Some(130), 0., |n, rng, c| {
        let d = datas(rng, n);
        let l = hashes(&d);
        c.describe(format!("{n} pushes onto a storage with unrelated entries"));
        let s = BStore::new();
        let junk: Vec<u64> = (0..3).map(|_| rng.range(1 << 40, u64::MAX)).collect();
        for j in &junk {
            s.0.borrow_mut().map.insert(*j, (7, [9; 32]));
        }
        let mut t = Tree::new(s.clone());
        for (i, v) in d.iter().enumerate() {
            t.push(v).map_err(|e| format!("push failed: {e:?}"))?;
            if n < 40 || i as u64 + 1 == n {
                let mut w = want_store(&l[..i + 1]);
                for j in &junk {
                    w.insert(*j, (7, [9; 32]));
                }
                let g = s.map();
                ck!(c, g == w, "after {} pushes: {}", i + 1, first_diff(&g, &w));
            }
        }
        Ok(())
    });
    x.run("huge", None, 1.0, |_, rng, c| {
        let b = big(rng, c, "storage", 40)?;
        let mut w = BTreeMap::new();
        for h in 0..63u32 {
            for k in (b.o.n0 >> h)..(b.n >> h) {
                w.insert(ix(h, k), (ix(h, k), b.o.complete(h, k)));
            }
        }
        let g = b.s.map();
        ck!(c, g == w, "{} leaves: {}", b.n, first_diff(&g, &w));
        let gone = b.s.gone();
        ck!(c, gone.is_none(), "{} leaves: the entry {:?} of earlier leaves was removed", b.n, gone);
        Ok(())
    });
}

fn surfaced<T>(c: &mut Case, s: &BStore, r: &Result<T, binary::MerkleTreeError<Injected>>, what: &str) -> Result<(), String> {
    c.tick();
    let failed = s.failed();
    match r {
        Ok(_) if failed > 0 => Err(format!("{what} succeeded although a storage call failed")),
        Err(e) if failed > 0 => match e {
            binary::MerkleTreeError::StorageError(_) => Ok(()),
            _ => Err(format!("{what} returned {e:?} instead of the storage error")),
        },
        Err(binary::MerkleTreeError::StorageError(e)) => Err(format!("{what} returned storage error {e:?}, but no storage call failed")),
        _ => Ok(()),
    }
}

pub fn c16(x: &mut Ctx) {
    x.run("binary-every-call", Some(70), 0., |n, rng, c| {
        let d = datas(rng, n + 1);
        c.describe(format!("binary tree of {n} leaves: every storage call of push, load and prove fails once"));
        let (_, s0) = filled(&d[..n as usize])?;
        let base = s0.map();
        for on in [false, true] {
            let mut j = 1;
            loop {
                let s = Store::of(base.clone());
                let mut t = Tree::load(s.clone(), n).map_err(|e| format!("load failed: {e:?}"))?;
                s.arm(j, on);
                let r = t.push(&d[n as usize]);
                surfaced(c, &s, &r, &format!("push onto {n} leaves with failing call {j}"))?;
                if s.failed() == 0 {
                    break;
                }
                j += 1;
            }
            let mut j = 1;
            loop {
                let s = Store::of(base.clone());
                s.arm(j, on);
                let r = Tree::load(s.clone(), n);
                surfaced(c, &s, &r, &format!("load({n}) with failing call {j}"))?;
                if s.failed() == 0 {
                    break;
                }
                j += 1;
            }
            for i in 0..n {
                if n > 20 && i % 7 != 0 && i + 1 != n {
                    continue;
                }
                let mut j = 1;
                let s = Store::of(base.clone());
                let t = Tree::load(s.clone(), n).map_err(|e| format!("load failed: {e:?}"))?;
                loop {
                    s.arm(j, on);
                    let r = t.prove(i);
                    surfaced(c, &s, &r, &format!("prove({i}) of {n} leaves with failing call {j}"))?;
                    if s.failed() == 0 {
                        break;
                    }
                    j += 1;
                }
            }
        }
        Ok(())
    });
}

pub fn c17(x: &mut Ctx) {
    x.run("binary-in-memory", Some(130), 0., |n, rng, c| {
        let d = datas(rng, n);
        let l = hashes(&d);
        c.describe(format!("in-memory binary tree, {n} pushes, roots and proofs in between"));
        let mut t = if n % 2 == 0 { binary::in_memory::MerkleTree::new() } else { Default::default() };
        let ask = rng.below(4);
        for j in 0..=n {
            if j == n || ask == 0 || rng.chance(1, 8) {
                let lj = &l[..j as usize];
                let r = t.root();
                ck!(c, r == root_of(lj), "root after {j} pushes is {}", hex(&r));
                let some: Vec<u64> = if j == n { (0..j + 3).collect() } else { vec![0, j / 2, j.saturating_sub(1), j] };
                for i in some.into_iter().chain([u64::MAX]) {
                    c.tick();
                    let p = t.prove(i);
                    match p {
                        None if i >= j => {}
                        Some((r, p)) if i < j => {
                            let mut w = vec![lj[i as usize]];
                            w.extend(audit(&VecLeaves(lj), 0, j, i));
                            if r != root_of(lj) || p != w {
                                return Err(format!("prove({i}) after {j} pushes is wrong"));
                            }
                        }
                        p => return Err(format!("prove({i}) after {j} pushes is {}", if p.is_some() { "a proof" } else { "None" })),
                    }
                }
            }
            if j < n {
                t.push(&d[j as usize]);
            }
        }
        Ok(())
    });
}

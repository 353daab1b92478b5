//! Sparse tree searches: C07-C10, C13 and the sparse parts of C16 and C17.
use crate::ck;
use crate::oracle::*;
use crate::store::*;
use crate::util::*;
use fuel_merkle::{common::StorageMap, sparse};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

type Prim = (u32, u8, H, H);
type STab = Tab<H, Prim>;
type SStore = Store<H, Prim>;
type Tree<S> = sparse::MerkleTree<STab, S>;
type TErr = sparse::MerkleTreeError<Injected>;

#[derive(Clone, PartialEq, Eq)]
pub enum Sop {
    Up(H, Vec<u8>),
    Del(H),
    /// drop the tree and load it again from its root
    Reload,
}
fn show(o: &Sop) -> String {
    match o {
        Sop::Up(k, v) => format!("update({}, {})", hex(k), sh(v)),
        Sop::Del(k) => format!("delete({})", hex(k)),
        Sop::Reload => "reload".into(),
    }
}
fn shows(o: &[Sop]) -> String {
    if o.len() > 40 {
        return format!("{} operations: {}; ..", o.len(), o[..40].iter().map(show).collect::<Vec<_>>().join("; "));
    }
    format!("{} operations: {}", o.len(), o.iter().map(show).collect::<Vec<_>>().join("; "))
}
fn model(m: &mut Kv, o: &Sop) {
    match o {
        Sop::Up(k, v) if !v.is_empty() => {
            m.insert(*k, v.clone());
        }
        Sop::Up(k, _) | Sop::Del(k) => {
            m.remove(k);
        }
        Sop::Reload => {}
    }
}

fn flip(k: &mut H, i: usize) {
    k[i / 8] ^= 0x80 >> (i % 8);
}

/// a set of keys that share prefixes of chosen lengths
pub fn universe(rng: &mut Rng, n: usize) -> Vec<H> {
    let mode = rng.below(7);
    let base = match rng.below(8) {
        0 => [0u8; 32],
        1 => [0xff; 32],
        _ => rng.key(),
    };
    let mut v: Vec<H> = vec![];
    let mut tries = 0;
    while v.len() < n && tries < 10_000 {
        tries += 1;
        let mut k = match mode {
            0 => rng.key(),
            1 => {
                // small integers in the low bytes: long shared prefixes
                let mut k = [0u8; 32];
                k[24..].copy_from_slice(&rng.below(2 * n as u64 + 2).to_be_bytes());
                k
            }
            2 => {
                // only a few high bits differ
                let mut k = [0u8; 32];
                k[0] = (rng.below(2 * n as u64 + 2) as u8) << 3;
                k
            }
            _ => base,
        };
        if mode >= 3 {
            let src = if v.is_empty() || rng.chance(1, 2) { base } else { v[rng.below(v.len() as u64) as usize] };
            k = src;
            if rng.chance(7, 8) {
                let near = rng.word(1, 4, 255);
                let b = match rng.below(6) {
                    0 => [0usize, 1, 7, 8, 9, 15, 16][rng.below(7) as usize],
                    1 => [255usize, 254, 253, 248, 247][rng.below(5) as usize],
                    2 => [127usize, 128, 63, 64][rng.below(4) as usize],
                    3 => rng.below(6) as usize,
                    _ => rng.below(256) as usize,
                };
                let b = near.map_or(b, |x| x as usize);
                flip(&mut k, b);
                if rng.chance(1, 3) {
                    for i in b + 1..256 {
                        if rng.chance(1, 2) {
                            flip(&mut k, i);
                        }
                    }
                }
            }
        }
        if !v.contains(&k) {
            v.push(k);
        }
    }
    v
}

pub fn history(rng: &mut Rng, keys: &[H], len: usize, dels: u64, reload: bool) -> Vec<Sop> {
    (0..len)
        .map(|_| {
            let k = keys[rng.below(keys.len() as u64) as usize];
            if reload && rng.chance(1, 8) {
                return Sop::Reload;
            }
            if rng.chance(1, 40) {
                // the key of one entry is the hash of its own or another's value
                let d = vec![1 + rng.below(2) as u8];
                Sop::Up(if rng.chance(1, 2) { sha(&[&d]) } else { k }, d)
            } else if rng.chance(dels, 10) {
                if rng.chance(1, 4) { Sop::Up(k, vec![]) } else { Sop::Del(k) }
            } else if rng.chance(1, 3) {
                let mut d = rng.data();
                d.push(1);
                Sop::Up(k, d)
            } else {
                Sop::Up(k, vec![1 + rng.below(2) as u8])
            }
        })
        .collect()
}

/// a history that also uses the digests of the tree's own nodes as keys
fn digest_history(rng: &mut Rng, keys: &[H], dels: u64, reload: bool) -> Vec<Sop> {
    let mut keys = keys.to_vec();
    let mut ops = vec![];
    let mut m = Kv::new();
    for _ in 0..rng.range(1, 4) {
        let len = rng.range(1, 8) as usize;
        let h = history(rng, &keys, len, if ops.is_empty() { 1 } else { dels }, reload);
        h.iter().for_each(|o| model(&mut m, o));
        ops.extend(h);
        let (root, nodes) = sp_nodes(&m);
        let mut d: Vec<H> = nodes.iter().map(|n| n.hash).collect();
        if let Some(v) = m.values().next() {
            d.push(sha(&[v]));
        }
        if d.is_empty() {
            continue;
        }
        let mut picks = vec![root];
        for _ in 0..rng.range(1, 4) {
            picks.push(d[rng.below(d.len() as u64) as usize]);
        }
        for k in picks {
            if !keys.contains(&k) {
                keys.push(k);
            }
            let o = match rng.below(6) {
                0..3 => Sop::Del(k),
                // a value that is the content of a node: its hash is that node's key in the storage
                3 if !nodes.is_empty() => {
                    let n = &nodes[rng.below(nodes.len() as u64) as usize];
                    Sop::Up(keys[rng.below(keys.len() as u64) as usize], [&[n.value.1][..], &n.value.2, &n.value.3].concat())
                }
                _ => Sop::Up(k, vec![1 + rng.below(2) as u8]),
            };
            if rng.chance(2, 3) {
                model(&mut m, &o);
                ops.push(o);
            }
        }
    }
    ops
}

#[derive(Clone, Copy)]
pub struct What {
    root: bool,
    /// every key keeps its value, looked up by walking the stored tree
    values: bool,
    reload: bool,
    store: bool,
    memory: bool,
    map: bool,
}
const NOTHING: What = What { root: false, values: false, reload: false, store: false, memory: false, map: false };

/// what is reachable from `root` in `st`
fn walk(st: &BTreeMap<H, Prim>, root: &H, depth: u32, out: &mut BTreeMap<H, H>, strict: bool) -> Result<(), String> {
    if *root == [0; 32] {
        return Ok(());
    }
    let Some((h, t, lo, hi)) = st.get(root) else {
        return Err(format!("node {} at depth {depth}, reachable from the root, is not stored", hex(root)));
    };
    if strict && sha(&[&[*t], lo, hi]) != *root {
        return Err(format!("entry {} is not the hash of its content", hex(root)));
    }
    match t {
        0 => {
            if strict && *h != 0 {
                return Err(format!("leaf {} is stored with height {h}", hex(root)));
            }
            out.insert(*lo, *hi);
            Ok(())
        }
        1 => {
            if strict && *h != 256 - depth {
                return Err(format!("node {} at depth {depth} is stored with height {h}", hex(root)));
            }
            walk(st, lo, depth + 1, out, strict)?;
            walk(st, hi, depth + 1, out, strict)
        }
        _ => Err(format!("entry {} has tag {t}", hex(root))),
    }
}

fn check_store(c: &mut Case, st: &BTreeMap<H, Prim>, last: &HashMap<H, Vec<u8>>) -> Result<(), String> {
    for (k, (h, t, lo, hi)) in st {
        c.tick();
        let by_hash = sha(&[&[*t], lo, hi]) == *k;
        let ok = match t {
            1 => by_hash,
            0 => *h == 0 && by_hash,
            _ => false,
        };
        if !ok {
            return Err(format!("storage entry {} holds (height {h}, tag {t}, {}, {}), which is not a node under its hash", hex(k), hex(lo), hex(hi)));
        }
        if *t == 0 && by_hash {
            match last.get(lo) {
                None => return Err(format!("storage entry {} is a leaf of key {}, which was never written", hex(k), hex(lo))),
                Some(_) => {}
            }
        }
    }
    Ok(())
}

fn apply<S>(t: &mut Tree<S>, o: &Sop) -> Result<(), sparse::MerkleTreeError<S::Error>>
where
    S: fuel_storage::StorageMutate<STab>,
    S::Error: std::fmt::Debug + Clone + 'static,
{
    match o {
        Sop::Up(k, v) => t.update(k, v),
        Sop::Del(k) => t.delete(k),
        Sop::Reload => Ok(()),
    }
}

fn run(c: &mut Case, ops: &[Sop], w: What) -> Result<(), String> {
    let s = SStore::new();
    let mut t = Tree::new(s.clone());
    let mut m = Kv::new();
    let mut last: HashMap<H, Vec<u8>> = HashMap::new();
    let mut mem = sparse::in_memory::MerkleTree::new();
    let mut sm = StorageMap::<STab>::new();
    let mut tm = sparse::MerkleTree::<STab, _>::new(&mut sm);
    // a second tree, loaded from a copy at some point, that follows along
    let mut twin: Option<Tree<SStore>> = None;
    if w.root {
        ck!(c, t.root() == [0; 32], "root of the empty tree is {}", hex(&t.root()));
    }
    for (i, o) in ops.iter().enumerate() {
        let at = || format!("operation {} ({})", i + 1, show(o));
        if let Sop::Reload = o {
            let r = t.root();
            match Tree::load(s.clone(), &r) {
                Ok(n) => t = n,
                Err(e) => return Err(format!("{}: loading root {} failed: {e:?}", at(), hex(&r))),
            }
            twin = match Tree::load(Store::of(s.map()), &r) {
                Ok(n) => Some(n),
                Err(e) => return Err(format!("{}: loading root {} failed: {e:?}", at(), hex(&r))),
            };
            if w.reload {
                ck!(c, t.root() == r, "{}: loaded tree has root {} instead of {}", at(), hex(&t.root()), hex(&r));
            }
            continue;
        }
        let before = t.root();
        let had = match o {
            Sop::Up(k, _) | Sop::Del(k) => m.contains_key(k),
            _ => false,
        };
        let is_del = match o {
            Sop::Up(_, v) => v.is_empty(),
            _ => true,
        };
        let r = apply(&mut t, o);
        c.tick();
        if let Err(e) = r {
            return Err(format!("{} failed: {e:?}", at()));
        }
        model(&mut m, o);
        if let Sop::Up(k, v) = o {
            if !v.is_empty() {
                last.insert(*k, v.clone());
            }
        }
        let want = sp_root(&m);
        let got = t.root();
        if is_del && !had && (w.root || w.values) {
            ck!(c, got == before, "{} of an absent key changed the root from {} to {}", at(), hex(&before), hex(&got));
        }
        if w.root {
            ck!(c, got == want, "{}: root {} instead of {}", at(), hex(&got), hex(&want));
        }
        if w.values {
            let mut g = BTreeMap::new();
            walk(&s.map(), &got, 0, &mut g, false).map_err(|e| format!("{}: {e}", at()))?;
            let wv: BTreeMap<H, H> = sp_list(&m).into_iter().collect();
            c.tick();
            if g != wv {
                let lost: Vec<String> = wv.iter().filter(|(k, v)| g.get(*k) != Some(v)).map(|(k, _)| hex(k)).collect();
                let extra: Vec<String> = g.keys().filter(|k| !wv.contains_key(*k)).map(|k| hex(k)).collect();
                return Err(format!("{}: the tree lost or changed keys {lost:?} and still holds {extra:?}", at()));
            }
            if m.is_empty() {
                ck!(c, got == [0; 32], "{}: root of the emptied tree is {}", at(), hex(&got));
            }
        }
        if w.store {
            let st = s.map();
            check_store(c, &st, &last).map_err(|e| format!("{}: {e}", at()))?;
            let mut g = BTreeMap::new();
            walk(&st, &got, 0, &mut g, true).map_err(|e| format!("{}: {e}", at()))?;
            for n in sp_nodes(&m).1 {
                ck!(c, st.get(&n.hash) == Some(&n.value), "{}: node {} of the tree is stored as {:?}", at(), hex(&n.hash), st.get(&n.hash).map(|x| (x.0, x.1)));
            }
        }
        if w.reload {
            if let Some(u) = &mut twin {
                let r = apply(u, o);
                c.tick();
                if let Err(e) = r {
                    return Err(format!("{} on the reloaded tree failed: {e:?}", at()));
                }
                ck!(c, u.root() == got, "{}: reloaded tree has root {} instead of {}", at(), hex(&u.root()), hex(&got));
            }
            match Tree::load(Store::of(s.map()), &got) {
                Err(e) => return Err(format!("after {}: loading root {} failed: {e:?}", at(), hex(&got))),
                Ok(u) => {
                    ck!(c, u.root() == got, "after {}: loaded tree has root {} instead of {}", at(), hex(&u.root()), hex(&got));
                    if i % 3 == 0 || got == [0; 32] {
                        twin = Some(u);
                    }
                }
            }
            ck!(c, got == want, "{}: root {} instead of {}", at(), hex(&got), hex(&want));
        }
        if w.memory {
            match o {
                Sop::Up(k, v) => mem.update(k, v),
                Sop::Del(k) => mem.delete(k),
                Sop::Reload => {}
            }
            let g = mem.root();
            ck!(c, g == want, "{}: in-memory root {} instead of {}", at(), hex(&g), hex(&want));
        }
        if w.map {
            apply(&mut tm, o).map_err(|e| format!("{} over StorageMap failed: {e:?}", at()))?;
            let g = tm.root();
            ck!(c, g == want, "{}: root over StorageMap {} instead of {}", at(), hex(&g), hex(&want));
        }
    }
    Ok(())
}

fn guarded(c: &mut Case, ops: &[Sop], w: What) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| run(c, ops, w))) {
        Ok(r) => r,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panicked: {m}"))
        }
    }
}

/// run, and on failure shrink the history
fn run_shrunk(c: &mut Case, ops: &[Sop], w: What) -> Result<(), String> {
    let Err(mut e) = guarded(c, ops, w) else { return Ok(()) };
    let mut ops = ops.to_vec();
    let t0 = std::time::Instant::now();
    let mut again = true;
    while again && t0.elapsed().as_secs() < 10 {
        again = false;
        let mut i = ops.len();
        while i > 0 {
            i -= 1;
            let mut o = ops.clone();
            o.remove(i);
            if let Err(f) = guarded(c, &o, w) {
                ops = o;
                e = f;
                again = true;
            }
        }
    }
    Err(format!("{e}; shrunk history: {}", shows(&ops)))
}

fn small_keys(which: u64) -> Vec<H> {
    let mut a = [0x3cu8; 32];
    let mut v = vec![];
    match which {
        // first bit differs / second bit differs
        0 => {
            v.push(a);
            flip(&mut a, 0);
            v.push(a);
            flip(&mut a, 1);
            v.push(a);
        }
        // long shared prefix, last bits differ
        1 => {
            v.push(a);
            flip(&mut a, 255);
            v.push(a);
            flip(&mut a, 254);
            v.push(a);
        }
        // a pair deep down and a stranger
        2 => {
            v.push(a);
            flip(&mut a, 9);
            v.push(a);
            flip(&mut a, 0);
            v.push(a);
        }
        3 => {
            v.push(a);
            flip(&mut a, 3);
            v.push(a);
            flip(&mut a, 8);
            v.push(a);
        }
        // around zero and all ones
        4 => {
            v.push([0; 32]);
            let mut z = [0; 32];
            z[31] = 1;
            v.push(z);
            v.push([0xff; 32]);
        }
        _ => {
            v.push(a);
            flip(&mut a, 1);
            v.push(a);
            flip(&mut a, 2);
            flip(&mut a, 0);
            v.push(a);
        }
    }
    v
}

/// the idx-th sequence of `len` operations over `keys`
fn nth_ops(mut idx: u64, len: usize, keys: &[H], vals: u64) -> Vec<Sop> {
    let per = keys.len() as u64 * (vals + 1);
    (0..len)
        .map(|_| {
            let d = idx % per;
            idx /= per;
            let k = keys[(d / (vals + 1)) as usize];
            match d % (vals + 1) {
                0 => Sop::Del(k),
                v => Sop::Up(k, vec![v as u8]),
            }
        })
        .collect()
}

fn histories(x: &mut Ctx, w: What, dels: u64, reload: bool, exhaustive: bool) {
    if exhaustive {
        // all histories of 5 operations (insert one value / delete) on 3 keys, and of 3 operations with two values
        for which in 0..6u64 {
            let keys = small_keys(which);
            x.run(&format!("all-5-ops-keys{which}"), Some(81), 0., |i, _, c| {
                c.describe(format!("all histories of 5 inserts/deletes on the keys {:?} whose first operations encode {i}", keys.iter().map(|k| hex(k)).collect::<Vec<_>>()));
                for j in 0..96u64 {
                    let ops = nth_ops(i + 81 * j, 5, &keys, 1);
                    run_shrunk(c, &ops, w)?;
                }
                Ok(())
            });
        }
    }
    // values of every length, beside another key
    x.run("value-length", Some(LENGTHS), 0., |i, rng, c| {
        let n = length(i, rng);
        let keys = universe(rng, 2);
        let mut ops = vec![];
        for v in [rng.bytes(n), vec![0; n], vec![0xff; n]] {
            ops.push(Sop::Up(keys[0], v));
            ops.push(Sop::Up(keys[keys.len() - 1], vec![7]));
        }
        c.describe(shows(&ops));
        for j in 1..=ops.len() {
            run(c, &ops[..j], w)?;
        }
        Ok(())
    });
    x.run("digest-keys", None, 0.2, |_, rng, c| {
        let n = rng.range(1, 7) as usize;
        let keys = universe(rng, n);
        let ops = digest_history(rng, &keys, dels, reload);
        c.describe(shows(&ops));
        run_shrunk(c, &ops, w)
    });
    x.run("short-histories", None, 0.4, |_, rng, c| {
        let n = rng.range(1, 7) as usize;
        let keys = universe(rng, n);
        let len = rng.range(1, 16) as usize;
        let ops = history(rng, &keys, len, dels, reload);
        c.describe(shows(&ops));
        run_shrunk(c, &ops, w)
    });
    x.run("long-histories", None, 0.4, |_, rng, c| {
        let n = rng.range(4, 60) as usize;
        let keys = universe(rng, n);
        let len = rng.range(20, 150) as usize;
        let ops = history(rng, &keys, len, dels, reload);
        c.describe(shows(&ops));
        run_shrunk(c, &ops, w)
    });
}

pub fn c07(x: &mut Ctx) {
    histories(x, What { root: true, map: true, ..NOTHING }, 4, false, true);
}
pub fn c08(x: &mut Ctx) {
    histories(x, What { values: true, ..NOTHING }, 6, false, true);
}
pub fn c09(x: &mut Ctx) {
    histories(x, What { reload: true, ..NOTHING }, 4, true, true);
}
pub fn c13(x: &mut Ctx) {
    histories(x, What { store: true, ..NOTHING }, 4, false, true);
}
pub fn c17(x: &mut Ctx) {
    histories(x, What { memory: true, ..NOTHING }, 4, false, true);
}

fn built(ops: &[Sop]) -> Result<(SStore, H, Kv), String> {
    let s = SStore::new();
    let mut t = Tree::new(s.clone());
    let mut m = Kv::new();
    for o in ops {
        apply(&mut t, o).map_err(|e| format!("{} failed: {e:?}", show(o)))?;
        model(&mut m, o);
    }
    Ok((s, t.root(), m))
}

/// the children read on the way from the root to `key`, by the reference tree
fn needed(st: &BTreeMap<H, Prim>, root: &H, key: &H) -> Vec<H> {
    let mut v = vec![];
    let mut at = *root;
    let mut d = 0;
    while let Some((_, 1, lo, hi)) = st.get(&at) {
        for x in [lo, hi] {
            if *x != [0; 32] {
                v.push(*x);
            }
        }
        at = if bit(key, d) { *hi } else { *lo };
        d += 1;
        if d == 256 {
            break;
        }
    }
    v
}

pub fn c10(x: &mut Ctx) {
    x.run("damage", None, 1.0, |i, rng, c| {
        let n = rng.range(1, if i % 4 == 0 { 20 } else { 6 }) as usize;
        let keys = universe(rng, n + 2);
        let len = rng.range(1, 2 * n as u64 + 2) as usize;
        let mut ops = history(rng, &keys[..n.min(keys.len())], len, 2, false);
        ops.retain(|o| *o != Sop::Reload);
        c.describe(format!("every missing or mistyped node on the path of one operation, after {}", shows(&ops)));
        let (s, root, m) = built(&ops)?;
        let st = s.map();
        if root != [0; 32] {
            // loading
            let mut d = st.clone();
            d.remove(&root);
            c.tick();
            match Tree::load(Store::of(d), &root) {
                Err(TErr::LoadError(_)) => {}
                Err(e) => return Err(format!("load without the root node: {e:?} instead of a load error")),
                Ok(_) => return Err("load without the root node succeeded".into()),
            }
            for tag in [2u8, 3, 127, 128, 255, rng.range(2, 255) as u8] {
                let mut d = st.clone();
                d.get_mut(&root).ok_or("root is not stored")?.1 = tag;
                c.tick();
                match Tree::load(Store::of(d), &root) {
                    Err(TErr::DeserializeError(_)) => {}
                    Err(e) => return Err(format!("load of a root with tag {tag}: {e:?} instead of a deserialization error")),
                    Ok(_) => return Err(format!("load of a root with tag {tag} succeeded")),
                }
            }
            let r = rng.key();
            c.tick();
            match Tree::load(Store::of(st.clone()), &r) {
                Err(TErr::LoadError(_)) => {}
                Err(e) => return Err(format!("load of an unknown root: {e:?} instead of a load error")),
                Ok(_) => return Err("load of an unknown root succeeded".into()),
            }
        }
        // one operation, every needed node damaged in turn
        let k = keys[rng.below(keys.len() as u64) as usize];
        let op = if rng.chance(1, 2) && m.contains_key(&k) {
            if rng.chance(1, 3) { Sop::Up(k, vec![]) } else { Sop::Del(k) }
        } else {
            Sop::Up(k, vec![77, rng.u64() as u8])
        };
        let need = needed(&st, &root, &k);
        let mut which: Vec<usize> = (0..need.len()).collect();
        if which.len() > 24 {
            which = (0..24).map(|_| rng.below(need.len() as u64) as usize).collect();
        }
        for j in which {
            let x = need[j];
            for tag in [None, Some(rng.range(2, 255) as u8)] {
                let mut d = st.clone();
                match tag {
                    None => {
                        d.remove(&x);
                    }
                    Some(t) => d.get_mut(&x).ok_or_else(|| format!("node {} is not stored", hex(&x)))?.1 = t,
                }
                let mut t = Tree::load(Store::of(d), &root).map_err(|e| format!("load failed: {e:?}"))?;
                let what = match tag {
                    None => format!("{} with node {} missing", show(&op), hex(&x)),
                    Some(g) => format!("{} with the tag of node {} set to {g}", show(&op), hex(&x)),
                };
                let r = catch_unwind(AssertUnwindSafe(|| apply(&mut t, &op)));
                c.tick();
                match r {
                    Err(_) => return Err(format!("{what} panicked")),
                    Ok(Ok(())) => return Err(format!("{what} succeeded with root {}", hex(&t.root()))),
                    Ok(Err(_)) => {}
                }
                ck!(c, t.root() == root, "{what} moved the root to {}", hex(&t.root()));
            }
        }
        Ok(())
    });
}

pub fn c16(x: &mut Ctx) {
    x.run("sparse-every-call", None, 1.0, |i, rng, c| {
        let n = rng.range(1, if i % 5 == 0 { 12 } else { 5 }) as usize;
        let keys = universe(rng, n + 1);
        let len = rng.range(0, 2 * n as u64 + 2) as usize;
        let ops = history(rng, &keys[..n.min(keys.len())], len, 3, false);
        let k = keys[rng.below(keys.len() as u64) as usize];
        let op = match rng.below(4) {
            0 => Sop::Del(k),
            1 => Sop::Up(k, vec![]),
            2 => Sop::Up(k, vec![1]),
            _ => Sop::Up(k, vec![99]),
        };
        c.describe(format!("every storage call of {} fails once, after {}", show(&op), shows(&ops)));
        let (s0, root, _) = built(&ops)?;
        let st = s0.map();
        // count the calls of the undisturbed operation
        let s = Store::of(st.clone());
        let mut t = Tree::load(s.clone(), &root).map_err(|e| format!("load failed: {e:?}"))?;
        s.arm(0, false);
        apply(&mut t, &op).map_err(|e| format!("{} failed: {e:?}", show(&op)))?;
        let total = s.calls();
        let step = (total / 60).max(1);
        let mut j = 1;
        while j <= total {
            for on in [false, true] {
                let s = Store::of(st.clone());
                let mut t = Tree::load(s.clone(), &root).map_err(|e| format!("load failed: {e:?}"))?;
                s.arm(j, on);
                let r = apply(&mut t, &op);
                let failed = s.failed();
                c.tick();
                let what = format!("{} with storage call {j} of {total} failing", show(&op));
                match &r {
                    Ok(()) if failed > 0 => return Err(format!("{what} succeeded")),
                    Err(e) if failed > 0 => {
                        if !format!("{e:?}").contains(&format!("Injected({j})")) {
                            return Err(format!("{what} returned {e:?} instead of the storage error"));
                        }
                        ck!(c, t.root() == root, "{what} moved the root to {}", hex(&t.root()));
                    }
                    Err(e) => return Err(format!("{what}: no call failed, but it returned {e:?}")),
                    Ok(()) => {}
                }
            }
            j += step;
        }
        // loading
        let s = Store::of(st.clone());
        s.arm(1, false);
        let r = Tree::load(s.clone(), &root);
        c.tick();
        match r {
            Err(TErr::StorageError(Injected(1))) => {}
            Ok(_) if s.failed() == 0 => {}
            Err(e) => return Err(format!("load with a failing storage returned {e:?}")),
            Ok(_) => return Err("load with a failing storage succeeded".into()),
        }
        Ok(())
    });
}

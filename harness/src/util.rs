//! Random numbers, case bookkeeping, watchdog.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// numbers the changed source names (VH_DICT), empty on the unchanged tree
pub fn dict() -> &'static [u64] {
    static D: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let v = std::env::var("VH_DICT").unwrap_or_default();
        v.split(',').filter_map(|x| x.parse().ok()).collect()
    })
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.u64() % n }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    /// a number of the dictionary or next to one (or to that power of two), up to `max`
    pub fn word(&mut self, num: u64, den: u64, max: u64) -> Option<u64> {
        let d = dict();
        if d.is_empty() || !self.chance(num, den) {
            return None;
        }
        let mut x = d[self.below(d.len() as u64) as usize];
        if x < 64 && self.chance(1, 3) {
            x = 1 << x;
        }
        if self.chance(1, 2) {
            x = x.wrapping_add(self.below(5)).wrapping_sub(2);
        }
        if x <= max { Some(x) } else { None }
    }
    /// a number with a random bit length, often next to a power of two
    pub fn wild(&mut self, maxbits: u32) -> u64 {
        if let Some(x) = self.word(1, 4, if maxbits >= 64 { u64::MAX } else { (1 << maxbits) - 1 }) {
            return x;
        }
        let b = self.range(0, maxbits as u64) as u32;
        let top = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
        let lim = if maxbits >= 64 { u64::MAX } else { (1u64 << maxbits) - 1 };
        let x = match self.below(4) {
            0 => top,
            1 => top.wrapping_add(1).wrapping_add(self.below(3)),
            2 => top.wrapping_sub(self.below(3)),
            _ => self.u64() & top,
        };
        x & lim
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    pub fn key(&mut self) -> [u8; 32] {
        let mut k = [0u8; 32];
        for c in k.chunks_mut(8) {
            c.copy_from_slice(&self.u64().to_be_bytes());
        }
        self.spice(&mut k);
        k
    }
    /// put a byte of the dictionary somewhere, mostly at either end
    pub fn spice(&mut self, b: &mut [u8]) {
        if b.is_empty() {
            return;
        }
        if let Some(x) = self.word(1, 4, 255) {
            let n = b.len();
            let at = match self.below(4) {
                0 => 0,
                1 => n - 1,
                2 => self.word(1, 1, n as u64 - 1).unwrap_or(0) as usize,
                _ => self.below(n as u64) as usize,
            };
            b[at] = x as u8;
            if self.chance(1, 6) {
                b.fill(x as u8);
            }
        }
    }
    pub fn data(&mut self) -> Vec<u8> {
        let mut d = self.plain_data();
        self.spice(&mut d);
        d
    }
    fn plain_data(&mut self) -> Vec<u8> {
        if let Some(n) = self.word(1, 5, 1 << 17) {
            return if self.chance(1, 4) { vec![self.below(3) as u8; n as usize] } else { self.bytes(n as usize) };
        }
        if self.chance(1, 60) {
            // long data, around a power of two or anywhere up to 40000 bytes
            let n = if self.chance(1, 2) { (1 << self.range(9, 16)) + self.below(5) - 2 } else { self.below(40_000) };
            return self.bytes(n as usize);
        }
        let n = match self.below(8) {
            0 => 0,
            1 => 1,
            2 => 31,
            3 => 32,
            4 => 33,
            5 => self.range(55, 66) as usize,
            6 if self.chance(1, 3) => {
                // the shape of a hashed node: a tag, then one or two digests (with sums)
                let n = [33, 64, 65, 72, 73, 80, 81][self.below(7) as usize];
                let mut d = self.bytes(n);
                d[0] = self.below(3) as u8;
                return d;
            }
            6 => self.below(300) as usize,
            _ => self.below(12) as usize,
        };
        if self.chance(1, 4) { vec![self.below(3) as u8; n] } else { self.bytes(n) }
    }
}

/// lengths worth trying for a piece of data: all small ones, then around powers of two
pub const LENGTHS: u64 = 300 + 5 * 10 + 20;
pub fn length(i: u64, rng: &mut Rng) -> usize {
    (match i {
        0..300 => i,
        _ if !dict().is_empty() && i % 8 == 7 => rng.word(1, 1, 1 << 20).unwrap_or(i),
        300..350 => (1 << (9 + (i - 300) / 5)) + (i - 300) % 5 - 2,
        _ => rng.below(300_000),
    }) as usize
}

fn mix(seed: u64, phase: &str, idx: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ seed;
    for b in phase.bytes().chain(idx.to_le_bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    Rng::new(h).u64()
}

pub struct Case {
    slot: usize,
    pub desc: String,
    pub evals: u64,
    pub trivial: bool,
}
impl Case {
    pub fn describe(&mut self, s: String) {
        if let Ok(p) = std::env::var("VH_TRACE") {
            let _ = std::fs::write(format!("{p}.{}", self.slot), &s);
        }
        if let Ok(mut g) = SLOTS.lock() {
            if g.len() <= self.slot {
                g.resize(self.slot + 1, None);
            }
            g[self.slot] = Some((Instant::now(), s.clone()));
        }
        self.desc = s;
    }
    pub fn tick(&mut self) {
        self.evals += 1;
    }
}

static SLOTS: Mutex<Vec<Option<(Instant, String)>>> = Mutex::new(Vec::new());

#[derive(Clone)]
pub struct Violation {
    pub phase: String,
    pub idx: u64,
    pub case: String,
    pub detail: String,
}

pub struct Ctx {
    pub seed: u64,
    pub threads: usize,
    pub start: Instant,
    pub budget: Duration,
    pub only: Option<(String, u64)>,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub cases: u64,
    pub samples: Vec<String>,
    pub phases: Vec<(String, u64, bool)>,
    pub violation: Option<Violation>,
    pub quick: bool,
}

fn h64(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl Ctx {
    /// Run `f` for idx 0.. up to `max` (always completely, when given) or, when
    /// `max` is None, until `share` of the total time budget is used.
    pub fn run(
        &mut self,
        phase: &str,
        max: Option<u64>,
        share: f64,
        f: impl Fn(u64, &mut Rng, &mut Case) -> Result<(), String> + Sync,
    ) {
        if self.violation.is_some() {
            return;
        }
        let only = match &self.only {
            Some((p, i)) => {
                if p != phase {
                    return;
                }
                Some(*i)
            }
            None => None,
        };
        let t0 = Instant::now();
        let lim = self.budget.mul_f64(share);
        let next = AtomicU64::new(only.unwrap_or(0));
        let stop = AtomicBool::new(false);
        let out: Mutex<(u64, u64, Vec<u64>, Vec<(u64, String)>, Option<Violation>)> =
            Mutex::new((0, 0, vec![], vec![], None));
        let seed = self.seed;
        let nthreads = if only.is_some() { 1 } else { self.threads };
        std::thread::scope(|sc| {
            for t in 0..nthreads {
                let (next, stop, out, f) = (&next, &stop, &out, &f);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || loop {
                        let idx = next.fetch_add(1, Ordering::SeqCst);
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        match (only, max) {
                            (Some(i), _) => {
                                if idx != i {
                                    break;
                                }
                            }
                            (None, Some(m)) => {
                                if idx >= m {
                                    break;
                                }
                            }
                            (None, None) => {
                                if idx >= 16 && t0.elapsed() > lim {
                                    break;
                                }
                            }
                        }
                        let mut rng = Rng::new(mix(seed, phase, idx));
                        let mut case = Case { slot: t, desc: String::new(), evals: 0, trivial: false };
                        case.describe(format!("{phase} case {idx}"));
                        let r = catch_unwind(AssertUnwindSafe(|| f(idx, &mut rng, &mut case)));
                        if let Ok(mut g) = SLOTS.lock() {
                            g[t] = None;
                        }
                        let detail = match r {
                            Ok(Ok(())) => None,
                            Ok(Err(d)) => Some(d),
                            Err(p) => {
                                let m = p
                                    .downcast_ref::<String>()
                                    .cloned()
                                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                                    .unwrap_or_else(|| "?".into());
                                Some(format!("panicked: {m}"))
                            }
                        };
                        let mut o = out.lock().unwrap();
                        o.0 += 1;
                        o.1 += case.evals.max(1);
                        if !case.trivial {
                            o.2.push(h64(&case.desc));
                        }
                        if idx < 2 || idx == 7 {
                            o.3.push((idx, case.desc.clone()));
                        }
                        if let Some(d) = detail {
                            stop.store(true, Ordering::SeqCst);
                            let v = Violation { phase: phase.into(), idx, case: case.desc.clone(), detail: d };
                            match &o.4 {
                                Some(w) if w.idx <= idx => {}
                                _ => o.4 = Some(v),
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let o = out.into_inner().unwrap();
        self.cases += o.0;
        self.evals += o.1;
        self.distinct.extend(o.2);
        let mut s = o.3;
        s.sort();
        for (_, d) in s {
            if self.samples.len() < 24 {
                let mut d = d;
                if d.len() > 400 {
                    d.truncate(400);
                    d.push_str("...");
                }
                self.samples.push(d);
            }
        }
        self.phases.push((phase.to_string(), o.0, max.is_some() && o.4.is_none()));
        self.violation = o.4;
    }
}

/// A case that runs for longer than `limit` is reported through `f`.
pub fn watchdog(limit: Duration, f: impl Fn(String) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let mut hit = None;
        if let Ok(g) = SLOTS.lock() {
            for s in g.iter().flatten() {
                if s.0.elapsed() > limit {
                    hit = Some(s.1.clone());
                }
            }
        }
        if let Some(h) = hit {
            f(h);
        }
    });
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// short form of a long byte string
pub fn sh(b: &[u8]) -> String {
    if b.len() <= 40 { hex(b) } else { format!("{}..({} bytes)", hex(&b[..8]), b.len()) }
}

#[macro_export]
macro_rules! ck {
    ($c:expr, $cond:expr, $($a:tt)*) => {{ $c.tick(); if !$cond { return Err(format!($($a)*)); } }};
}

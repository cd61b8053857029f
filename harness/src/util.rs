use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

/// Literals that are new in the code under test (VERIF_LITS, found by check.py): only hints for the
/// generators, like a fuzzer's dictionary. Recorded cases do not depend on them.
#[derive(Default, serde::Deserialize)]
pub struct Lits {
    #[serde(default)]
    pub ints: Vec<u64>,
    #[serde(default)]
    pub floats: Vec<f64>,
    #[serde(default)]
    pub strs: Vec<String>,
}
pub fn lits() -> &'static Lits {
    static L: std::sync::OnceLock<Lits> = std::sync::OnceLock::new();
    L.get_or_init(|| std::env::var("VERIF_LITS").ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default())
}

/// Splitmix64.
pub struct Rng(u64, pub Vec<String>);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s, vec![]);
        r.next();
        r
    }
    /// A size around one of the hinted integers, at most max.
    pub fn hint(&mut self, p: f64, max: usize) -> Option<usize> {
        let l = &lits().ints;
        if l.is_empty() || !self.chance(p) {
            return None;
        }
        let x = l[self.below(l.len())] as usize;
        let y = match self.below(6) {
            0 => x.saturating_sub(1),
            1 | 2 => x.saturating_add(1),
            3 => x,
            4 => x.saturating_add(2 + self.below(8)),
            _ => x.saturating_mul(2),
        };
        if y <= max {
            Some(y)
        } else {
            None
        }
    }
    /// A number around one of the hinted ones.
    pub fn fhint(&mut self, p: f64) -> Option<f64> {
        let l = lits();
        if l.ints.len() + l.floats.len() == 0 || !self.chance(p) {
            return None;
        }
        let k = self.below(l.ints.len() + l.floats.len());
        let x = if k < l.ints.len() { l.ints[k] as f64 } else { l.floats[k - l.ints.len()] };
        let x = if self.chance(0.5) { -x } else { x };
        Some(match self.below(6) {
            0 => x,
            1 => x * 1.0000000001,
            2 => x * 0.9999999999,
            3 => x * self.unit(),
            4 => x * (1.0 + self.unit()),
            _ => x + self.unit() - 0.5,
        })
    }
    /// A hinted string or one used earlier in this case.
    pub fn shint(&mut self) -> Option<String> {
        let l = &lits().strs;
        let n = l.len() + self.1.len();
        if n == 0 {
            return None;
        }
        let k = self.below(n);
        Some(if k < l.len() { l[k].clone() } else { self.1[k - l.len()].clone() })
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub fn hash(v: &serde_json::Value) -> u64 {
    let s = v.to_string();
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// Allocator that stops (parks) every non-exempt thread once the process holds too much memory,
/// so that code which never stops allocating is reported instead of taking the sandbox down.
pub struct Capped;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static RUNAWAY: AtomicBool = AtomicBool::new(false);
const CAP: usize = 6 << 30;
thread_local! { static EXEMPT: Cell<bool> = const { Cell::new(false) }; }

pub fn exempt_this_thread() {
    EXEMPT.with(|e| e.set(true));
}
pub fn runaway() -> bool {
    RUNAWAY.load(Relaxed)
}

unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size(), Relaxed) + l.size();
        if n > CAP && !EXEMPT.try_with(|e| e.get()).unwrap_or(true) {
            LIVE.fetch_sub(l.size(), Relaxed);
            RUNAWAY.store(true, Relaxed);
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}

#[global_allocator]
static A: Capped = Capped;

/// A scratch directory, removed when dropped.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = std::env::var("HARNESS_TMP").unwrap_or_else(|_| "/tmp".into());
        let p = std::path::PathBuf::from(base).join(format!("tgx-harness-{}-{}", std::process::id(), N.fetch_add(1, Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn file(&self, name: &str, data: &[u8]) -> String {
        let p = self.0.join(name);
        std::fs::write(&p, data).unwrap();
        p.to_str().unwrap().to_string()
    }
    pub fn path(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

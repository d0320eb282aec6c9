//! Bounded replay engine: the contracts of the properties as executable oracles over the real code.
//! Every case is generated from (generator name, index, seed), so a failing case is replayed by naming those three.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Mutex;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub mod peer;
pub mod refc;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x2545_f491_4f6c_dd1d);
        if r.0 == 0 { r.0 = 1; }
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545_f491_4f6c_dd1d)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { (self.next() >> 11) % n } }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn chance(&mut self, p: u64, q: u64) -> bool { self.below(q) < p }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len() as u64) as usize] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.below(i as u64 + 1) as usize; v.swap(i, j); }
    }
    /// integers biased towards boundaries
    pub fn int(&mut self, bits: u32) -> u64 {
        let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        (match self.below(6) {
            0 => *self.pick(&[0u64, 1, 2, 127, 128, 255, 256, 257]),
            1 => m,
            2 => m - self.below(3),
            3 => 1u64 << self.below(bits as u64),
            4 => (1u64 << self.below(bits as u64)).wrapping_sub(1),
            _ => self.next(),
        }) & m
    }
}

static TRACE: Mutex<Vec<String>> = Mutex::new(vec![]);
static PANIC: Mutex<String> = Mutex::new(String::new());
static CUR: Mutex<Option<(String, u64, Instant, u64)>> = Mutex::new(None);
/// the first panic since the case began, in any thread
pub fn panicked() -> Option<String> { let p = PANIC.lock().unwrap().clone(); if p.is_empty() { None } else { Some(p) } }
pub fn note(s: String) { TRACE.lock().unwrap().push(s) }
fn replay_text(prop: &str, name: &str, i: u64, seed: u64, e: &str) -> String {
    let tr: Vec<String> = TRACE.lock().map(|t| t.clone()).unwrap_or_default();
    format!(
        "{{\n \"property\": {},\n \"generator\": {},\n \"index\": {},\n \"seed\": {},\n \"failure\": {},\n \"trace\": [\n  {}\n ]\n}}\n",
        esc(prop), esc(name), i, seed, esc(e),
        tr.iter().map(|s| esc(&s.chars().take(1500).collect::<String>())).collect::<Vec<_>>().join(",\n  ")
    )
}
#[macro_export]
macro_rules! note { ($($a:tt)*) => { $crate::note(format!($($a)*)) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub type R = Result<(), String>;

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    out: String,
    replay_out: String,
    only: Option<(String, u64)>,
    start: Instant,
    budget: Duration,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    rules: Vec<String>,
    per_gen: BTreeMap<String, u64>,
    /// known findings reproduced by this run, by generator
    pub known: BTreeMap<String, u64>,
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl Ctx {
    pub fn from_args() -> Ctx {
        let a: Vec<String> = std::env::args().collect();
        let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
        let thorough = get("--tier").as_deref() == Some("thorough");
        let only = get("--gen").map(|g| (g, get("--index").and_then(|x| x.parse().ok()).unwrap_or(0)));
        std::panic::set_hook(Box::new(|i| {
            let s = i.to_string();
            let mut p = PANIC.lock().unwrap();
            if p.is_empty() { *p = s; }
        }));
        let (wp, wr) = (get("--prop").unwrap_or_default(), get("--replay-out").unwrap_or_default());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CUR.lock().unwrap().clone();
            if let Some((name, i, t, seed)) = c {
                if t.elapsed() > Duration::from_secs(100) {
                    if !wr.is_empty() { std::fs::write(&wr, replay_text(&wp, &name, i, seed, "the call does not return (100 s)")).ok(); }
                    println!("FAIL property={wp} generator={name} index={i} seed={seed} : the call does not return (100 s)");
                    std::process::exit(1);
                }
            }
        });
        Ctx {
            prop: get("--prop").unwrap_or_default(),
            seed: get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1),
            thorough,
            out: get("--out").unwrap_or_default(),
            replay_out: get("--replay-out").unwrap_or_default(),
            only,
            start: Instant::now(),
            budget: Duration::from_secs(get("--budget").and_then(|x| x.parse().ok()).unwrap_or(if thorough { 240 } else { 20 })),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            rules: vec![],
            per_gen: BTreeMap::new(),
            known: BTreeMap::new(),
        }
    }
    pub fn is(&self, p: &str) -> bool { self.prop == p }
    /// one generator: `n` cases (x5, in the thorough tier x100; finite spaces are not repeated), each from its own random stream; returns a description of the case
    pub fn run(&mut self, name: &str, rule: &str, n: u64, share: f64, mut f: impl FnMut(&mut Rng, u64) -> Result<String, String>) {
        self.rules.push(format!("{name}: {rule}"));
        let fixed = ["exhaustive", "short_all", "packet_ids", "compound_wrap", "every_mtu", "nack_live", "stalled_reader", "unaccepted", "idle", "idle_long"].contains(&name);
        let n = if fixed { n } else if self.thorough { n * 100 } else { n * 5 };
        let slow = n < 5000;
        let limit = Instant::now() + Duration::from_secs_f64(self.budget.as_secs_f64() * share);
        let (lo, hi) = match &self.only {
            Some((g, i)) if g == name => (*i, *i + 1),
            Some(_) => return,
            None => (0, n),
        };
        for i in lo..hi {
            if (i % 16 == 0 || slow) && Instant::now() > limit { break; }
            let mut h = DefaultHasher::new();
            (name, i).hash(&mut h);
            let mut rng = Rng::new(self.seed ^ h.finish());
            TRACE.lock().unwrap().clear();
            PANIC.lock().unwrap().clear();
            *CUR.lock().unwrap() = Some((name.to_string(), i, Instant::now(), self.seed));
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, i)));
            *CUR.lock().unwrap() = None;
            let r = match r {
                Ok(x) => x,
                Err(_) => Err(format!("panic: {}", PANIC.lock().unwrap().clone())),
            };
            self.evaluations += 1;
            *self.per_gen.entry(name.to_string()).or_default() += 1;
            match r {
                Ok(d) => {
                    if !d.is_empty() {
                        let mut h = DefaultHasher::new();
                        d.hash(&mut h);
                        if self.distinct.insert(h.finish()) && (self.samples.len() < 2 || self.samples.iter().filter(|s| s.starts_with(name)).count() < 2) {
                            let mut s = format!("{name}#{i}: {d}");
                            if s.len() > 400 { s = s.chars().take(400).collect(); }
                            self.samples.push(s);
                        }
                    }
                }
                Err(e) => self.fail(name, i, &e),
            }
        }
    }
    pub fn fail(&self, name: &str, i: u64, e: &str) -> ! {
        let body = replay_text(&self.prop, name, i, self.seed, e);
        if !self.replay_out.is_empty() { std::fs::write(&self.replay_out, body).unwrap(); }
        println!("FAIL property={} generator={} index={} seed={} : {}", self.prop, name, i, self.seed, e);
        self.report(1);
        std::process::exit(1)
    }
    fn report(&self, violations: u32) {
        if self.out.is_empty() { return; }
        let s = format!(
            "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"violations\": {}, \"wall_s\": {:.2}, \"per_generator\": {{{}}}, \"known\": {{{}}}}}\n",
            self.evaluations, self.distinct.len(), esc(&self.rules.join("; ")),
            self.samples.iter().take(12).map(|s| esc(s)).collect::<Vec<_>>().join(", "), violations, self.start.elapsed().as_secs_f64(),
            self.per_gen.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "),
            self.known.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")
        );
        std::fs::write(&self.out, s).unwrap();
    }
    pub fn done(self) {
        self.report(0);
        println!("OK property={} evaluations={} distinct={}", self.prop, self.evaluations, self.distinct.len());
    }
}

//! Tape-based property-testing engine: every random choice of a case is one bounded draw on a
//! tape; a tape replays the case exactly and is what gets shrunk.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        h = Rng::new(h ^ p.wrapping_mul(0x9E3779B97F4A7C15)).next();
    }
    h
}

/// Removing all `idx` entries and decrementing `tape[dec]` yields a smaller well-formed case.
#[derive(Clone, Debug)]
pub struct Deletable {
    pub dec: usize,
    pub idx: Vec<(usize, usize)>, // ranges [start, end)
}

pub struct Src {
    input: Vec<u64>,
    rng: Option<Rng>,
    pub tape: Vec<u64>,
    pub dels: Vec<Deletable>,
    pub record: bool,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { input: vec![], rng: Some(Rng::new(seed)), tape: vec![], dels: vec![], record: false }
    }
    pub fn replay(input: Vec<u64>, record: bool) -> Self {
        Src { input, rng: None, tape: vec![], dels: vec![], record }
    }
    /// uniform in [0, bound); bound 0 means all of u64. 0 is the simplest value.
    #[inline]
    pub fn draw(&mut self, bound: u64) -> u64 {
        let raw = match &mut self.rng {
            Some(r) => r.next(),
            None => self.input.get(self.tape.len()).copied().unwrap_or(0),
        };
        let v = if bound == 0 { raw } else { raw % bound };
        self.tape.push(v);
        v
    }
    pub fn pos(&self) -> usize {
        self.tape.len()
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        debug_assert!(lo <= hi);
        lo + self.draw((hi - lo + 1) as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // true for the high values so that 0 shrinks to false
        self.draw(den) >= den - num
    }
    /// index chosen with the given weights; index 0 is the shrink target
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut x = self.draw(tot);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        unreachable!()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len() as u64) as usize;
        &xs[i]
    }
    /// zig-zag integer: 0,-1,1,-2,2,...
    pub fn zig(&mut self, bound: u64) -> i64 {
        zig(self.draw(bound))
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in 0..n {
            let j = i + self.draw((n - i) as u64) as usize;
            p.swap(i, j);
        }
        p
    }
}

pub fn zig(v: u64) -> i64 {
    if v & 1 == 1 {
        -(((v >> 1) as i64) + 1)
    } else {
        (v >> 1) as i64
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub desc: String,
    pub want_desc: bool,
    pub thorough: bool,
    pub case: u64,
}
impl Ctx {
    pub fn label(&mut self, s: &str) {
        self.labels.push(s.to_string());
    }
    pub fn describe<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_desc {
            self.desc.push_str(&f());
            self.desc.push_str("; ");
        }
    }
}

pub type PropFn = fn(&mut Src, &mut Ctx) -> Res;

pub struct Prop {
    pub id: &'static str,
    pub run: PropFn,
    pub quick: u64,
    pub thorough: u64,
    pub workers: usize,
    pub rule: &'static str,
}

static PANIC_MSG: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if let Ok(mut m) = PANIC_MSG.lock() {
            *m = info.to_string().replace('\n', " ");
        }
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG.lock().map(|m| m.clone()).unwrap_or_default()
}

pub struct Outcome {
    pub res: Res,
    pub tape: Vec<u64>,
    pub dels: Vec<Deletable>,
    pub ctx: Ctx,
}

pub fn run_case(p: &Prop, mut src: Src, case: u64, thorough: bool, want_desc: bool) -> Outcome {
    let mut ctx = Ctx { nontrivial: false, labels: vec![], desc: String::new(), want_desc, thorough, case };
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut src, &mut ctx)));
    let res = match r {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", last_panic())),
    };
    Outcome { res, tape: src.tape, dels: src.dels, ctx }
}

fn remove_ranges(tape: &[u64], mut ranges: Vec<(usize, usize)>) -> Vec<u64> {
    ranges.sort_unstable();
    let mut out = Vec::with_capacity(tape.len());
    let mut at = 0;
    for (a, b) in ranges {
        if a > at {
            out.extend_from_slice(&tape[at..a.min(tape.len())]);
        }
        at = at.max(b);
    }
    if at < tape.len() {
        out.extend_from_slice(&tape[at..]);
    }
    out
}

pub fn shrink(p: &Prop, start: Outcome, case: u64, thorough: bool, max_attempts: usize, max_time: Duration) -> Outcome {
    let t0 = Instant::now();
    let mut attempts = 0usize;
    let go = |tape: Vec<u64>| run_case(p, Src::replay(tape, true), case, thorough, false);
    let mut best = go(start.tape.clone());
    if best.res.is_ok() {
        return start; // depends on process history; keep as found
    }
    let key = |t: &Vec<u64>| t.len();
    macro_rules! budget {
        () => {
            attempts < max_attempts && t0.elapsed() < max_time
        };
    }
    loop {
        let before = best.tape.clone();
        // 1. structural deletions, grouped by counter, in halving chunks
        let mut di = 0;
        loop {
            let mut groups: Vec<usize> = best.dels.iter().map(|d| d.dec).collect();
            groups.dedup();
            groups.sort_unstable();
            groups.dedup();
            if di >= groups.len() || !budget!() {
                break;
            }
            let dec = groups[di];
            let count = |o: &Outcome| o.dels.iter().filter(|d| d.dec == dec).count();
            let mut chunk = count(&best).max(1);
            while chunk >= 1 && budget!() {
                let mut at = 0;
                while at < count(&best) && budget!() {
                    let ds: Vec<&Deletable> = best.dels.iter().filter(|d| d.dec == dec).skip(at).take(chunk).collect();
                    let n = ds.len() as u64;
                    if best.tape[dec] < n {
                        if chunk == 1 || best.tape[dec] == 0 {
                            break;
                        }
                        break;
                    }
                    let mut t = best.tape.clone();
                    t[dec] -= n;
                    let ranges = ds.iter().flat_map(|d| d.idx.iter().copied()).collect();
                    let cand = remove_ranges(&t, ranges);
                    attempts += 1;
                    let o = go(cand);
                    if o.res.is_err() && key(&o.tape) <= key(&best.tape) {
                        best = o;
                    } else {
                        at += chunk;
                    }
                }
                chunk /= 2;
            }
            di += 1;
        }
        // 2. zero blocks, then reduce single values
        let mut block = best.tape.len().max(1) / 2;
        while block >= 4 && budget!() && best.tape.len() < 200_000 {
            let mut at = 0;
            while at < best.tape.len() && budget!() {
                let end = (at + block).min(best.tape.len());
                if best.tape[at..end].iter().any(|&v| v != 0) {
                    let mut t = best.tape.clone();
                    t[at..end].iter_mut().for_each(|v| *v = 0);
                    attempts += 1;
                    let o = go(t);
                    if o.res.is_err() && key(&o.tape) <= key(&best.tape) {
                        best = o;
                    }
                }
                at += block;
            }
            block /= 2;
        }
        let mut i = 0;
        while i < best.tape.len() && budget!() {
            let mut lo = 0u64;
            let orig = best.tape[i];
            if orig > 0 {
                // try 0, then bisect towards the smallest failing value
                let mut tries = 0;
                while i < best.tape.len() && lo < best.tape[i] && tries < 8 && budget!() {
                    let cur = best.tape[i];
                    let mid = if tries == 0 { 0 } else { lo + (cur - lo) / 2 };
                    let mut t = best.tape.clone();
                    t[i] = mid;
                    attempts += 1;
                    tries += 1;
                    let o = go(t);
                    if o.res.is_err() && key(&o.tape) <= key(&best.tape) {
                        best = o;
                    } else {
                        lo = mid + 1;
                    }
                }
            }
            i += 1;
        }
        if best.tape == before || !budget!() {
            break;
        }
    }
    best
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str(" ...");
        t
    }
}


pub fn case_seed(seed: u64, id: &str, case: u64) -> u64 {
    let idh = mix(&id.bytes().map(|b| b as u64).collect::<Vec<_>>());
    mix(&[seed, idh, case])
}

//! A small property-testing engine: every random choice a generator makes goes through [`Src`],
//! which records it. A failing case is shrunk on the recorded choice sequence (so any generator
//! shrinks without extra code), and the shrunk sequence is the replay file.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;

/// SplitMix64, used to derive seeds and as the generator itself.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng::new(0x5151_7171);
    for p in parts {
        r.0 ^= *p;
        let n = r.next();
        r.0 = n;
    }
    r.next()
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>, usize),
    Bytes(Vec<u8>, usize),
}

/// The source of all choices of one case.
pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { mode: Mode::Random(Rng::new(seed)), rec: Vec::new() }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { mode: Mode::Replay(choices, 0), rec: Vec::new() }
    }
    /// Choices decoded from fuzzer bytes.
    pub fn bytes(data: &[u8]) -> Self {
        Src { mode: Mode::Bytes(data.to_vec(), 0), rec: Vec::new() }
    }

    /// A value in `0..n`. Generators give 0 the simplest meaning.
    pub fn n(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.mode {
            Mode::Random(r) => r.next() % n,
            Mode::Replay(c, p) => {
                let v = c.get(*p).copied().unwrap_or(0);
                *p += 1;
                v % n
            }
            Mode::Bytes(b, p) => {
                let w = if n <= 1 {
                    0
                } else if n <= 0x100 {
                    1
                } else if n <= 0x1_0000 {
                    2
                } else {
                    8
                };
                let mut v = 0u64;
                for _ in 0..w {
                    v = (v << 8) | u64::from(b.get(*p).copied().unwrap_or(0));
                    *p += 1;
                }
                v % n
            }
        };
        self.rec.push(v);
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.n(n as u64) as usize
    }
    /// True with probability `num/den`; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.n(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut v = self.n(t);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        unreachable!()
    }
    /// Whether to add another element to a list whose expected length is `avg`.
    pub fn more(&mut self, avg: u64) -> bool {
        self.n(avg + 1) > 0
    }
}

/// What one case, and all cases of a worker, observed.
#[derive(Default)]
pub struct Cx {
    pub verbose: bool,
    pub notes: Vec<(String, String)>,
    pub keys: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub evals: u64,
    pub samples: Vec<String>,
    pub sample_tick: u64,
    pub nontrivial: Option<u64>,
    pub key_acc: u64,
}

impl Cx {
    pub fn begin(&mut self) {
        self.notes.clear();
        self.nontrivial = None;
        self.key_acc = 0;
        self.evals += 1;
    }
    /// Count the case in a class of the generated distribution.
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.class(c)
        }
    }
    /// Feed the case's content to its identity, and show it in replays and samples.
    pub fn input(&mut self, name: &str, v: &[u8]) {
        let mut h = 0xcbf2_9ce4_8422_2325u64 ^ self.key_acc.rotate_left(17);
        for b in v {
            h = (h ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01B3);
        }
        self.key_acc = mix(&[h, v.len() as u64, self.key_acc]);
        if self.verbose {
            self.notes.push((name.to_string(), show(v)));
        }
    }
    pub fn input_n(&mut self, name: &str, v: u64) {
        self.key_acc = mix(&[v, self.key_acc]);
        if self.verbose {
            self.notes.push((name.to_string(), v.to_string()));
        }
    }
    pub fn note(&mut self, name: &str, v: impl FnOnce() -> String) {
        if self.verbose {
            self.notes.push((name.to_string(), v()));
        }
    }
    /// The case is non-trivial by the property's rule.
    pub fn mark(&mut self, nontrivial: bool) {
        self.nontrivial = if nontrivial { Some(self.key_acc) } else { None };
    }
    pub fn end(&mut self) -> bool {
        if let Some(k) = self.nontrivial {
            if self.keys.insert(k) {
                self.sample_tick += 1;
                // a few samples spread over the run
                return self.sample_tick.is_power_of_two() && self.sample_tick >= 64;
            }
        }
        false
    }
}

/// Bytes as a readable, unambiguous literal.
pub fn show(v: &[u8]) -> String {
    let mut s = String::with_capacity(v.len() + 3);
    s.push_str("b\"");
    for b in v {
        for c in std::ascii::escape_default(*b) {
            s.push(c as char);
        }
    }
    s.push('"');
    s
}

pub type Res = Result<(), String>;
pub type RandomFn = fn(&mut Src, &mut Cx) -> Res;
pub type EnumFn = fn(u64, &mut Cx) -> Res;

pub enum Kind {
    /// Cases drawn from a generator: quick and thorough counts.
    Random { quick: u64, thorough: u64, f: RandomFn },
    /// An indexed finite family, enumerated completely: sizes for quick and thorough.
    Enum { quick: fn() -> u64, thorough: fn() -> u64, f: EnumFn },
}

pub struct Part {
    pub name: &'static str,
    pub kind: Kind,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub parts: Vec<Part>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panicked at {loc}: {msg}"));
    }));
}

/// Run something that may panic inside the library.
pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn run_random(f: RandomFn, src: &mut Src, cx: &mut Cx) -> Res {
    cx.begin();
    guard(|| f(src, cx))
}

pub fn run_enum(f: EnumFn, i: u64, cx: &mut Cx) -> Res {
    cx.begin();
    guard(|| f(i, cx))
}

/// Shrink a failing choice sequence, within a number of attempts and a minute.
pub fn shrink(f: RandomFn, first: Vec<u64>, budget: usize) -> (Vec<u64>, String) {
    let mut left = budget;
    let start = std::time::Instant::now();
    let mut cx = Cx::default();
    let mut try_ = |c: &[u64], left: &mut usize| -> Option<(Vec<u64>, String)> {
        if *left > 0 && start.elapsed().as_secs() >= 60 {
            *left = 0;
        }
        if *left == 0 {
            return None;
        }
        *left -= 1;
        let mut s = Src::replay(c.to_vec());
        let r = run_random(f, &mut s, &mut cx);
        cx.keys.clear();
        match r {
            Err(m) => {
                // keep the normalised record: what was actually consumed
                let mut rec = s.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                Some((rec, m))
            }
            Ok(()) => None,
        }
    };
    let (mut best, mut msg) = match try_(&first, &mut left) {
        Some(x) => x,
        None => return (first, "failure did not reproduce while shrinking".into()),
    };
    let smaller = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let before = best.clone();
        // remove chunks
        let mut size = best.len().max(1);
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                let mut c = best.clone();
                c.drain(lo..i.min(c.len()));
                match try_(&c, &mut left) {
                    Some((r, m)) if smaller(&r, &best) => {
                        best = r;
                        msg = m;
                        i = lo.min(best.len());
                    }
                    _ => {
                        i = i.saturating_sub(if size > 4 { size } else { 1 });
                    }
                }
                if left == 0 {
                    return (best, msg);
                }
            }
            size /= 2;
        }
        // zero chunks, then lower single values
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..hi].iter_mut().for_each(|x| *x = 0);
                    if let Some((r, m)) = try_(&c, &mut left) {
                        if smaller(&r, &best) {
                            best = r;
                            msg = m;
                        }
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match try_(&c, &mut left) {
                    Some((r, m)) if smaller(&r, &best) => {
                        best = r;
                        msg = m;
                        hi = mid;
                        if best.get(i).copied().unwrap_or(0) < hi {
                            break;
                        }
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        // lower a value while raising nothing: also try decrementing pairs
        let mut i = 0;
        while i + 1 < best.len() {
            if best[i] > 0 && best[i + 1] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                c[i + 1] -= 1;
                if let Some((r, m)) = try_(&c, &mut left) {
                    if smaller(&r, &best) {
                        best = r;
                        msg = m;
                    }
                }
            }
            i += 1;
        }
        if left == 0 || best == before {
            return (best, msg);
        }
    }
}

/// Inputs of a case, for samples and replay files.
pub fn describe_random(f: RandomFn, choices: &[u64]) -> (Res, Vec<(String, String)>) {
    let mut cx = Cx { verbose: true, ..Cx::default() };
    let mut s = Src::replay(choices.to_vec());
    let r = run_random(f, &mut s, &mut cx);
    (r, cx.notes)
}

pub fn describe_enum(f: EnumFn, i: u64) -> (Res, Vec<(String, String)>) {
    let mut cx = Cx { verbose: true, ..Cx::default() };
    let r = run_enum(f, i, &mut cx);
    (r, cx.notes)
}

pub fn notes_text(notes: &[(String, String)]) -> String {
    let mut s = String::new();
    for (k, v) in notes {
        let _ = writeln!(s, "{k} = {v}");
    }
    s
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

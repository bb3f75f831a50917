//! The properties. Each is a set of parts: generated cases and completely enumerated small ones.

mod applying;
mod cost;
mod creating;
mod merging;
mod misc;
mod parsing;
mod around;
mod renaming;
mod tools;
mod values;

use crate::engine::*;
use crate::gen;
use diffy::DiffOptions;
use std::sync::OnceLock;

pub use misc::digests;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(creating::props());
    v.extend(parsing::props());
    v.extend(applying::props());
    v.extend(merging::props());
    v.extend(misc::props());
    v.extend(values::props());
    v.extend(cost::props());
    v.extend(renaming::props());
    v.extend(around::props());
    v.sort_by_key(|p| p.id);
    v
}

pub fn rnd(name: &'static str, quick: u64, thorough: u64, f: RandomFn) -> Part {
    Part { name, kind: Kind::Random { quick, thorough, f } }
}

pub fn enm(name: &'static str, quick: fn() -> u64, thorough: fn() -> u64, f: EnumFn) -> Part {
    Part { name, kind: Kind::Enum { quick, thorough, f } }
}

pub fn st(v: &[u8]) -> Option<&str> {
    std::str::from_utf8(v).ok()
}

pub fn opts(n: usize) -> DiffOptions {
    let mut o = DiffOptions::new();
    o.set_context_len(n);
    o
}

pub fn clip(v: &[u8]) -> String {
    if v.len() <= 1500 {
        show(v)
    } else {
        format!("{}... ({} bytes)", show(&v[..1500]), v.len())
    }
}

pub fn same(what: &str, got: &[u8], want: &[u8]) -> Res {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).take_while(|(x, y)| x == y).count();
    Err(format!("{what}: first difference at byte {at}\n  got:  {}\n  want: {}", clip(got), clip(want)))
}

pub fn check(b: bool, what: impl FnOnce() -> String) -> Res {
    if b {
        Ok(())
    } else {
        Err(what())
    }
}

/// Families of small texts: (letters, most lines, also without the final newline).
/// The quick tier enumerates the first ones, the thorough tier all of them.
type Fam = (usize, usize, bool);
const PAIRS: &[Fam] = &[(2, 4, true), (2, 5, false), (3, 3, true), (2, 6, true), (3, 4, true), (4, 4, false), (2, 8, false)];
const PAIRS_QUICK: usize = 3;
const TRIPLES: &[Fam] = &[(2, 3, true), (3, 2, true), (2, 4, false), (3, 3, true), (2, 4, true), (2, 5, false)];
const TRIPLES_QUICK: usize = 3;
const CTX: u64 = 4;

fn texts(fam: Fam) -> &'static [Vec<u8>] {
    static CACHE: OnceLock<std::sync::Mutex<Vec<(Fam, &'static [Vec<u8>])>>> = OnceLock::new();
    let m = CACHE.get_or_init(Default::default);
    let mut g = m.lock().unwrap();
    if let Some((_, t)) = g.iter().find(|(f, _)| *f == fam) {
        return t;
    }
    let t: &'static [Vec<u8>] = Box::leak(gen::small_texts(fam.0, fam.1, fam.2).into_boxed_slice());
    g.push((fam, t));
    t
}

thread_local! {
    static TABLE: Vec<&'static [Vec<u8>]> = PAIRS.iter().map(|f| texts(*f)).collect();
    static TABLE3: Vec<&'static [Vec<u8>]> = TRIPLES.iter().map(|f| texts(*f)).collect();
}

pub fn pairs_quick() -> u64 {
    PAIRS[..PAIRS_QUICK].iter().map(|f| (texts(*f).len() as u64).pow(2) * CTX).sum()
}
pub fn pairs_thorough() -> u64 {
    PAIRS.iter().map(|f| (texts(*f).len() as u64).pow(2) * CTX).sum()
}

/// The i-th small pair and context length.
pub fn small_pair(mut i: u64) -> (&'static [u8], &'static [u8], usize) {
    TABLE.with(|t| {
        for t in t {
            let n = t.len() as u64;
            if i < n * n * CTX {
                let c = i % CTX;
                let r = i / CTX;
                return (&t[(r / n) as usize][..], &t[(r % n) as usize][..], c as usize);
            }
            i -= n * n * CTX;
        }
        unreachable!()
    })
}

pub fn triples_quick() -> u64 {
    TRIPLES[..TRIPLES_QUICK].iter().map(|f| (texts(*f).len() as u64).pow(3)).sum()
}
pub fn triples_thorough() -> u64 {
    TRIPLES.iter().map(|f| (texts(*f).len() as u64).pow(3)).sum()
}

/// The i-th small triple.
pub fn small_triple(mut i: u64) -> (&'static [u8], &'static [u8], &'static [u8]) {
    TABLE3.with(|t| {
        for t in t {
            let n = t.len() as u64;
            if i < n * n * n {
                return (&t[(i / n / n) as usize][..], &t[(i / n % n) as usize][..], &t[(i % n) as usize][..]);
            }
            i -= n * n * n;
        }
        unreachable!()
    })
}

/// Shape, size and variant of every sized case; of large sizes only one variant is taken.
pub fn flat(most: &[usize], variants: usize, all_up_to: usize) -> Vec<(usize, usize, usize)> {
    let mut out = Vec::new();
    for (k, most) in most.iter().enumerate() {
        for (i, n) in gen::sizes(*most).into_iter().enumerate() {
            if n <= all_up_to {
                out.extend((0..variants).map(|v| (k, n, v)));
            } else {
                out.push((k, n, i % variants));
            }
        }
    }
    out
}

fn shapes() -> &'static [(usize, usize, usize)] {
    static C: OnceLock<Vec<(usize, usize, usize)>> = OnceLock::new();
    C.get_or_init(|| flat(&gen::PAIR_SHAPES.iter().map(|s| s.0).collect::<Vec<_>>(), 4, 2_100))
}
pub fn sized_pairs() -> u64 {
    shapes().len() as u64 + gen::units().len() as u64 * gen::UNIT_PAIRS
}

/// The i-th pair of the families in which one dimension takes every size of a list, or one byte or
/// character every value.
pub fn sized_pair(i: u64) -> (Vec<u8>, Vec<u8>, usize) {
    let units = gen::units().len() as u64 * gen::UNIT_PAIRS;
    if i < units {
        let p = gen::unit_pair(&gen::units()[(i / gen::UNIT_PAIRS) as usize], i % gen::UNIT_PAIRS);
        return (p.a, p.b, 3);
    }
    let (k, n, v) = shapes()[(i - units) as usize];
    let (a, b) = gen::PAIR_SHAPES[k].1(n);
    let (a, b) = (gen::join(&a, v != 2), gen::join(&b, v != 3));
    let ctx = match v {
        0 => 3,
        1 => n,
        2 => n / 2,
        _ => 0,
    };
    if v % 2 == 0 {
        (a, b, ctx)
    } else {
        (b, a, ctx)
    }
}

fn shapes3() -> &'static [(usize, usize, usize)] {
    static C: OnceLock<Vec<(usize, usize, usize)>> = OnceLock::new();
    C.get_or_init(|| flat(&gen::TRIPLE_SHAPES.iter().map(|s| s.0).collect::<Vec<_>>(), 2, 1_100))
}
pub fn sized_triples() -> u64 {
    shapes3().len() as u64 + gen::units().len() as u64 * gen::UNIT_TRIPLES
}

/// The i-th triple of the families in which one dimension takes every size of a list, or one byte or
/// character every value.
pub fn sized_triple(i: u64) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let units = gen::units().len() as u64 * gen::UNIT_TRIPLES;
    if i < units {
        let [o, a, b] = gen::unit_triple(&gen::units()[(i / gen::UNIT_TRIPLES) as usize], i % gen::UNIT_TRIPLES);
        return (o, a, b);
    }
    let (k, n, v) = shapes3()[(i - units) as usize];
    let [o, a, b] = gen::TRIPLE_SHAPES[k].1(n);
    (gen::join(&o, true), gen::join(&a, v == 0), gen::join(&b, true))
}

pub fn input_pair(cx: &mut Cx, a: &[u8], b: &[u8], n: usize) {
    cx.input("original", a);
    cx.input("modified", b);
    cx.input_n("context_len", n as u64);
}

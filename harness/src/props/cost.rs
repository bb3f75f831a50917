//! C27: time. Large arguments only, so that work that grows with the square of them stands out.

use super::*;
use crate::refm::split;
use diffy::{apply, apply_bytes, merge, merge_bytes, Patch, PatchFormatter};
use std::collections::HashMap;
use std::time::Duration;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "texts and patch texts of tens and hundreds of thousands of lines that differ in few places; every operation on them is timed against numbering the lines of its arguments with a hash table. Non-trivial: the texts differ, or the patch text has a hunk",
        parts: vec![
            enm("texts", texts_n, texts_n_thorough, texts),
            enm("merges", merges_n, merges_n_thorough, merges),
            enm("patch texts", patch_texts_n, patch_texts_n_thorough, patch_texts),
        ],
    }]
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Processor time of this thread.
fn now() -> Duration {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    assert_eq!(unsafe { clock_gettime(3, &mut t) }, 0);
    Duration::new(t.sec as u64, t.nsec as u32)
}

fn timed<T>(f: impl FnOnce() -> T) -> (T, Duration) {
    let t = now();
    let r = f();
    (r, now() - t)
}

/// What it costs to number the lines of the texts.
fn reference(texts: &[&[u8]]) -> Duration {
    (0..2)
        .map(|_| {
            timed(|| {
                let mut ids: HashMap<&[u8], usize> = HashMap::new();
                let mut sum = 0;
                for t in texts {
                    for l in split(t) {
                        let n = ids.len();
                        sum += *ids.entry(l).or_insert(n);
                    }
                }
                std::hint::black_box(sum)
            })
            .1
        })
        .min()
        .unwrap()
}

const FIXED: Duration = Duration::from_millis(200);

/// Runs `f`, which may take `times` the reference, about ten times what it needs, and again when it was slow, and holds the shortest time against the reference.
fn within<T>(what: &str, times: u32, reference: Duration, f: impl Fn() -> T) -> Result<T, String> {
    let limit = FIXED + reference * times;
    let (r, mut t) = timed(&f);
    for _ in 0..3 {
        // once is enough when it is that far off
        if t <= limit || t > limit * 10 {
            break;
        }
        t = t.min(timed(&f).1);
    }
    if std::env::var_os("SHOW_TIME").is_some() {
        eprintln!("T {what} {:.2} {:.1}ms", t.as_secs_f64() / reference.as_secs_f64(), t.as_secs_f64() * 1e3);
    }
    check(t <= limit, || format!("{what} took {t:?} of processor time, numbering the same lines {reference:?}"))?;
    Ok(r)
}

fn numbered(n: usize) -> Vec<Vec<u8>> {
    (0..n).map(|i| format!("line {i}\n").into_bytes()).collect()
}
fn cycle(n: usize, k: usize) -> Vec<Vec<u8>> {
    (0..n).map(|i| vec![b'a' + (i % k) as u8, b'\n']).collect()
}
/// `k` changes spread over the lines: inserted, deleted and replaced ones by turns.
fn spread(v: &[Vec<u8>], k: usize, what: &str) -> Vec<Vec<u8>> {
    let mut r = v.to_vec();
    for j in (0..k).rev() {
        let at = v.len() / (k + 1) * (j + 1);
        match j % 3 {
            0 => r[at] = format!("{what} {j}\n").into_bytes(),
            1 => r.insert(at, format!("{what} {j}\n").into_bytes()),
            _ => {
                r.remove(at);
            }
        }
    }
    r
}

const PAIRS: u64 = 20;
/// Pairs of texts of about `n` lines with a short edit script, or one that is a single block.
fn pair(i: u64, n: usize) -> (Vec<u8>, Vec<u8>) {
    let u = numbered(n);
    let (a, b) = match i {
        0 => (u.clone(), u),
        1 => (u.clone(), spread(&u, 1, "new")),
        2 => (u.clone(), spread(&u, 10, "new")),
        3 => (u.clone(), spread(&u, 200, "new")),
        19 => {
            let b = (0..n).flat_map(|i| if i % (n / 1500) == 0 { vec![u[i].clone(), b"new\n".to_vec()] } else { vec![u[i].clone()] }).collect();
            (u, b)
        }
        18 => (u.clone(), spread(&u, 2000, "new")),
        4 => (vec![], u),
        5 => (u, vec![]),
        6 => {
            // a large block is inserted
            let mut b = u[..n / 3].to_vec();
            b.extend(cycle(n / 2, 5));
            b.extend_from_slice(&u[n / 3..]);
            (u, b)
        }
        7 => (cycle(n, 1), cycle(n + 1, 1)),
        8 => (cycle(n, 1), cycle(n + n / 2, 1)),
        9 => (cycle(n, 2), cycle(n + 2, 2)),
        10 => (cycle(n, 3), spread(&cycle(n, 3), 20, "new")),
        11 => {
            // an insertion that can be moved all the way down
            let mut b = vec![b"a\n".to_vec()];
            b.extend(cycle(n, 1));
            let mut a = cycle(n, 1);
            a.push(b"z\n".to_vec());
            b.push(b"z\n".to_vec());
            (a, b)
        }
        12 => {
            // blank lines about every other line
            let v: Vec<_> = u.iter().flat_map(|l| [l.clone(), b"\n".to_vec()]).collect();
            let w = spread(&v, 30, "new");
            (v, w)
        }
        13 => {
            // one very long line
            let mut l = vec![b'x'; n * 10];
            l.push(b'\n');
            let mut m = l.clone();
            m[n * 5] = b'y';
            (vec![l], vec![m])
        }
        14 => {
            // only the last line
            let mut v = u.clone();
            v.push(b"end".to_vec());
            let mut w = u;
            w.push(b"end\n".to_vec());
            (v, w)
        }
        15 => {
            // the first line and the last
            let mut w = u.clone();
            w[0] = b"first\n".to_vec();
            w[n - 1] = b"last\n".to_vec();
            (u, w)
        }
        16 => {
            // long equal lines
            let v: Vec<_> = (0..n / 8).map(|i| format!("{}{}\n", "long ".repeat(60), i).into_bytes()).collect();
            let w = spread(&v, 12, "new");
            (v, w)
        }
        _ => {
            // a few lines that stand everywhere, single ones between them
            let v: Vec<_> = (0..n).map(|i| if i % 50 == 0 { u[i].clone() } else { vec![b'a' + (i % 7 % 3) as u8, b'\n'] }).collect();
            let w = spread(&v, 15, "new");
            (v, w)
        }
    };
    (a.concat(), b.concat())
}

fn size(i: u64, each: u64) -> usize {
    [60_000, 120_000, 250_000, 500_000][(i / each) as usize]
}

fn texts_n() -> u64 {
    PAIRS * 3
}
fn texts_n_thorough() -> u64 {
    PAIRS * 4
}
fn texts(i: u64, cx: &mut Cx) -> Res {
    let n = size(i, PAIRS);
    let (a, b) = pair(i % PAIRS, n);
    cx.input_n("shape", i % PAIRS);
    cx.input_n("lines", n as u64);
    cx.mark(a != b);
    let t = reference(&[&a, &b]);
    for ctx in [3, 0, usize::MAX] {
        let o = opts(ctx);
        let p = within("create_patch_bytes", 40, t, || o.create_patch_bytes(&a, &b))?;
        of_patch(&p, &a, &b, t)?;
        if (1..3).contains(&(i % PAIRS)) && ctx == 3 {
            // the hunks are far from where they say, after and before
            let far = [cycle(n / 2, 4).concat(), a.clone()].concat();
            within("apply_bytes, far", 40, t, || apply_bytes(&far, &p).map(|_| ()).map_err(|e| e.to_string()))??;
            let far = spread(&split(&a[..a.len() / 2]).iter().map(|l| l.to_vec()).collect::<Vec<_>>(), 1, "other").concat();
            within("apply_bytes, cut off", 20, t, || apply_bytes(&far, &p).is_ok())?;
        }
    }
    let (a, b) = (st(&a).unwrap(), st(&b).unwrap());
    for ctx in [3, usize::MAX] {
        let o = opts(ctx);
        let p = within("create_patch", 40, t, || o.create_patch(a, b))?;
        let s = within("to_string", 15, t, || p.to_string())?;
        within("from_str", 30, t, || Patch::from_str(&s).map(|_| ()).map_err(|e| e.to_string()))??;
        within("apply", 20, t, || apply(a, &p).map(|_| ()).map_err(|e| e.to_string()))??;
    }
    Ok(())
}

fn of_patch(p: &Patch<'_, [u8]>, a: &[u8], b: &[u8], t: Duration) -> Res {
    let s = within("to_bytes", 15, t, || p.to_bytes())?;
    let q = within("from_bytes", 30, t, || Patch::from_bytes(&s).map_err(|e| e.to_string()))??;
    within("==", 8, t, || *p == q)?;
    let r = within("reverse", 8, t, || p.reverse())?;
    within("clone", 8, t, || p.clone())?;
    within("apply_bytes", 20, t, || apply_bytes(a, p).map(|_| ()).map_err(|e| e.to_string()))??;
    within("apply_bytes, reversed", 20, t, || apply_bytes(b, &r).map(|_| ()).map_err(|e| e.to_string()))??;
    Ok(())
}

const TRIPLES: u64 = PAIRS + 3;
fn merges_n() -> u64 {
    TRIPLES * 3
}
fn merges_n_thorough() -> u64 {
    TRIPLES * 4
}
fn merges(i: u64, cx: &mut Cx) -> Res {
    let n = size(i, TRIPLES);
    let (k, u) = (i % TRIPLES, numbered(n));
    let (o, a, b) = match k {
        0 => (u.concat(), spread(&u, 10, "ours").concat(), spread(&u, 10, "theirs").concat()),
        1 => (u.concat(), spread(&u, 100, "ours").concat(), spread(&u, 101, "theirs").concat()),
        // one large conflict
        2 => (vec![], u.concat(), spread(&u, 1, "theirs").concat()),
        _ => {
            let (o, a) = pair(k - 3, n);
            (o.clone(), a, o)
        }
    };
    cx.input_n("shape", k);
    cx.input_n("lines", n as u64);
    cx.mark(a != b);
    let t = reference(&[&o, &a, &b]);
    let (so, sa, sb) = (st(&o).unwrap(), st(&a).unwrap(), st(&b).unwrap());
    within("merge_bytes", 40, t, || merge_bytes(&o, &a, &b).is_ok())?;
    within("merge_bytes, exchanged", 40, t, || merge_bytes(&o, &b, &a).is_ok())?;
    within("merge_bytes, the same twice", 40, t, || merge_bytes(&o, &a, &a).is_ok())?;
    within("merge", 40, t, || merge(so, sa, sb).is_ok())?;
    Ok(())
}

const PATCH_TEXTS: u64 = 15;
fn patch_texts_n() -> u64 {
    PATCH_TEXTS * 3
}
fn patch_texts_n_thorough() -> u64 {
    PATCH_TEXTS * 4
}
/// Patch texts of about `n` lines (10 `n` bytes), well-formed or not.
fn patch_text(i: u64, n: usize) -> Vec<u8> {
    let many = |n: usize, gap: usize| (0..n).map(|i| format!("@@ -{0} +{0} @@ f{0}\n-a\n+b\n", 1 + i * gap)).collect::<String>();
    let one = |c: &str| {
        let body: String = (0..n).map(|i| format!("{c}line {i}\n")).collect();
        let (o, m) = match c {
            " " => (n, n),
            "-" => (n, 0),
            _ => (0, n),
        };
        format!("--- a\n+++ b\n@@ -1,{o} +1,{m} @@\n{body}")
    };
    match i {
        0 => many(n / 3, 3),
        1 => many(n / 3, 1),
        2 => one(" "),
        3 => one("-"),
        4 => one("+"),
        // a preamble, and nothing but a preamble
        5 => format!("{}--- a\n+++ b\n@@ -1 +1 @@\n-a\n+b\n", "index\n".repeat(n)),
        6 => "--\n".repeat(n),
        // long names, plain and full of escapes, a long time stamp, a long heading
        7 => format!("--- {}\n+++ b\n@@ -1 +1 @@\n-a\n+b\n", "x".repeat(n * 10)),
        8 => format!("--- \"{}\"\n+++ b\n@@ -1 +1 @@\n-a\n+b\n", "\\n\\\\".repeat(n * 2)),
        9 => format!("--- a\t{}\n+++ b\n@@ -1 +1 @@ {}\n-a\n+b\n", "0".repeat(n * 5), " @".repeat(n * 3)),
        // errors at the very end: order, count, character
        10 => format!("{}@@ -1 +1 @@\n-a\n+b\n", many(n / 3, 3)),
        11 => format!("{}+\n", one("+")),
        12 => format!("{}?\n", one(" ")),
        // hunks that fit the numbered lines
        14 => (0..n / 10).map(|i| format!("@@ -{0} +{0} @@\n-line {1}\n+new {1}\n", 10 * i + 4, 10 * i + 3)).collect(),
        // long digits and unterminated headers
        _ => format!("@@ -{} +1 @", "0".repeat(n * 10)),
    }
    .into_bytes()
}
fn patch_texts(i: u64, cx: &mut Cx) -> Res {
    let n = size(i, PATCH_TEXTS);
    let t = patch_text(i % PATCH_TEXTS, n);
    cx.input_n("shape", i % PATCH_TEXTS);
    cx.input_n("lines", n as u64);
    cx.mark(t.windows(3).any(|w| w == b"@@ "));
    let r = reference(&[&t]);
    let p = within("from_bytes", 30, r, || Patch::from_bytes(&t))?;
    within("from_str", 30, r, || Patch::from_str(st(&t).unwrap()).is_ok())?;
    cx.class(if p.is_ok() { "accepted" } else { "rejected" });
    if let Ok(p) = p {
        within("to_bytes", 15, r, || p.to_bytes())?;
        within("reverse", 8, r, || p.reverse())?;
        within("clone", 8, r, || p.clone())?;
        within("==", 8, r, || p == p.clone())?;
        if i % PATCH_TEXTS == 14 {
            // every line stays where it is, so that the number of hunks costs nothing
            let base = numbered(n).concat();
            let r = reference(&[&t, &base]);
            within("apply_bytes, replacing lines", 20, r, || apply_bytes(&base, &p).map(|_| ()).map_err(|e| e.to_string()))??;
            let (base, p) = (st(&base).unwrap(), Patch::from_str(st(&t).unwrap()).map_err(|e| e.to_string())?);
            within("apply, replacing lines", 20, r, || apply(base, &p).map(|_| ()).map_err(|e| e.to_string()))??;
        }
        // the same printed in other ways, and as a string
        let (colour, spaces) = (PatchFormatter::new().with_color(), PatchFormatter::new().suppress_blank_empty(false).missing_newline_message(false));
        for f in [&colour, &spaces] {
            within("write_patch_into", 25, r, || f.write_patch_into(&p, Vec::new()).map_err(|e| e.to_string()))??;
        }
        {
            let p = Patch::from_str(st(&t).unwrap()).map_err(|e| e.to_string())?;
            within("to_string", 15, r, || p.to_string())?;
            within("fmt_patch, colour", 25, r, || colour.fmt_patch(&p).to_string())?;
            within("fmt_patch, no suppression", 15, r, || spaces.fmt_patch(&p).to_string())?;
            within("to_bytes of a string patch", 15, r, || p.to_bytes())?;
            within("reverse of a string patch", 8, r, || p.reverse())?;
            within("clone of a string patch", 8, r, || p.clone())?;
            within("== of string patches", 8, r, || p == p.clone())?;
        }
        // a text none of its hunks belongs to
        within("apply_bytes, failing", 20, r, || apply_bytes(b"x\ny\nz\n", &p).is_ok())?;
    }
    Ok(())
}

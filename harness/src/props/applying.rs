//! Properties of applying patches to texts other than the one they were made from: C10, C11.

use super::parsing::{add_empty_hunks, write_plain};
use super::*;
use crate::refm::*;
use diffy::{apply, apply_bytes, Patch};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            rule: "patches with hunks taken from real diffs or written freely, with their line numbers shifted, some context or deleted lines changed, applied to the original, an edited, or an unrelated text with many repeated lines; compared with a model that tries every position; and lines with every byte and word of a list. Non-trivial: some hunk is placed away from its stated line, or some hunk fails",
            parts: vec![
                rnd("perturbed", 500_000, 20_000_000, c10_perturbed),
                rnd("free", 1_000_000, 40_000_000, c10_free),
                rnd("long", 20_000, 800_000, c10_long),
                rnd("far", 3_000, 120_000, c10_far),
                enm("small", c10_small_n, c10_small_n_thorough, c10_small),
                enm("distances", c10_distances_n, c10_distances_n, c10_distances),
                enm("numbers", c10_numbers_n, c10_numbers_n, c10_numbers),
                enm("bytes", near_lines, near_lines, c10_bytes),
            ],
        },
        Prop {
            id: "C11",
            rule: "a created patch with at least one context line whose hunks each match the shifted base at one place only (others are discarded), where the base has fresh unrelated lines added, removed or changed outside the hunks, and the header line numbers are moved by random offsets up to the largest representable; and shifts, hunks and lines of every size of a grid. Non-trivial: the patch has a hunk and the base or a header changed",
            parts: vec![rnd("shifted", 800_000, 32_000_000, c11_random), rnd("long", 20_000, 800_000, c11_long), rnd("far", 1_200, 48_000, c11_far), enm("sizes and bytes", shifts, shifts, c11_sizes)],
        },
        Prop {
            id: "C30",
            rule: "versions of a text whose regions, each with variants of its own, lie farther apart than the context shown; a current version is changed again and again by patches between other versions, whole, in parts or some hunks only, forward or reversed, as text, and by merges with other versions. The expected text is the model's variant of every region. Non-trivial: a patch was applied to a text other than the one it was made from",
            parts: vec![rnd("steps", 700_000, 28_000_000, c30), rnd("long", 12_000, 480_000, c30_long)],
        },
    ]
}

fn to_applied(r: Result<Vec<u8>, diffy::ApplyError>) -> Result<Applied, String> {
    match r {
        Ok(v) => Ok(Ok(v)),
        Err(e) => {
            let t = e.to_string();
            let n = t
                .strip_prefix("error applying hunk #")
                .and_then(|n| n.parse::<usize>().ok())
                .ok_or_else(|| format!("error text {t:?} does not name a hunk"))?;
            Ok(Err(n))
        }
    }
}

fn show_applied(a: &Applied) -> String {
    match a {
        Ok(v) => format!("Ok {}", clip(v)),
        Err(n) => format!("error at hunk {n}"),
    }
}

/// Compare the library with the model on a patch given as a model.
fn c10_compare(base: &[u8], m: &RPatch, cx: &mut Cx) -> Res {
    let text = write_plain(m);
    cx.input("base", base);
    cx.input("patch", &text);
    let Ok(p) = Patch::from_bytes(&text) else {
        cx.class("patch rejected");
        return Ok(());
    };
    // what the library thinks it read is what it has to apply
    let seen = observe_b(&p);
    let Some((want, moved)) = apply_model(base, &seen.hunks) else {
        cx.class("too many ties");
        return Ok(());
    };
    let got = to_applied(apply_bytes(base, &p))?;
    cx.class(match (&got, moved) {
        (Ok(_), false) => "applied at stated lines",
        (Ok(_), true) => "applied elsewhere",
        (Err(1), _) => "first hunk fails",
        (Err(_), _) => "later hunk fails",
    });
    cx.class_if(want.len() > 1, "tie");
    cx.mark(moved || got.is_err());
    check(want.contains(&got), || {
        format!(
            "apply_bytes gives {}\n  acceptable: {}",
            show_applied(&got),
            want.iter().take(4).map(show_applied).collect::<Vec<_>>().join("\n    or ")
        )
    })?;
    // the reversed patch is a patch too
    let r = p.reverse();
    if let Some((want, _)) = apply_model(base, &observe_b(&r).hunks) {
        let got = to_applied(apply_bytes(base, &r))?;
        check(want.contains(&got), || {
            format!(
                "apply_bytes of the reversed patch gives {}\n  acceptable: {}",
                show_applied(&got),
                want.iter().take(4).map(show_applied).collect::<Vec<_>>().join("\n    or ")
            )
        })?;
    }
    if let (Some(t), Some(b)) = (st(&text), st(base)) {
        if let Ok(p) = Patch::from_str(t) {
            let got = to_applied(apply(b, &p).map(String::into_bytes))?;
            if let Some((want, _)) = apply_model(base, &observe_s(&p).hunks) {
                check(want.contains(&got), || {
                    format!(
                        "apply gives {}\n  acceptable: {}",
                        show_applied(&got),
                        want.iter().take(4).map(show_applied).collect::<Vec<_>>().join("\n    or ")
                    )
                })?;
            }
        }
    }
    Ok(())
}

/// Move the hunks' stated lines, keeping their order.
pub fn shift_headers(s: &mut Src, hunks: &mut [RHunk], most: usize) {
    let (mut fo, mut fnw) = (0usize, 0usize);
    let both = s.chance(1, 2);
    let dir = |s: &mut Src| match s.us(4) {
        0 => 0isize,
        1 => s.us(4) as isize,
        2 => -(s.us(4) as isize),
        _ => s.us(2 * most + 1) as isize - most as isize,
    };
    for h in hunks.iter_mut() {
        let d = dir(s);
        let e = if both { d } else { dir(s) };
        let least = |len: usize, floor: usize| if len > 0 { floor.max(1) } else { floor };
        h.os = (h.os as isize).saturating_add(d).max(least(h.ol, fo) as isize) as usize;
        h.ns = (h.ns as isize).saturating_add(e).max(least(h.nl, fnw) as isize) as usize;
        fo = h.os + h.ol;
        fnw = h.ns + h.nl;
    }
}

fn c10_perturbed(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::pair_sized(s, 0);
    let n = match s.us(5) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        _ => s.us(8),
    };
    c10_from(s, p, n, cx)
}

fn c10_long(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::pair_sized(s, 100);
    let n = s.us(4);
    c10_from(s, p, n, cx)
}

/// The hunks fit only at a few places, thousands of lines from where they say.
fn c10_far(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::pair_sized(s, 0);
    let n = s.us(4);
    let mut m = observe_b(&opts(n).create_patch_bytes(&p.a, &p.b));
    m.old = None;
    m.new = None;
    let mut base = Vec::new();
    let copies = 1 + s.us(3);
    let mut lines = 0;
    for c in 0..=copies {
        let many = match s.us(4) {
            0 => s.us(10),
            1 => 100 + s.us(2000),
            2 => 2000 + s.us(4000),
            _ => 8000 + s.us(30_000),
        };
        for i in 0..many {
            base.extend_from_slice(format!("noise {c} {i}\n").as_bytes());
        }
        lines += many;
        if c < copies {
            base.extend_from_slice(&p.a);
            if !base.is_empty() && !base.ends_with(b"\n") {
                base.push(b'\n');
            }
        }
    }
    let at = s.us(lines + 1);
    for h in &mut m.hunks {
        h.os += at;
        h.ns += at;
    }
    c10_compare(&base, &m, cx)
}

fn c10_from(s: &mut Src, p: gen::Pair, n: usize, cx: &mut Cx) -> Res {
    let mut m = observe_b(&opts(n).create_patch_bytes(&p.a, &p.b));
    m.old = None;
    m.new = None;
    let alpha: Vec<gen::Line> = {
        let mut v: Vec<gen::Line> = split(&p.a).iter().take(8).map(|l| l.strip_suffix(b"\n").unwrap_or(l).to_vec()).collect();
        v.push(b"zz".to_vec());
        v
    };
    // the base to apply to
    let base = match s.weighted(&[4, 4, 1, 2]) {
        0 => p.a.clone(),
        1 => {
            let l: Vec<gen::Line> = split(&p.a).iter().map(|l| l.strip_suffix(b"\n").unwrap_or(l).to_vec()).collect();
            let e = gen::edit(s, &l, &alpha, 3);
            gen::join(&e, gen::final_nl(s))
        }
        2 => p.b.clone(),
        _ => {
            // copies of the original, so that hunks fit in several places
            let mut v = Vec::new();
            for _ in 0..2 + s.us(2) {
                v.extend_from_slice(&p.a);
                if !v.is_empty() && !v.ends_with(b"\n") {
                    v.push(b'\n');
                }
            }
            v
        }
    };
    // make lines of some hunks stale
    while s.more(1) {
        if m.hunks.is_empty() {
            break;
        }
        let k = s.us(m.hunks.len());
        let h = &mut m.hunks[k];
        let i = s.us(h.lines.len());
        if h.lines[i].1.ends_with(b"\n") {
            h.lines[i].1 = s.pick(&alpha).clone();
            h.lines[i].1.push(b'\n');
        }
    }
    let most = split(&base).len() + 3;
    shift_headers(s, &mut m.hunks, most);
    c10_compare(&base, &m, cx)
}

/// A text and hunks not taken from any diff, over very few different lines.
pub fn free(s: &mut Src) -> (Vec<u8>, RPatch) {
    let k = 1 + s.us(3);
    let alpha: Vec<gen::Line> = (0..k).map(|i| vec![b'a' + i as u8]).collect();
    let l = gen::lines(s, &alpha, 8, 0);
    let base = gen::join(&l, gen::final_nl(s));
    let mut m = RPatch::default();
    let (mut fo, mut fnw) = (0, 0);
    for _ in 0..1 + s.us(4) {
        let mut lines = Vec::new();
        loop {
            let t = *s.pick(b" -+");
            let mut c = s.pick(&alpha).clone();
            c.push(b'\n');
            lines.push((t, c));
            if !s.more(2) {
                break;
            }
        }
        let ol = lines.iter().filter(|l| l.0 != b'+').count();
        let nl = lines.iter().filter(|l| l.0 != b'-').count();
        let os = fo + s.us(5) + usize::from(ol > 0 && fo == 0);
        let ns = fnw + s.us(5) + usize::from(nl > 0 && fnw == 0);
        m.hunks.push(RHunk { os, ol, ns, nl, heading: None, lines });
        fo = os + ol;
        fnw = ns + nl;
    }
    if s.chance(1, 8) {
        add_empty_hunks(s, &mut m);
    }
    // the last line of the last hunk may lack its newline
    if s.chance(1, 5) {
        if let Some(l) = m.hunks.last_mut().and_then(|h| h.lines.last_mut()) {
            l.1.pop();
        }
    }
    (base, m)
}

fn c10_free(s: &mut Src, cx: &mut Cx) -> Res {
    let (base, m) = free(s);
    c10_compare(&base, &m, cx)
}

// every base over {a, b} with up to 5 lines, one hunk with 1 or 2 old lines and stated line 0..7
const BASE_MAX: usize = 6;
fn c10_bases() -> &'static [Vec<u8>] {
    texts((2, BASE_MAX, false))
}
const BODIES: &[&[(u8, &[u8])]] = &[
    &[(b'-', b"a\n")],
    &[(b'+', b"x\n")],
    &[(b'-', b"a\n"), (b'+', b"x\n")],
    &[(b' ', b"a\n"), (b'+', b"x\n")],
    &[(b'+', b"x\n"), (b' ', b"a\n")],
    &[(b' ', b"a\n"), (b'-', b"b\n")],
    &[(b'-', b"a\n"), (b'-', b"b\n"), (b'+', b"x\n")],
    &[(b' ', b"b\n"), (b'-', b"b\n"), (b'+', b"a\n"), (b' ', b"a\n")],
    &[(b' ', b"a\n"), (b'+', b"a\n"), (b' ', b"a\n")],
];
const STATED: u64 = 9;

fn c10_small_n() -> u64 {
    let n = c10_bases().len() as u64;
    let b = BODIES.len() as u64;
    n * b * STATED
}
fn c10_small_n_thorough() -> u64 {
    let n = c10_bases().len() as u64;
    let b = BODIES.len() as u64;
    n * b * STATED + n * b * b * 5 * 5
}

fn c10_small(i: u64, cx: &mut Cx) -> Res {
    let n = c10_bases().len() as u64;
    let b = BODIES.len() as u64;
    let hunk = |body: u64, ns: usize, os: usize| -> RHunk {
        let lines: Vec<(u8, Vec<u8>)> = BODIES[body as usize].iter().map(|(t, l)| (*t, l.to_vec())).collect();
        let mut h = RHunk { os, ol: 0, ns, nl: 0, heading: None, lines };
        let c = h.counts();
        h.ol = c.0;
        h.nl = c.1;
        h
    };
    if i < n * b * STATED {
        let (base, r) = (i % n, i / n);
        let (body, at) = (r % b, (r / b) as usize);
        let m = RPatch { hunks: vec![hunk(body, at, at)], ..RPatch::default() };
        return c10_compare(&c10_bases()[base as usize], &m, cx);
    }
    let i = i - n * b * STATED;
    let (base, r) = (i % n, i / n);
    let (b1, r) = (r % b, r / b);
    let (b2, r) = (r % b, r / b);
    let (a1, a2) = ((r % 5) as usize, (r / 5) as usize);
    let h1 = hunk(b1, a1, a1);
    let (fo, fnw) = (h1.os + h1.ol, h1.ns + h1.nl);
    let h2 = hunk(b2, fnw + a2, fo + a2);
    let m = RPatch { hunks: vec![h1, h2], ..RPatch::default() };
    c10_compare(&c10_bases()[base as usize], &m, cx)
}

/// One hunk whose lines stand at most at two places, at given distances before and after the stated one.
const DISTANCES: usize = 66_000;
fn c10_distances_n() -> u64 {
    gen::sizes(DISTANCES).len() as u64 * 10
}
fn c10_distances(i: u64, cx: &mut Cx) -> Res {
    let d = gen::sizes(DISTANCES)[(i / 10) as usize];
    let (before, after) = match i % 5 {
        0 => (Some(d), None),
        1 => (None, Some(d)),
        2 => (Some(d), Some(d + 1)),
        3 => (Some(d + 1), Some(d)),
        _ => (Some(d), Some(2 * d + 7)),
    };
    let lines: Vec<(u8, Vec<u8>)> = if i % 10 < 5 {
        vec![(b' ', b"p\n".to_vec()), (b'+', b"new\n".to_vec()), (b' ', b"q\n".to_vec())]
    } else {
        vec![(b'-', b"p\n".to_vec()), (b'+', b"new\n".to_vec())]
    };
    let mut h = RHunk { os: 0, ol: 0, ns: 0, nl: 0, heading: None, lines };
    let c = h.counts();
    (h.ol, h.nl) = c;
    let mut base = Vec::new();
    let mut at = 5;
    if let Some(d) = before {
        at += d;
    }
    let far = after.unwrap_or(0).max(5);
    for k in 0..at + far + 10 {
        let (b, a) = (before.map(|d| at - d), after.map(|d| at + d));
        if Some(k) == b || Some(k) == a {
            base.extend_from_slice(b"p\n");
        } else if c.0 == 2 && k > 0 && (Some(k - 1) == b || Some(k - 1) == a) {
            base.extend_from_slice(b"q\n");
        } else {
            base.extend_from_slice(format!("{k}\n").as_bytes());
        }
    }
    h.os = at + 1;
    h.ns = at + 1;
    cx.input_n("distance", d as u64);
    c10_compare(&base, &RPatch { hunks: vec![h], ..RPatch::default() }, cx)
}

/// Many hunks, of which one in the middle or the last does not match.
fn c10_numbers_n() -> u64 {
    gen::sizes(131_073).len() as u64 * 3
}
fn c10_numbers(i: u64, cx: &mut Cx) -> Res {
    let n = gen::sizes(131_073)[(i / 3) as usize].max(1);
    let bad = match i % 3 {
        0 => n,
        1 => n / 2 + 1,
        _ => n + 1,
    };
    let mut base = Vec::new();
    let mut m = RPatch::default();
    for k in 1..=n {
        base.extend_from_slice(format!("{k}\nkeep {k}\n").as_bytes());
        let old = if k == bad { b"absent\n".to_vec() } else { format!("{k}\n").into_bytes() };
        let at = 2 * k - 1;
        m.hunks.push(RHunk { os: at, ol: 1, ns: at, nl: 1, heading: None, lines: vec![(b'-', old), (b'+', b"new\n".to_vec())] });
    }
    cx.input_n("failing hunk", bad as u64);
    if n <= 1_100 {
        return c10_compare(&base, &m, cx);
    }
    // too large for the model, but plain to see
    cx.input_n("hunks", n as u64);
    cx.mark(true);
    let text = write_plain(&m);
    let want: Applied = if bad <= n {
        Err(bad)
    } else {
        Ok((1..=n).flat_map(|k| format!("new\nkeep {k}\n").into_bytes()).collect())
    };
    let differs = |what: &str, got: Applied| {
        check(got == want, || format!("{what} gives {} instead of {}", show_applied(&got), show_applied(&want)))
    };
    let p = Patch::from_bytes(&text).map_err(|e| e.to_string())?;
    differs("apply_bytes", to_applied(apply_bytes(&base, &p))?)?;
    let (text, base) = (st(&text).unwrap(), st(&base).unwrap());
    let p = Patch::from_str(text).map_err(|e| e.to_string())?;
    differs("apply", to_applied(apply(base, &p).map(String::into_bytes))?)
}

/// Lines that differ from the wanted one by one byte or word.
const BYTES: u64 = 16;
pub fn near_lines() -> u64 {
    gen::units().len() as u64 * BYTES
}
pub fn near_line(i: u64) -> (Vec<u8>, RPatch) {
    let u = &gen::units()[(i / BYTES) as usize];
    let i = i % BYTES;
    let nl = |l: &[u8]| [l, b"\n"].concat();
    // the line, and one that is nearly the same
    let (line, near) = match i % 4 {
        0 => (u.clone(), vec![]),
        1 => ([b"x", &u[..]].concat(), b"x".to_vec()),
        2 => (b"x y".to_vec(), [&u[..], b"x y"].concat()),
        _ => ([b"x", &u[..], b"y"].concat(), b"xzy".to_vec()),
    };
    let (line, near) = (nl(&line), nl(&near));
    let lines = if i < 8 {
        vec![(b' ', line.clone()), (b'+', b"new\n".to_vec())]
    } else {
        vec![(b'-', line.clone()), (b' ', b"after\n".to_vec())]
    };
    let mut h = RHunk { os: 4, ol: 0, ns: 4, nl: 0, heading: None, lines };
    (h.ol, h.nl) = h.counts();
    let near2 = [&near[..], b"after\n"].concat();
    let line2 = [&line[..], b"after\n"].concat();
    let base = match i / 4 % 2 {
        // the nearly same one stands where the hunk says, the wanted one further down
        0 => [b"1\n2\n3\n", &near2[..], b"6\n", &line2, b"9\n"].concat(),
        // the wanted one does not occur, but for its newline
        _ => [b"1\n2\n3\n", &near2[..], b"6\n", &line[..line.len() - 1]].concat(),
    };
    (base, RPatch { hunks: vec![h], ..RPatch::default() })
}

fn c10_bytes(i: u64, cx: &mut Cx) -> Res {
    let (base, m) = near_line(i);
    cx.input_n("variant", i % BYTES);
    c10_compare(&base, &m, cx)
}

fn c11_sizes_of() -> &'static [usize] {
    static C: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    C.get_or_init(|| gen::sizes(131_073))
}
const SHIFTS: u64 = 8;
const SHIFT_UNITS: u64 = 6;
pub fn shifts() -> u64 {
    c11_sizes_of().len() as u64 * SHIFTS + gen::units().len() as u64 * SHIFT_UNITS
}

/// A text, a patch for it, and the result.
pub struct Shift {
    pub base: Vec<u8>,
    pub patch: RPatch,
    want: Vec<u8>,
}

/// A patch of two hunks for a text that has grown or shrunk by every number of lines of a list at one
/// place, or that holds one byte or word in the lines around or in the hunks.
pub fn shift(i: u64) -> Option<Shift> {
    let units = gen::units().len() as u64 * SHIFT_UNITS;
    let join = |parts: &[&[Vec<u8>]]| parts.concat().concat();
    let text = |t: &str| -> Vec<Vec<u8>> { t.split_inclusive('\n').map(|l| l.as_bytes().to_vec()).collect() };
    let (mut h1, mut h2) = (text("one#\ntwo#\nthree#\n"), text("four#\nfive#\nsix#\n"));
    let (n1, mut n2) = (text("one#\nnew#\nthree#\n"), text("four#\nsix#\n"));
    let ends: Vec<Vec<u8>> = text("a#\nb#\nc#\nd#\ne#\nf#\n");
    let (head, tail) = (ends[..3].to_vec(), ends[3..].to_vec());
    let mid = text("g#\nh#\ni#\n");
    // lines of the text that the patch was made for, and of the one it is applied to, at three places
    let mut was: [Vec<Vec<u8>>; 3] = Default::default();
    let mut is: [Vec<Vec<u8>>; 3] = Default::default();
    // what the places in the headers are off by
    let mut off = 0;
    if i < units {
        let u = &gen::units()[(i / SHIFT_UNITS) as usize];
        let l = |pre: &[u8], post: &[u8]| [pre, u, post, b"\n"].concat();
        match i % SHIFT_UNITS {
            0 => is[0] = vec![l(b"", b"")],
            1 => is[1] = vec![l(b"", b""), l(b"~", b"")],
            2 => is[2] = vec![l(b"~", b"~")],
            3 => was[0] = vec![l(b"", b""), l(b"~", b"")],
            4 => {
                h1[1] = l(b"two#", b"");
                is[0] = vec![b"two#\n".to_vec(), b"more\n".to_vec()];
            }
            _ => {
                h2[0] = l(b"", b"four#");
                n2[0] = h2[0].clone();
                is[1] = vec![b"four#\n".to_vec(), b"five#\n".to_vec(), b"seven#\n".to_vec()];
            }
        }
    } else {
        let n = c11_sizes_of()[((i - units) / SHIFTS) as usize];
        let many: Vec<Vec<u8>> = (0..n).map(|k| format!("noise {k}\n").into_bytes()).collect();
        match (i - units) % SHIFTS {
            0 => is[0] = many,
            1 => was[0] = many,
            2 => is[1] = many,
            3 => was[1] = many,
            4 => is[2] = many,
            5 => {
                // far from where it was, with as much text after it
                was[0] = many.clone();
                is[2] = many;
            }
            6 => off = n,
            _ => {
                is[0] = many.clone();
                was[1] = many.clone();
                is[2] = many;
            }
        }
    }
    let old = join(&[&head, &was[0], &h1, &mid, &was[1], &h2, &was[2], &tail]);
    let new = join(&[&head, &was[0], &n1, &mid, &was[1], &n2, &was[2], &tail]);
    let base = join(&[&head, &is[0], &h1, &mid, &is[1], &h2, &is[2], &tail]);
    let want = join(&[&head, &is[0], &n1, &mid, &is[1], &n2, &is[2], &tail]);
    let mut m = observe_b(&opts(1).create_patch_bytes(&old, &new));
    for h in &mut m.hunks {
        h.os += off;
        h.ns += off;
    }
    m.old = None;
    m.new = None;
    if m.hunks.len() != 2 || m.hunks[0].pre().concat() != h1.concat() || m.hunks[1].pre().concat() != h2.concat() {
        // how hunks are made is not this property's business
        return None;
    }
    Some(Shift { base, patch: m, want })
}

fn c11_sizes(i: u64, cx: &mut Cx) -> Res {
    let Some(Shift { base, patch, want }) = shift(i) else {
        cx.class("discarded: not the two hunks expected");
        return Ok(());
    };
    cx.mark(true);
    cx.class("a patch of two hunks");
    let t = write_plain(&patch);
    cx.input("base", &base);
    cx.input("patch", &t);
    let p = Patch::from_bytes(&t).map_err(|e| format!("from_bytes: {e}"))?;
    let got = apply_bytes(&base, &p).map_err(|e| format!("apply_bytes: {e}"))?;
    same("apply_bytes", &got, &want)?;
    if let (Some(base), Some(t)) = (st(&base), st(&t)) {
        let p = Patch::from_str(t).map_err(|e| format!("from_str: {e}"))?;
        let got = apply(base, &p).map_err(|e| format!("apply: {e}"))?;
        same("apply", got.as_bytes(), &want)?;
    }
    Ok(())
}

fn c11_random(s: &mut Src, cx: &mut Cx) -> Res {
    c11(s, cx, false, false)
}
fn c11_long(s: &mut Src, cx: &mut Cx) -> Res {
    c11(s, cx, true, false)
}
/// Thousands of unrelated lines added between the hunks.
fn c11_far(s: &mut Src, cx: &mut Cx) -> Res {
    let long = s.chance(1, 4);
    c11(s, cx, long, true)
}

fn c11(s: &mut Src, cx: &mut Cx, long: bool, far: bool) -> Res {
    let utf8 = gen::utf8(s);
    let alpha = gen::alphabet(s, utf8);
    // mostly unique lines, so that hunks match at one place
    let la = if long {
        gen::long(s, &alpha)
    } else {
        let n = 4 + s.us(40);
        (0..n)
            .map(|i| if s.chance(1, 4) { s.pick(&alpha).clone() } else { format!("u{i}").into_bytes() })
            .collect()
    };
    let lb = gen::edit(s, &la, &alpha, 3);
    let (a, b) = (gen::join(&la, gen::final_nl(s)), gen::join(&lb, gen::final_nl(s)));
    let n = 1 + s.us(4);
    let p = opts(n).create_patch_bytes(&a, &b);
    let mut m = observe_b(&p);
    m.old = None;
    m.new = None;
    // split the original into hunk regions and what lies between
    let ls = split(&a);
    let mut between: Vec<Vec<Vec<u8>>> = Vec::new();
    let mut at = 0;
    for h in &m.hunks {
        let o = if h.ol == 0 { h.os } else { h.os - 1 };
        between.push(ls[at..o].iter().map(|l| l.to_vec()).collect());
        at = o + h.ol;
    }
    between.push(ls[at..].iter().map(|l| l.to_vec()).collect());
    // unrelated edits between the hunks
    let mut k = 0;
    let mut edits = 0;
    let last = between.len() - 1;
    let hunk_ends_text = at == ls.len();
    for (bi, seg) in between.iter_mut().enumerate() {
        // a text that ends inside the last hunk without newline can take no line after it
        if bi == last && hunk_ends_text && !a.is_empty() && !a.ends_with(b"\n") {
            continue;
        }
        let ends_raw = bi == last && !a.ends_with(b"\n") && !seg.is_empty();
        while s.more(1) {
            edits += 1;
            k += 1;
            let fresh = format!("noise {k}\n").into_bytes();
            let room = seg.len() - usize::from(ends_raw);
            match s.us(4) {
                0 | 1 => {
                    let i = s.us(room + 1);
                    let many = if far {
                        match s.us(3) {
                            0 => 200 + s.us(2000),
                            1 => 2000 + s.us(8000),
                            _ => 10_000 + s.us(60_000),
                        }
                    } else if s.chance(1, 6) {
                        40
                    } else {
                        1
                    };
                    let new: Vec<Vec<u8>> = (0..many).map(|j| format!("noise {k} {j}\n").into_bytes()).collect();
                    seg.splice(i..i, new);
                }
                2 if room > 0 => {
                    seg.remove(s.us(room));
                }
                3 if room > 0 => {
                    let i = s.us(room);
                    seg[i] = fresh;
                }
                _ => edits -= 1,
            }
        }
    }
    let (mut base, mut want) = (Vec::new(), Vec::new());
    for (i, seg) in between.iter().enumerate() {
        base.extend(seg.concat());
        want.extend(seg.concat());
        if let Some(h) = m.hunks.get(i) {
            base.extend(h.pre().concat());
            want.extend(h.post().concat());
        }
    }
    // each hunk must match at one place only
    let bl = split(&base);
    for h in &m.hunks {
        let pre = h.pre();
        let fits = if pre.is_empty() || pre.len() > bl.len() { 0 } else { bl.windows(pre.len()).filter(|w| *w == &pre[..]).count() };
        if fits != 1 {
            cx.class("discarded: a hunk matches at several places or has no context");
            return Ok(());
        }
    }
    // the header line numbers are off
    let mut moved = false;
    match s.us(4) {
        0 => {}
        1 => {
            let before = m.hunks.clone();
            shift_headers(s, &mut m.hunks, bl.len() + 10);
            moved = before != m.hunks;
        }
        2 => {
            // as far as the numbers go: all hunks move together
            if let Some(e) = m.hunks.last().map(|h| (h.os + h.ol).max(h.ns + h.nl)) {
                let room = usize::MAX - e;
                let d = match s.us(3) {
                    0 => room - s.us(3),
                    1 => room / 2 + s.us(3),
                    _ => s.us(1 << 40),
                };
                for h in &mut m.hunks {
                    h.os += d;
                    h.ns += d;
                }
                moved = true;
                cx.class("huge line numbers");
            }
        }
        _ => {
            // only one side is off
            let d = s.us(100_000);
            for h in &mut m.hunks {
                h.ns += d;
            }
            moved = d > 0;
        }
    }
    let text = write_plain(&m);
    input_pair(cx, &a, &b, n);
    cx.input("base", &base);
    cx.input("patch", &text);
    cx.class_if(moved, "line numbers moved");
    cx.class_if(edits > 0, "base edited");
    cx.class_if(m.hunks.len() > 1, "several hunks");
    cx.mark(!m.hunks.is_empty() && (moved || edits > 0));
    let p = Patch::from_bytes(&text).map_err(|e| format!("the shifted patch does not parse: {e}"))?;
    let got = apply_bytes(&base, &p).map_err(|e| format!("apply_bytes: {e}"))?;
    same("apply_bytes(shifted base, patch)", &got, &want)?;
    if let (Some(t), Some(bs)) = (st(&text), st(&base)) {
        let p = Patch::from_str(t).map_err(|e| format!("the shifted patch does not parse as str: {e}"))?;
        let got = apply(bs, &p).map_err(|e| format!("apply: {e}"))?;
        same("apply(shifted base, patch)", got.as_bytes(), &want)?;
    }
    // and the patch object itself, unshifted numbers
    if !moved {
        let p = opts(n).create_patch_bytes(&a, &b);
        let got = apply_bytes(&base, &p).map_err(|e| format!("apply_bytes with the created patch: {e}"))?;
        same("apply_bytes(shifted base, created patch)", &got, &want)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C30

/// Which variant each region has.
type State = Vec<usize>;

fn c30(s: &mut Src, cx: &mut Cx) -> Res {
    let (regions, steps) = (2 + s.us(6), 1 + s.us(6));
    c30_run(s, cx, regions, steps)
}
fn c30_long(s: &mut Src, cx: &mut Cx) -> Res {
    let (regions, steps) = (8 + s.us(80), 4 + s.us(20));
    c30_run(s, cx, regions, steps)
}

/// The head of a printed patch and its hunks.
fn pieces(text: &[u8]) -> (Vec<u8>, Vec<Vec<u8>>) {
    let (mut head, mut hunks) = (vec![], Vec::<Vec<u8>>::new());
    for l in split(text) {
        if l.starts_with(b"@@ ") {
            hunks.push(vec![]);
        }
        match hunks.last_mut() {
            Some(h) => h.extend(l),
            None => head.extend(l),
        }
    }
    (head, hunks)
}

/// The regions whose lines a hunk changes, in order.
fn regions_of(hunk: &[u8]) -> Result<Vec<usize>, String> {
    let mut v = vec![];
    for l in split(hunk).iter().filter(|l| l.starts_with(b"+") || l.starts_with(b"-")) {
        let number = l[1..].strip_prefix(b"region ").and_then(|l| l.split(|c| *c == b' ').next());
        let r = number.and_then(st).and_then(|n| n.parse().ok());
        let r: usize = r.ok_or_else(|| format!("a change to a line that is alike in both texts: {}", clip(hunk)))?;
        if v.last() != Some(&r) {
            v.push(r);
        }
    }
    Ok(v)
}

fn c30_run(s: &mut Src, cx: &mut Cx, regions: usize, steps: usize) -> Res {
    let utf8 = gen::utf8(s);
    let most = 1 + s.us(5);
    // every region has a few variants, which take lines in the same order from the region's own
    let lines: Vec<Vec<gen::Line>> = (0..regions)
        .map(|r| {
            (0..1 + s.us(6))
                .map(|k| {
                    let mut l = format!("region {r} {k}").into_bytes();
                    if s.chance(1, 4) {
                        l.push(b' ');
                        l.extend(gen::content(s, utf8));
                    }
                    l
                })
                .collect()
        })
        .collect();
    let variants: Vec<Vec<Vec<gen::Line>>> = lines
        .iter()
        .map(|l| {
            let keep = 1 + s.n(5);
            (0..2 + s.us(2)).map(|_| l.iter().filter(|_| s.chance(keep, 6)).cloned().collect()).collect()
        })
        .collect();
    let (head, tail) = (s.chance(1, 2), s.chance(1, 2));
    let gaps: Vec<usize> = (0..=regions).map(|_| most + 1 + if s.chance(1, 3) { s.us(2 * most + 2) } else { 0 }).collect();
    let final_nl = !tail || s.chance(3, 4);
    let text = |v: &State| -> Vec<u8> {
        let mut out = vec![];
        for r in 0..regions {
            if r > 0 || head {
                out.extend((0..gaps[r]).map(|k| format!("between {r} {k}").into_bytes()));
            }
            out.extend(variants[r][v[r]].iter().cloned());
        }
        if tail {
            out.extend((0..gaps[regions]).map(|k| format!("between {regions} {k}").into_bytes()));
        }
        gen::join(&out, final_nl)
    };
    let differ = |x: &State, y: &State, r: usize| variants[r][x[r]] != variants[r][y[r]];
    let any = |s: &mut Src| -> State { (0..regions).map(|r| s.us(variants[r].len())).collect() };
    let mut now = any(s);
    let mut at = text(&now);
    cx.input("text", &at);
    let (mut parts, mut patches, mut merges, mut shifted) = (0, 0, 0, 0);
    for k in 0..steps {
        match s.us(4) {
            // a merge with any two versions of which each region changes on one side only, or alike
            0 => {
                let (mut base, mut theirs) = (now.clone(), now.clone());
                let mut next = now.clone();
                for r in 0..regions {
                    let v = s.us(variants[r].len());
                    match s.us(4) {
                        0 => base[r] = v,
                        1 => {
                            (theirs[r], next[r]) = (v, v);
                        }
                        // changed by us alone
                        2 => (base[r], theirs[r]) = (v, v),
                        _ => {}
                    }
                }
                let (o, b, want) = (text(&base), text(&theirs), text(&next));
                cx.input("ancestor", &o);
                cx.input("merged with", &b);
                let (x, y) = if s.chance(1, 2) { (&at, &b) } else { (&b, &at) };
                let got = match (s.us(3), st(&o), st(x), st(y)) {
                    (0, Some(o), Some(x), Some(y)) => super::merging::flat(diffy::merge(o, x, y)),
                    _ => diffy::merge_bytes(&o, x, y),
                };
                match got {
                    Ok(v) => same(&format!("step {k}: the merge"), &v, &want)?,
                    Err(v) => return Err(format!("step {k}: the merge conflicts\n  got:  {}\n  want: {}", clip(&v), clip(&want))),
                }
                (now, at) = (next, want);
                merges += 1;
            }
            // a patch between two other versions
            m => {
                let (mut from, mut to) = (now.clone(), now.clone());
                for r in 0..regions {
                    let v = s.us(variants[r].len());
                    match s.us(3) {
                        0 => to[r] = v,
                        // what both versions have and the text has not
                        1 => (from[r], to[r]) = (v, v),
                        _ => {}
                    }
                }
                let back = s.chance(1, 2);
                let (f, t) = (text(&from), text(&to));
                let n = 1 + s.us(most);
                let p = match back {
                    false => opts(n).create_patch_bytes(&f, &t).to_bytes(),
                    true => opts(n).create_patch_bytes(&t, &f).to_bytes(),
                };
                let (first, hunks) = pieces(&p);
                // the hunks in one or several goes, in any order of the goes; some are left out
                let goes = if m == 1 { 1 } else { 1 + s.us(4) };
                let leave = m == 2;
                let mut turn: Vec<usize> = hunks.iter().map(|_| if leave && s.chance(1, 3) { goes } else { s.us(goes) }).collect();
                let mut of: Vec<Vec<usize>> = vec![];
                for h in &hunks {
                    of.push(regions_of(h)?);
                }
                // a region goes as a whole
                for h in 1..hunks.len() {
                    if of[h - 1].last() == of[h].first() {
                        turn[h] = turn[h - 1];
                    }
                }
                cx.input("from", if back { &t } else { &f });
                cx.input("to", if back { &f } else { &t });
                for g in 0..goes {
                    let chosen: Vec<usize> = (0..hunks.len()).filter(|h| turn[*h] == g).collect();
                    if chosen.is_empty() {
                        continue;
                    }
                    let mut part = first.clone();
                    let mut next = now.clone();
                    for h in &chosen {
                        part.extend(&hunks[*h]);
                        for r in &of[*h] {
                            next[*r] = to[*r];
                        }
                    }
                    if chosen.len() < hunks.len() {
                        parts += 1;
                    }
                    cx.input("applied", &part);
                    let want = text(&next);
                    let what = || format!("step {k}: hunks {chosen:?} of {}{}", hunks.len(), if back { ", reversed" } else { "" });
                    let got = match (s.us(2), st(&part), st(&at)) {
                        (0, Some(part), Some(at)) => {
                            let q = Patch::from_str(part).map_err(|e| format!("{}: {e}", what()))?;
                            let q = if back { q.reverse() } else { q };
                            apply(at, &q).map(String::into_bytes)
                        }
                        _ => {
                            let q = Patch::from_bytes(&part).map_err(|e| format!("{}: {e}", what()))?;
                            let q = if back { q.reverse() } else { q };
                            apply_bytes(&at, &q)
                        }
                    };
                    let got = got.map_err(|e| format!("{}: {e}\n  base: {}\n  patch: {}", what(), clip(&at), clip(&part)))?;
                    same(&what(), &got, &want)?;
                    (now, at) = (next, want);
                    patches += 1;
                }
                if !leave && (0..regions).any(|r| differ(&now, &to, r) && differ(&from, &to, r)) {
                    return Err(format!("step {k}: the patch lacks a change\n  patch: {}", clip(&p)));
                }
                if f != at {
                    shifted += 1;
                }
            }
        }
    }
    cx.class_if(parts > 0, "parts of patches");
    cx.class_if(merges > 0, "merges");
    cx.mark(patches > 0 && shifted > 0);
    Ok(())
}

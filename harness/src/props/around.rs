//! C31: the same lines put before and behind all arguments only shift the results.

use super::applying::{free, shift_headers};
use super::creating::c06_changes;
use super::merging::{flat, input_triple, mo};
use super::parsing::write_plain;
use super::*;
use crate::refm::*;
use diffy::{apply, apply_bytes, Patch};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        rule: "pairs and triples of texts, and texts with a patch that fits here and there, each run as it is and with lines that are in none of them put before and behind: a few or up to seventy thousand, all different or all alike. Non-trivial: the arguments differ and something is put before them",
        parts: vec![
            rnd("create", 200_000, 8_000_000, random_pair),
            rnd("merge", 150_000, 6_000_000, random_triple),
            rnd("apply", 250_000, 10_000_000, random_apply),
            rnd("far", 300, 12_000, random_far),
            enm("small create", pairs_quick, pairs_thorough, small_create),
            enm("small merge", triples_quick, triples_thorough, small_merge),
            enm("sizes", sizes_n, sizes_n, sizes),
        ],
    }]
}

/// Lines put before the arguments and behind them.
struct Around {
    before: Vec<u8>,
    behind: Vec<u8>,
    lines: usize,
}

impl Around {
    fn new(before: usize, behind: usize, alike: bool) -> Self {
        let text = |who: &str, n: usize| -> Vec<u8> {
            (0..n).flat_map(|k| if alike { format!("<{who} the text>\n") } else { format!("<{k} {who} the text>\n") }.into_bytes()).collect()
        };
        Around { before: text("before", before), behind: text("behind", behind), lines: before }
    }

    fn text(&self, t: &[u8]) -> Vec<u8> {
        [&self.before[..], t, &self.behind].concat()
    }

    fn input(&self, cx: &mut Cx) {
        cx.input_n("lines before", self.lines as u64);
        cx.input("put before", &self.before);
        cx.input("put behind", &self.behind);
    }
}

fn around(s: &mut Src) -> Around {
    let n = |s: &mut Src| match s.us(5) {
        0 => 0,
        1 | 2 => 1 + s.us(5),
        3 => s.us(40),
        _ => *s.pick(&[63, 64, 65, 127, 128, 255, 256, 257]),
    };
    let (p, q) = (n(s), n(s));
    Around::new(p, q, s.chance(1, 3))
}

/// The text with its last line ended.
fn ended(t: &[u8]) -> Vec<u8> {
    let mut t = t.to_vec();
    if t.last().map_or(false, |c| *c != b'\n') {
        t.push(b'\n');
    }
    t
}

fn foreign(texts: &[&[u8]]) -> bool {
    texts.iter().any(|t| split(t).iter().any(|l| l.ends_with(b" the text>\n")))
}

fn check_create(a: &[u8], b: &[u8], n: usize, x: &Around, cx: &mut Cx) -> Res {
    let (a, b) = (&ended(a)[..], &ended(b)[..]);
    if foreign(&[a, b]) {
        cx.class("a line of the surroundings");
        return Ok(());
    }
    input_pair(cx, a, b, n);
    x.input(cx);
    cx.mark(a != b && x.lines > 0);
    let (fa, fb) = (x.text(a), x.text(b));
    let mut want = c06_changes(&observe_b(&opts(n).create_patch_bytes(a, b)));
    want.iter_mut().for_each(|c| c.1 += x.lines);
    let differ = |what: &str, p: &RPatch| {
        check(c06_changes(p) == want, || format!("{what}: with lines around the texts other lines are changed\n  got:  {}", clip(&write_plain(p))))
    };
    differ("bytes", &observe_b(&opts(n).create_patch_bytes(&fa, &fb)))?;
    if let (Some(fa), Some(fb)) = (st(&fa), st(&fb)) {
        differ("str", &observe_s(&opts(n).create_patch(fa, fb)))?;
    }
    Ok(())
}

fn check_merge(o: &[u8], a: &[u8], b: &[u8], len: usize, diff3: bool, x: &Around, cx: &mut Cx) -> Res {
    let (o, a, b) = (&ended(o)[..], &ended(a)[..], &ended(b)[..]);
    if foreign(&[o, a, b]) {
        cx.class("a line of the surroundings");
        return Ok(());
    }
    input_triple(cx, o, a, b);
    x.input(cx);
    cx.mark(o != a && o != b && a != b && x.lines > 0);
    let m = mo(len, diff3);
    let r = m.merge_bytes(o, a, b);
    cx.class(if r.is_ok() { "clean merge" } else { "conflict" });
    let (fo, fa, fb) = (x.text(o), x.text(a), x.text(b));
    let differ = |what: &str, q: Result<Vec<u8>, Vec<u8>>| -> Res {
        check(r.is_ok() == q.is_ok(), || format!("{what}: with lines around the texts the merge {}", if q.is_ok() { "is clean" } else { "conflicts" }))?;
        let (r, q) = (r.as_ref().unwrap_or_else(|e| e), q.unwrap_or_else(|e| e));
        same(&format!("{what}: merged with lines around the texts"), &q, &x.text(r))
    };
    differ("bytes", m.merge_bytes(&fo, &fa, &fb))?;
    if let (Some(fo), Some(fa), Some(fb)) = (st(&fo), st(&fa), st(&fb)) {
        differ("str", flat(m.merge(fo, fa, fb)))?;
    }
    Ok(())
}

fn check_apply(base: &[u8], m: &RPatch, x: &Around, cx: &mut Cx) -> Res {
    let base = &ended(base)[..];
    let lines: Vec<&[u8]> = m.hunks.iter().flat_map(|h| h.lines.iter().map(|l| &l.1[..])).collect();
    // a hunk without context and deleted lines fits anywhere, and must not be moved past the end
    if m.hunks.iter().any(|h| h.lines.iter().all(|l| l.0 == b'+') || h.os.max(h.ns) > usize::MAX >> 8) || foreign(&[base]) || foreign(&lines) {
        cx.class("left out");
        return Ok(());
    }
    let mut fm = m.clone();
    for h in &mut fm.hunks {
        h.os += x.lines;
        h.ns += x.lines;
    }
    let fbase = x.text(base);
    let (t, ft) = (write_plain(m), write_plain(&fm));
    cx.input("base", base);
    cx.input("patch text", &t);
    x.input(cx);
    cx.input("patch text, shifted", &ft);
    cx.mark(!m.hunks.is_empty() && x.lines > 0);
    let (p, q) = match (Patch::from_bytes(&t), Patch::from_bytes(&ft)) {
        (Ok(p), Ok(q)) => (p, q),
        (Err(_), _) => {
            cx.class("rejected");
            return Ok(());
        }
        (Ok(_), Err(e)) => return Err(format!("with its line numbers shifted the patch is rejected: {e}")),
    };
    let r = apply_bytes(base, &p).map_err(|e| e.to_string());
    cx.class(if r.is_ok() { "applies" } else { "does not apply" });
    let differ = |what: &str, f: Result<Vec<u8>, String>| -> Res {
        match (&r, f) {
            (Ok(r), Ok(f)) => same(&format!("{what}: applied with lines around the text"), &f, &x.text(r)),
            (Err(e), Err(f)) => check(*e == f, || format!("{what}: fails with {e}, and with lines around the text with {f}")),
            (Ok(_), Err(e)) => Err(format!("{what}: only with lines around the text it fails: {e}")),
            (Err(e), Ok(_)) => Err(format!("{what}: only without lines around the text it fails: {e}")),
        }
    };
    differ("bytes", apply_bytes(&fbase, &q).map_err(|e| e.to_string()))?;
    if let (Some(fb), Some(ft)) = (st(&fbase), st(&ft)) {
        let q = Patch::from_str(ft).map_err(|e| format!("from_str: {e}"))?;
        differ("str", apply(fb, &q).map(String::into_bytes).map_err(|e| e.to_string()))?;
    }
    Ok(())
}

fn random_pair(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::pair(s);
    let (n, x) = (gen::context_len(s), around(s));
    check_create(&p.a, &p.b, n, &x, cx)
}

fn random_triple(s: &mut Src, cx: &mut Cx) -> Res {
    let t = gen::triple(s);
    let (len, diff3, x) = (s.us(10), s.chance(1, 2), around(s));
    check_merge(&t.o, &t.a, &t.b, len, diff3, &x, cx)
}

fn patched(s: &mut Src) -> (Vec<u8>, RPatch) {
    let (base, mut m) = if s.chance(1, 2) {
        free(s)
    } else {
        // a created patch, applied to a text in which its place moved
        let p = gen::pair(s);
        let n = s.us(4);
        let m = observe_b(&opts(n).create_patch_bytes(&p.a, &p.b));
        let alpha = gen::alphabet(s, p.utf8);
        let l: Vec<gen::Line> = split(&p.a).iter().map(|l| l.strip_suffix(b"\n").unwrap_or(l).to_vec()).collect();
        let e = if s.chance(1, 3) { l } else { gen::edit(s, &l, &alpha, 2) };
        (gen::join(&e, true), m)
    };
    (m.old, m.new) = (None, None);
    if s.chance(1, 3) {
        shift_headers(s, &mut m.hunks, 50);
    }
    (base, m)
}

fn random_apply(s: &mut Src, cx: &mut Cx) -> Res {
    let (base, m) = patched(s);
    let x = around(s);
    check_apply(&base, &m, &x, cx)
}

fn random_far(s: &mut Src, cx: &mut Cx) -> Res {
    let n = |s: &mut Src| match s.us(4) {
        0 => s.us(5),
        1 => s.us(3_000),
        2 => *s.pick(&[1_023, 1_024, 1_025, 4_095, 4_096, 10_000, 32_768]),
        _ => 65_400 + s.us(300),
    };
    let x = Around::new(n(s), n(s), s.chance(1, 2));
    match s.us(3) {
        0 => {
            let p = gen::pair(s);
            let n = s.us(5);
            check_create(&p.a, &p.b, n, &x, cx)
        }
        1 => {
            let t = gen::triple(s);
            check_merge(&t.o, &t.a, &t.b, 7, true, &x, cx)
        }
        _ => {
            let (base, m) = patched(s);
            check_apply(&base, &m, &x, cx)
        }
    }
}

fn fixed(i: u64) -> Around {
    let (p, q) = [(1, 0), (0, 1), (1, 1), (2, 3), (5, 0)][i as usize % 5];
    Around::new(p, q, i / 5 % 2 == 0)
}

fn small_create(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = small_pair(i);
    check_create(a, b, n, &fixed(i / CTX), cx)
}

fn small_merge(i: u64, cx: &mut Cx) -> Res {
    let (o, a, b) = small_triple(i);
    check_merge(o, a, b, 7, true, &fixed(i), cx)
}

const SIZED: u64 = 4;

fn sizes_n() -> u64 {
    gen::sizes(65_537).len() as u64 * SIZED
}

/// Surroundings of every size of a list, around texts with several alignments, and a conflict.
fn sizes(i: u64, cx: &mut Cx) -> Res {
    let n = gen::sizes(65_537)[(i / SIZED) as usize];
    let (p, q) = if i % 2 == 0 { (n, 2) } else { (2, n) };
    let x = Around::new(p, q, i / 2 % 2 == 0);
    let (o, a, b) = (b"a\nb\nc\na\nb\nb\na\n", b"c\nb\na\nb\na\nc\n", b"a\nb\nb\nc\nd\nb\na\na\n");
    check_create(o, a, 3, &x, cx)?;
    check_merge(o, a, b, 7, true, &x, cx)?;
    let m = observe_b(&opts(1).create_patch_bytes(o, b));
    check_apply(&[&b"x\n"[..], o].concat(), &m, &x, cx)
}

//! Properties of the values themselves: C24 (memory) and C25 (equality).

use super::parsing::{model_odd, mutated, number_text, quote, sized_model, sized_models, special, write_any, write_plain};
use super::*;
use crate::memory::{live, peak};
use crate::refm::*;
use diffy::{
    apply, apply_bytes, create_patch, create_patch_bytes, merge, merge_bytes, ConflictStyle, DiffOptions, Line, MergeOptions, Patch, PatchFormatter,
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24",
            rule: "every operation on texts, triples and patch texts of all sizes, on patch texts whose headers hold extreme numbers, and with extreme option values, with the memory each call holds at most counted by the allocator. Non-trivial: the texts differ, or the patch text has a hunk header",
            parts: vec![
                rnd("texts", 60_000, 2_400_000, c24_texts),
                rnd("merges", 60_000, 2_400_000, c24_merges),
                rnd("patch texts", 200_000, 8_000_000, c24_patch_texts),
                rnd("huge", 48, 1_920, c24_huge),
                rnd("afterwards", 160, 6_400, c24_after),
                enm("headers", c24_headers_n, c24_headers_n, c24_headers),
                enm("sizes and bytes", sized_pairs, sized_pairs, c24_sizes),
                enm("parsed sizes and bytes", sized_models, sized_models, c24_parsed_sizes),
                enm("merged sizes and bytes", sized_triples, sized_triples, c24_merged_sizes),
            ],
        },
        Prop {
            id: "C25",
            rule: "pairs of patches: texts written from a model and from the same model after one or two small changes (a name, a heading, a range, a byte of a line, the order of lines, a final newline, a hunk more or less), each with its own choice of optional syntax; created patches and what they parse back to; one change in models of every size and with every byte; lines and patches borrowed from overlapping parts of one buffer. Non-trivial: both texts parse and hold a hunk",
            parts: vec![
                rnd("parsed", 200_000, 8_000_000, c25_parsed),
                rnd("created", 60_000, 2_400_000, c25_created),
                rnd("one buffer", 60_000, 2_400_000, c25_buffer),
                enm("small", c25_small_n, c25_small_n, c25_small),
                enm("sizes and bytes", c25_sizes_n, c25_sizes_n, c25_sizes),
            ],
        },
        Prop {
            id: "C26",
            rule: "texts, triples and patch texts given to the short functions, to default and new option objects, and to objects on which every documented default is set explicitly. Non-trivial: the patch has a hunk, or the merge conflicts",
            parts: vec![
                rnd("texts", 100_000, 4_000_000, c26_texts),
                rnd("patch texts", 150_000, 6_000_000, c26_parsed),
                rnd("merges", 100_000, 4_000_000, c26_merges),
                enm("small", pairs_quick, pairs_thorough, c26_small),
                enm("small merges", triples_quick, triples_thorough, c26_small_merges),
                enm("sizes and bytes", sized_pairs, sized_pairs, c26_sizes),
                enm("parsed sizes and bytes", sized_models, sized_models, c26_parsed_sizes),
                enm("merged sizes and bytes", sized_triples, sized_triples, c26_merged_sizes),
            ],
        },
    ]
}

// ---------------------------------------------------------------- C24

/// Size of the arguments and results of a call.
#[derive(Clone, Copy, Default)]
struct Size {
    lines: usize,
    bytes: usize,
}

fn size(texts: &[&[u8]]) -> Size {
    Size {
        lines: texts.iter().map(|t| split(t).len()).sum(),
        bytes: texts.iter().map(|t| t.len()).sum(),
    }
}

const FIXED: usize = 64 << 10;
const PER_LINE: usize = 1 << 10;
const PER_BYTE: usize = 8;

fn within(what: &str, got: usize, n: Size) -> Res {
    if std::env::var_os("SHOW_MEMORY").is_some() {
        eprintln!("M {what} {} {} {got}", n.lines, n.bytes);
    }
    check(got <= FIXED + PER_LINE * n.lines + PER_BYTE * n.bytes, || {
        format!("{what}: held {got} bytes at a time for {} lines, {} bytes of arguments and result", n.lines, n.bytes)
    })
}

/// What can be done with one patch of bytes; `base` and `other` are texts to apply it and its reverse to.
fn c24_patch_b(p: &Patch<'_, [u8]>, base: &[u8], other: &[u8]) -> Res {
    let (text, m) = peak(|| p.to_bytes());
    let n = size(&[&text]);
    within("to_bytes", m, n)?;
    let (v, m) = peak(|| {
        let mut v = Vec::new();
        PatchFormatter::new().with_color().suppress_blank_empty(false).write_patch_into(p, &mut v).map(|()| v)
    });
    within("write_patch_into with colour", m, size(&[&v.map_err(|e| e.to_string())?]))?;
    let (r, m) = peak(|| p.reverse());
    within("reverse", m, n)?;
    let (_, m) = peak(|| p.clone());
    within("clone", m, n)?;
    for (what, p, base) in [("apply_bytes", p, base), ("apply_bytes, reversed", &r, other)] {
        let (out, m) = peak(|| apply_bytes(base, p));
        let out = out.unwrap_or_default();
        within(what, m, size(&[&text, base, &out]))?;
    }
    let (_, m) = peak(|| Patch::from_bytes(&text).is_ok());
    within("from_bytes", m, n)
}

fn c24_patch_s(p: &Patch<'_, str>, base: &str, other: &str) -> Res {
    let (text, m) = peak(|| p.to_string());
    let n = size(&[text.as_bytes()]);
    within("to_string", m, n)?;
    let (v, m) = peak(|| PatchFormatter::new().with_color().suppress_blank_empty(false).fmt_patch(p).to_string());
    within("fmt_patch with colour", m, size(&[v.as_bytes()]))?;
    let (r, m) = peak(|| p.reverse());
    within("reverse", m, n)?;
    let (_, m) = peak(|| p.clone());
    within("clone", m, n)?;
    for (what, p, base) in [("apply", p, base), ("apply, reversed", &r, other)] {
        let (out, m) = peak(|| apply(base, p));
        let out = out.unwrap_or_default();
        within(what, m, size(&[text.as_bytes(), base.as_bytes(), out.as_bytes()]))?;
    }
    let (_, m) = peak(|| Patch::from_str(&text).is_ok());
    within("from_str", m, n)
}

fn c24_pair(a: &[u8], b: &[u8], n: usize, cx: &mut Cx) -> Res {
    input_pair(cx, a, b, n);
    cx.mark(a != b);
    let o = opts(n);
    let args = size(&[a, b]);
    let (p, m) = peak(|| o.create_patch_bytes(a, b));
    within("create_patch_bytes", m, args)?;
    c24_patch_b(&p, a, b)?;
    if let (Some(a), Some(b)) = (st(a), st(b)) {
        let (p, m) = peak(|| o.create_patch(a, b));
        within("create_patch", m, args)?;
        c24_patch_s(&p, a, b)?;
    }
    Ok(())
}

fn c24_texts(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::pair(s);
    let n = gen::context_len(s);
    c24_pair(&p.a, &p.b, n, cx)
}

fn c24_huge(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::huge(s);
    let n = gen::context_len(s);
    c24_pair(&p.a, &p.b, n, cx)
}

fn c24_sizes(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = sized_pair(i);
    c24_pair(&a, &b, n, cx)
}

fn c24_triple(o: &[u8], a: &[u8], b: &[u8], len: usize, cx: &mut Cx) -> Res {
    cx.input("ancestor", o);
    cx.input("ours", a);
    cx.input("theirs", b);
    cx.input_n("marker length", len as u64);
    cx.mark(o != a && o != b && a != b);
    let both = |r: Result<Vec<u8>, Vec<u8>>| match r {
        Ok(v) | Err(v) => v,
    };
    for diff3 in [true, false] {
        let mut opt = MergeOptions::new();
        opt.set_conflict_marker_length(len).set_conflict_style(if diff3 { ConflictStyle::Diff3 } else { ConflictStyle::Merge });
        let (r, m) = peak(|| opt.merge_bytes(o, a, b));
        let clean = r.is_ok();
        within("merge_bytes with options", m, size(&[o, a, b, &both(r)]))?;
        // no marker is drawn, however long it would be
        if clean {
            opt.set_conflict_marker_length(if len % 2 == 0 { 1_000_000 } else { 50_000_000 });
            cx.class("clean merge, long markers");
            let (r, m) = peak(|| opt.merge_bytes(o, a, b));
            within("merge_bytes without conflict with a long marker", m, size(&[o, a, b, &both(r)]))?;
        }
        if let (Some(so), Some(sa), Some(sb)) = (st(o), st(a), st(b)) {
            let (r, m) = peak(|| opt.merge(so, sa, sb));
            let r = both(r.map(String::into_bytes).map_err(String::into_bytes));
            within("merge with options", m, size(&[o, a, b, &r]))?;
        }
    }
    let (r, m) = peak(|| merge_bytes(o, a, b));
    within("merge_bytes", m, size(&[o, a, b, &both(r)]))?;
    if let (Some(so), Some(sa), Some(sb)) = (st(o), st(a), st(b)) {
        let (r, m) = peak(|| merge(so, sa, sb));
        let r = both(r.map(String::into_bytes).map_err(String::into_bytes));
        within("merge", m, size(&[o, a, b, &r]))?;
    }
    Ok(())
}

fn c24_merges(s: &mut Src, cx: &mut Cx) -> Res {
    let t = gen::triple(s);
    let len = *s.pick(&[7, 0, 1, 100, 5_000]);
    c24_triple(&t.o, &t.a, &t.b, len, cx)
}

fn c24_merged_sizes(i: u64, cx: &mut Cx) -> Res {
    let (o, a, b) = sized_triple(i);
    c24_triple(&o, &a, &b, 7, cx)
}

/// A writer that takes some bytes and fails.
struct Short(usize);
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::ErrorKind::Other.into());
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// One operation many times over, its results dropped: what is held in the end does not grow with
/// the number of calls.
fn c24_after(s: &mut Src, cx: &mut Cx) -> Res {
    const OPS: [&str; 12] = [
        "create_patch",
        "create_patch_bytes",
        "file names",
        "to_string, to_bytes, clone, reverse, ==",
        "colour",
        "from_str",
        "from_bytes",
        "text rejected",
        "apply",
        "apply that fails",
        "merge",
        "merge with conflict",
    ];
    let op = s.us(OPS.len());
    let lines = 1 + if s.chance(1, 2) { s.us(4) } else { s.us(60) };
    let rounds = if lines < 6 { 20_000 } else { 2_000 };
    // the same texts every time, or others
    let same = s.chance(1, 3);
    cx.input_n("lines", lines as u64);
    cx.input_n("rounds", rounds);
    cx.class(OPS[op]);
    cx.mark(true);
    let round = |i: u64| -> Size {
        let i = if same { 0 } else { i };
        let text = |who: &str| -> String { (0..lines).map(|l| if l == lines / 2 { format!("{who} {i}\n") } else { format!("line {l} of {i}\n") }).collect() };
        let (o, a, b) = (text("old"), text("ours"), text("theirs"));
        let out = match op {
            0 => create_patch(&o, &a).hunks().len(),
            1 => create_patch_bytes(o.as_bytes(), a.as_bytes()).hunks().len(),
            2 => {
                let mut d = DiffOptions::new();
                d.set_original_filename(format!("old {i}")).set_modified_filename(format!("new \t{i}"));
                let p = d.create_patch(&o, &a);
                let t = p.to_string();
                let n = Patch::from_str(&t).map_or(0, |q| q.original().map_or(0, str::len));
                n + d.create_patch_bytes(o.as_bytes(), a.as_bytes()).to_bytes().len()
            }
            3 => {
                let p = create_patch(&o, &a);
                let q = create_patch_bytes(o.as_bytes(), a.as_bytes());
                let (r, t) = (p.reverse(), p.clone());
                usize::from(r == t) + p.to_string().len() + q.to_bytes().len() + usize::from(q.reverse() == q.clone())
            }
            4 => {
                let p = create_patch(&o, &a);
                let f = PatchFormatter::new().with_color();
                let fails = f.write_patch_into(&p, Short(10 + lines)).is_err();
                let n = f.fmt_patch(&p).to_string().len();
                n + usize::from(fails)
            }
            5 | 6 => {
                let t = create_patch(&o, &a).to_string();
                if op == 5 {
                    Patch::from_str(&t).map_or(0, |p| p.hunks().len())
                } else {
                    Patch::from_bytes(t.as_bytes()).map_or(0, |p| p.hunks().len())
                }
            }
            7 => {
                let t = format!("{}?{i}\n", create_patch(&o, &a));
                Patch::from_str(&t).map_or_else(|e| e.to_string().len(), |_| 0) + Patch::from_bytes(t.as_bytes()).map_or_else(|e| e.to_string().len(), |_| 0)
            }
            8 | 9 => {
                let p = create_patch(&o, &a);
                let q = create_patch_bytes(o.as_bytes(), a.as_bytes());
                let base = if op == 8 { &o } else { &b };
                apply(base, &p).map_or_else(|e| e.to_string().len(), |v| v.len()) + apply_bytes(base.as_bytes(), &q).map_or(0, |v| v.len())
            }
            _ => {
                let theirs = if op == 10 { &o } else { &b };
                let n = merge(&o, &a, theirs).map_or_else(|v| v.len(), |v| v.len());
                n + merge_bytes(o.as_bytes(), a.as_bytes(), theirs.as_bytes()).map_or_else(|v| v.len(), |v| v.len())
            }
        };
        let mut n = size(&[o.as_bytes(), a.as_bytes(), b.as_bytes()]);
        n.bytes += out;
        n
    };
    let before = live();
    let mut most = Size { lines: 0, bytes: 0 };
    for i in 0..rounds {
        let n = round(i);
        most = Size { lines: most.lines.max(n.lines), bytes: most.bytes.max(n.bytes) };
    }
    let held = (live() - before).max(0) as usize;
    within(&format!("{}, {rounds} times with the results dropped", OPS[op]), held, most)
}

fn c24_text(text: &[u8], cx: &mut Cx) -> Res {
    cx.input("text", text);
    cx.mark(text.windows(3).any(|w| w == b"@@ "));
    let n = size(&[text]);
    let (p, m) = peak(|| Patch::from_bytes(text));
    within("from_bytes", m, n)?;
    cx.class(if p.is_ok() { "accepted" } else { "rejected" });
    let base = [b"a\n".as_slice(); 5].concat();
    if let Ok(p) = &p {
        c24_patch_b(p, &base, &base)?;
    }
    if let Some(t) = st(text) {
        let (p, m) = peak(|| Patch::from_str(t));
        within("from_str", m, n)?;
        if let Ok(p) = &p {
            c24_patch_s(p, st(&base).unwrap(), st(&base).unwrap())?;
        }
    }
    Ok(())
}

fn c24_patch_texts(s: &mut Src, cx: &mut Cx) -> Res {
    let t = if s.chance(1, 2) {
        mutated(s).0
    } else {
        let utf8 = gen::utf8(s);
        let m = model_odd(s, utf8);
        write_any(s, &m, utf8)
    };
    c24_text(&t, cx)
}

fn c24_parsed_sizes(i: u64, cx: &mut Cx) -> Res {
    c24_text(&write_plain(&sized_model(i)), cx)
}

/// Every power of two and ten, and its neighbours.
fn numbers() -> Vec<u64> {
    let mut v = vec![0, 1, 2];
    for k in 2..64 {
        v.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    let mut t = 10u64;
    for _ in 1..20 {
        v.extend([t - 1, t, t.saturating_add(1)]);
        t = t.saturating_mul(10);
    }
    v.push(u64::MAX);
    v.extend(gen::named_numbers().map(|n| n as u64));
    v
}

const HEADERS: u64 = 10;
fn c24_headers_n() -> u64 {
    numbers().len() as u64 * HEADERS
}

/// Hunk headers that name numbers out of all proportion to the text.
fn c24_headers(i: u64, cx: &mut Cx) -> Res {
    let n = numbers()[(i / HEADERS) as usize];
    let body = "-a\n+b\n";
    let t = match i % HEADERS {
        0 => format!("@@ -{n} +1 @@\n{body}"),
        1 => format!("@@ -1 +{n} @@\n{body}"),
        2 => format!("@@ -{n} +{n} @@\n{body}"),
        3 => format!("@@ -1,{n} +1 @@\n{body}"),
        4 => format!("@@ -1 +1,{n} @@\n{body}"),
        5 => format!("@@ -1,{n} +1,{n} @@\n{body}"),
        6 => format!("@@ -1,{n} +1,{n} @@\n"),
        7 => format!("--- a\n+++ b\n@@ -1 +1 @@\n{body}@@ -{n} +{n} @@\n{body}"),
        8 => format!("@@ -1,{n} +1,{n} @@\n a\n@@ -{n} +{n} @@\n{body}"),
        _ => format!("@@ -{n},0 +{n},1 @@\n+b\n"),
    };
    c24_text(t.as_bytes(), cx)
}

// ---------------------------------------------------------------- C25

macro_rules! equality {
    ($name:ident, $t:ty, $observe:ident) => {
        fn $name(p: &Patch<'_, $t>, q: &Patch<'_, $t>) -> Res {
            let (a, b) = (&$observe(p), &$observe(q));
            let want = a == b;
            let agrees = |what: &str, eq: bool, ne: bool, want: bool| -> Res {
                check(eq == want && ne != want, || {
                    format!("{what}: == gives {eq}, != gives {ne}, but the accessors show {} content\n  one   {a:?}\n  other {b:?}", if want { "the same" } else { "different" })
                })
            };
            agrees("patches", p == q, p != q, want)?;
            agrees("patches, exchanged", q == p, q != p, want)?;
            agrees("a patch and itself", *p == *p, *p != *p, true)?;
            agrees("a patch and its clone", *p == p.clone(), p.clone() != *p, true)?;
            agrees("reversed patches", p.reverse() == q.reverse(), p.reverse() != q.reverse(), want)?;
            agrees("a patch and its reverse", *p == p.reverse(), *p != p.reverse(), *a == a.reversed())?;
            for ((h, k), (x, y)) in p.hunks().iter().zip(q.hunks()).zip(a.hunks.iter().zip(&b.hunks)) {
                agrees("hunks", h == k, h != k, x == y)?;
                agrees("hunks, exchanged", k == h, k != h, x == y)?;
                let (r, t) = (h.old_range(), k.old_range());
                agrees("old ranges", r == t, r != t, (x.os, x.ol) == (y.os, y.ol))?;
                let (r, t) = (h.new_range(), k.new_range());
                agrees("new ranges", r == t, r != t, (x.ns, x.nl) == (y.ns, y.nl))?;
                let (r, t) = (h.old_range(), k.new_range());
                agrees("an old and a new range", r == t, r != t, (x.os, x.ol) == (y.ns, y.nl))?;
                let mut before: Option<(&Line<'_, $t>, &(u8, Vec<u8>))> = None;
                for ((l, m), (u, v)) in h.lines().iter().zip(k.lines()).zip(x.lines.iter().zip(&y.lines)) {
                    agrees("lines", l == m, l != m, u == v)?;
                    agrees("lines, exchanged", m == l, m != l, u == v)?;
                    agrees("a line and its reverse", *l == l.reverse(), *l != l.reverse(), u.0 == b' ')?;
                    if let Some((m, v)) = before {
                        agrees("neighbouring lines", l == m, l != m, u == v)?;
                    }
                    before = Some((l, u));
                }
            }
            Ok(())
        }
    };
}
equality!(equality_b, [u8], observe_b);
equality!(equality_s, str, observe_s);

/// One small change to a model. It may turn out not to change anything.
fn alter(m: &mut RPatch, kind: u64, hunk: usize, line: usize) {
    let name = |n: &mut Option<Vec<u8>>| match n {
        Some(n) if n.len() % 2 == 1 => {
            n.pop();
        }
        Some(n) => n.push(b'x'),
        None => *n = Some(vec![]),
    };
    match kind {
        0 => return name(&mut m.old),
        1 => return name(&mut m.new),
        2 => {
            m.old = None;
            return;
        }
        3 => {
            m.new = None;
            return;
        }
        4 => return std::mem::swap(&mut m.old, &mut m.new),
        5 => {
            m.hunks.pop();
            return;
        }
        _ => {}
    }
    if m.hunks.is_empty() {
        return;
    }
    let i = hunk % m.hunks.len();
    let last = i + 1 == m.hunks.len();
    let h = &mut m.hunks[i];
    match kind {
        6 => match &mut h.heading {
            None => h.heading = Some(b"f".to_vec()),
            Some(t) if t.len() > 1 && line % 2 == 0 => {
                t.pop();
            }
            Some(t) if line % 4 == 1 => t.push(b' '),
            _ => h.heading = None,
        },
        7 => m.hunks[i..].iter_mut().for_each(|h| h.os += 1),
        8 => m.hunks[i..].iter_mut().for_each(|h| h.ns += 1),
        9 => m.hunks.insert(i, RHunk { os: m.hunks[i].os, ns: m.hunks[i].ns, ..RHunk::default() }),
        _ => {
            if h.lines.is_empty() {
                return;
            }
            let n = h.lines.len();
            let j = line % n;
            match kind {
                10..=12 => {
                    // another byte at the start, in the middle, at the end
                    let t = &mut h.lines[j].1;
                    let len = t.len() - usize::from(t.ends_with(b"\n"));
                    if len > 0 {
                        let at = [0, len / 2, len - 1][kind as usize - 10];
                        let b = &mut t[at];
                        *b = if b.is_ascii() && *b != b'y' { b'y' } else { b'z' };
                    }
                }
                13 => h.lines[j].1.insert(0, b' '),
                14 => h.lines.swap(j, (j + 1) % n),
                15 => {
                    // a context line instead of a deleted and an inserted one, or the other way round
                    let (t, l) = h.lines[j].clone();
                    if t == b' ' {
                        h.lines[j].0 = b'-';
                        h.lines.insert(j + 1, (b'+', l));
                    } else if j + 1 < n && h.lines[j + 1] == ((if t == b'-' { b'+' } else { b'-' }), l) {
                        h.lines.remove(j + 1);
                        h.lines[j].0 = b' ';
                    }
                }
                16 if last => {
                    let l = &mut h.lines[n - 1].1;
                    if l.len() > 1 && l.ends_with(b"\n") {
                        l.pop();
                    } else if !l.ends_with(b"\n") {
                        l.push(b'\n');
                    }
                }
                17 => {
                    // a blank or carriage return before the end of the line
                    let t = &mut h.lines[j].1;
                    let at = t.len() - usize::from(t.ends_with(b"\n"));
                    t.insert(at, if line % 2 == 0 { b' ' } else { b'\r' });
                }
                _ => {}
            }
        }
    }
}
const ALTERATIONS: u64 = 18;

fn c25_texts(t: &[u8], u: &[u8], cx: &mut Cx) -> Res {
    cx.input("one", t);
    cx.input("other", u);
    if let (Ok(p), Ok(q)) = (Patch::from_bytes(t), Patch::from_bytes(u)) {
        cx.mark(!p.hunks().is_empty() && !q.hunks().is_empty());
        cx.class(if observe_b(&p) == observe_b(&q) { "the same" } else { "different" });
        equality_b(&p, &q)?;
    }
    if let (Some(t), Some(u)) = (st(t), st(u)) {
        if let (Ok(p), Ok(q)) = (Patch::from_str(t), Patch::from_str(u)) {
            equality_s(&p, &q)?;
        }
    }
    Ok(())
}

fn c25_parsed(s: &mut Src, cx: &mut Cx) -> Res {
    let utf8 = gen::utf8(s);
    let m = model_odd(s, utf8);
    let mut w = m.clone();
    for _ in 0..s.weighted(&[2, 6, 2]) {
        let (k, i, j) = (s.n(ALTERATIONS), s.us(32), s.us(256));
        alter(&mut w, k, i, j);
    }
    for h in &mut w.hunks {
        (h.ol, h.nl) = h.counts();
    }
    let (t, u) = (write_any(s, &m, utf8), write_any(s, &w, utf8));
    c25_texts(&t, &u, cx)
}

/// Small models: every alteration at every place.
const SMALL_MODELS: u64 = 6;
fn c25_small_n() -> u64 {
    SMALL_MODELS * ALTERATIONS * 2 * 6
}
fn c25_small(i: u64, cx: &mut Cx) -> Res {
    let hunk = |os, ns, heading: Option<&str>, lines: &[&str]| {
        let lines: Vec<(u8, Vec<u8>)> = lines.iter().map(|l| (l.as_bytes()[0], l.as_bytes()[1..].to_vec())).collect();
        let mut h = RHunk { os, ns, heading: heading.map(|h| h.as_bytes().to_vec()), lines, ..RHunk::default() };
        (h.ol, h.nl) = h.counts();
        h
    };
    let name = |n: &str| Some(n.as_bytes().to_vec());
    let mut m = RPatch { old: name("a"), new: name("b"), hunks: vec![hunk(1, 1, None, &["-a\n", "+b\n", " c\n"]), hunk(10, 10, Some("fn"), &[" x\n", "+y\n", "+y\n", " \n"])] };
    match i % SMALL_MODELS {
        0 => {}
        1 => m.hunks.truncate(1),
        2 => m.hunks[1].lines = vec![],
        3 => (m.old, m.new) = (None, None),
        4 => (m.old, m.new) = (name("a b\"c"), name("")),
        _ => m.hunks[1].lines.push((b'-', b"z".to_vec())),
    }
    let (mut r, mut w) = (i / SMALL_MODELS, m.clone());
    let kind = r % ALTERATIONS;
    r /= ALTERATIONS;
    alter(&mut w, kind, (r % 2) as usize, (r / 2) as usize);
    for m in [&mut m, &mut w] {
        for h in &mut m.hunks {
            (h.ol, h.nl) = h.counts();
        }
    }
    c25_texts(&write_plain(&m), &write_plain(&w), cx)
}

fn c25_sizes_n() -> u64 {
    sized_models() * 3
}
fn c25_sizes(i: u64, cx: &mut Cx) -> Res {
    let (k, m) = (i % 3, sized_model(i / 3));
    let mut w = m.clone();
    let h = w.hunks.len();
    // the longest dimension is changed at its start, middle or end
    let hunk = [0, h / 2, h.saturating_sub(1)][k as usize];
    let l = w.hunks.get(hunk).map_or(0, |h| h.lines.len());
    let line = [0, l / 2, l.saturating_sub(1)][k as usize];
    let kind = match i / 3 % 8 {
        7 => 6 + k,
        n => 10 + (n + k) % 8,
    };
    alter(&mut w, kind, hunk, line);
    for h in &mut w.hunks {
        (h.ol, h.nl) = h.counts();
    }
    c25_texts(&write_plain(&m), &write_plain(&w), cx)
}

fn c25_created(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::pair(s);
    let n = gen::context_len(s);
    let (na, nb) = (gen::filename(s), gen::filename(s));
    input_pair(cx, &p.a, &p.b, n);
    // the other patch: another context length, other names, or a slightly different text
    let (mut n2, mut a2, mut b2, mut na2, mut nb2) = (n, p.a.clone(), p.b.clone(), na.clone(), nb.clone());
    match s.us(6) {
        0 => {}
        1 => n2 = gen::context_len(s),
        2 => na2 = gen::filename(s),
        3 => nb2 = gen::filename(s),
        k => {
            let t = if k == 4 { &mut a2 } else { &mut b2 };
            if t.is_empty() {
                t.push(b'a');
            } else {
                let at = s.us(t.len());
                match s.us(3) {
                    0 => t[at] = b'y',
                    1 => {
                        t.remove(at);
                    }
                    _ => t.insert(at, b'\n'),
                }
            }
        }
    }
    cx.input("other original", &a2);
    cx.input("other modified", &b2);
    for n in [&na, &nb, &na2, &nb2] {
        cx.input("name", n.as_bytes());
    }
    let (mut o, mut o2) = (opts(n), opts(n2));
    o.set_original_filename(na).set_modified_filename(nb);
    o2.set_original_filename(na2).set_modified_filename(nb2);
    let (x, y) = (o.create_patch_bytes(&p.a, &p.b), o2.create_patch_bytes(&a2, &b2));
    cx.mark(!x.hunks().is_empty() && !y.hunks().is_empty());
    cx.class(if observe_b(&x) == observe_b(&y) { "the same" } else { "different" });
    equality_b(&x, &y)?;
    let t = y.to_bytes();
    if let Ok(z) = Patch::from_bytes(&t) {
        equality_b(&x, &z)?;
    }
    if let (Some(a), Some(b), Some(a2), Some(b2)) = (st(&p.a), st(&p.b), st(&a2), st(&b2)) {
        let (x, y) = (o.create_patch(a, b), o2.create_patch(a2, b2));
        equality_s(&x, &y)?;
        let t = y.to_string();
        if let Ok(z) = Patch::from_str(&t) {
            equality_s(&x, &z)?;
        }
    }
    Ok(())
}

fn c25_line<'a, T: ?Sized>(kind: usize, t: &'a T) -> Line<'a, T> {
    match kind {
        0 => Line::Context(t),
        1 => Line::Delete(t),
        _ => Line::Insert(t),
    }
}

/// Lines and patches that borrow from one buffer: the same or overlapping memory.
fn c25_buffer(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::pair(s);
    let mut buf = p.a.clone();
    let mut cuts = vec![0, buf.len()];
    match s.us(3) {
        0 => buf.extend_from_slice(&p.b),
        1 => buf.extend_from_slice(&p.a),
        _ => {}
    }
    cuts.push(buf.len());
    for _ in 0..2 + s.us(4) {
        let i = s.us(buf.len() + 1);
        cuts.push(if s.chance(1, 2) { i + buf[i..].iter().position(|b| *b == b'\n').map_or(0, |k| k + 1) } else { i });
    }
    let mut slices = Vec::new();
    for _ in 0..4 {
        let (i, j) = (*s.pick(&cuts), *s.pick(&cuts));
        slices.push(&buf[i.min(j)..i.max(j)]);
    }
    for (i, t) in slices.iter().enumerate() {
        cx.input(["one original", "one modified", "other original", "other modified"][i], t);
    }
    // lines
    for x in &slices {
        for y in &slices {
            let copy = y.to_vec();
            for k in 0..9 {
                let (l, m, c) = (c25_line(k / 3, *x), c25_line(k % 3, *y), c25_line(k % 3, &copy[..]));
                let want = k / 3 == k % 3 && x[..] == y[..];
                check((l == m) == want && (l != m) != want && (l == c) == want && (c == l) == want, || {
                    format!("{l:?} and {m:?} in one buffer: == gives {}, and {} with a copy of the other", l == m, l == c)
                })?;
                if let (Some(x), Some(y)) = (st(x), st(y)) {
                    let (l, m) = (c25_line(k / 3, x), c25_line(k % 3, y));
                    check((l == m) == want && (l != m) != want, || format!("str: {l:?} and {m:?} in one buffer: == gives {}", l == m))?;
                }
            }
        }
    }
    // patches
    let n = s.us(4);
    let (x, y) = (opts(n).create_patch_bytes(slices[0], slices[1]), opts(n).create_patch_bytes(slices[2], slices[3]));
    cx.mark(!x.hunks().is_empty() && !y.hunks().is_empty());
    equality_b(&x, &y)?;
    if let (Some(a), Some(b), Some(c), Some(d)) = (st(slices[0]), st(slices[1]), st(slices[2]), st(slices[3])) {
        equality_s(&opts(n).create_patch(a, b), &opts(n).create_patch(c, d))?;
    }
    // a patch text and a part of it
    let t = x.to_bytes();
    let end = if s.chance(1, 2) { t.len().saturating_sub(1) } else { s.us(t.len() + 1) };
    if let (Ok(p), Ok(q)) = (Patch::from_bytes(&t), Patch::from_bytes(&t[..end])) {
        equality_b(&p, &q)?;
        cx.class("a patch text and a part of it");
    }
    Ok(())
}

// ---------------------------------------------------------------- C26

fn formatters() -> [(&'static str, PatchFormatter); 3] {
    [
        ("PatchFormatter::new", PatchFormatter::new()),
        ("PatchFormatter::default", PatchFormatter::default()),
        ("the explicit formatter", PatchFormatter::new().missing_newline_message(true).suppress_blank_empty(true)),
    ]
}

fn c26_patch_b(p: &Patch<'_, [u8]>) -> Res {
    // spelled out: no colour, newline message, no space before an empty context line
    let mut want = Vec::new();
    for (head, name) in [("--- ", p.original()), ("+++ ", p.modified())] {
        if let Some(n) = name {
            want.extend_from_slice(head.as_bytes());
            want.extend(if special(n) { quote(n) } else { n.to_vec() });
            want.push(b'\n');
        }
    }
    for h in p.hunks() {
        let (o, n) = (h.old_range(), h.new_range());
        want.extend(format!("@@ -{} +{} @@", number_text(o.start(), o.len(), true), number_text(n.start(), n.len(), true)).bytes());
        if let Some(c) = h.function_context() {
            want.push(b' ');
            want.extend_from_slice(c);
        }
        want.push(b'\n');
        for l in h.lines() {
            let (t, l): (&[u8], &[u8]) = match l {
                Line::Context(l) if *l == b"\n" => (b"", l),
                Line::Context(l) => (b" ", l),
                Line::Delete(l) => (b"-", l),
                Line::Insert(l) => (b"+", l),
            };
            want.extend_from_slice(t);
            want.extend_from_slice(l);
            if !l.ends_with(b"\n") {
                want.extend_from_slice(b"\n\\ No newline at end of file\n");
            }
        }
    }
    same("to_bytes", &p.to_bytes(), &want)?;
    for (what, f) in formatters() {
        let mut v = Vec::new();
        f.write_patch_into(p, &mut v).map_err(|e| e.to_string())?;
        same(what, &v, &want)?;
    }
    Ok(())
}

fn c26_patch_s(p: &Patch<'_, str>) -> Res {
    let want = p.to_bytes();
    same("to_string", p.to_string().as_bytes(), &want)?;
    same("Display", format!("{p}").as_bytes(), &want)?;
    same("Display, alternate form", format!("{p:#}").as_bytes(), &want)?;
    for (what, f) in formatters() {
        let mut v = Vec::new();
        f.write_patch_into(p, &mut v).map_err(|e| e.to_string())?;
        same(what, &v, &want)?;
        same(what, f.fmt_patch(p).to_string().as_bytes(), &want)?;
        same(what, format!("{:#}", f.fmt_patch(p)).as_bytes(), &want)?;
    }
    Ok(())
}

fn c26_pair(a: &[u8], b: &[u8], cx: &mut Cx) -> Res {
    input_pair(cx, a, b, 3);
    let mut set = DiffOptions::new();
    set.set_context_len(3).set_original_filename("original").set_modified_filename("modified");
    let p = create_patch_bytes(a, b);
    cx.mark(!p.hunks().is_empty());
    let want = observe_b(&p);
    check(want.old.as_deref() == Some(b"original") && want.new.as_deref() == Some(b"modified"), || format!("default names {:?} and {:?}", want.old, want.new))?;
    c26_patch_b(&p)?;
    for (what, o) in [("DiffOptions::new", &DiffOptions::new()), ("DiffOptions::default", &DiffOptions::default()), ("explicit options", &set)] {
        let got = observe_b(&o.create_patch_bytes(a, b));
        check(got == want, || format!("create_patch_bytes differs from {what}\n  short {want:?}\n  other {got:?}"))?;
    }
    if let (Some(a), Some(b)) = (st(a), st(b)) {
        let p = create_patch(a, b);
        check(observe_s(&p) == want, || format!("create_patch differs from create_patch_bytes\n  str   {:?}\n  bytes {want:?}", observe_s(&p)))?;
        c26_patch_s(&p)?;
        for (what, o) in [("DiffOptions::new", &DiffOptions::new()), ("DiffOptions::default", &DiffOptions::default()), ("explicit options", &set)] {
            let got = observe_s(&o.create_patch(a, b));
            check(got == want, || format!("create_patch differs from {what}\n  short {want:?}\n  other {got:?}"))?;
        }
    }
    Ok(())
}

fn c26_triple(o: &[u8], a: &[u8], b: &[u8], cx: &mut Cx) -> Res {
    cx.input("ancestor", o);
    cx.input("ours", a);
    cx.input("theirs", b);
    let mut set = MergeOptions::new();
    set.set_conflict_marker_length(7).set_conflict_style(ConflictStyle::Diff3);
    let all = [("MergeOptions::new", &MergeOptions::new()), ("MergeOptions::default", &MergeOptions::default()), ("explicit options", &set)];
    let want = merge_bytes(o, a, b);
    cx.mark(want.is_err());
    let show = |r: &Result<Vec<u8>, Vec<u8>>| match r {
        Ok(v) => format!("Ok {}", clip(v)),
        Err(v) => format!("conflict {}", clip(v)),
    };
    let agrees = |what: String, got: Result<Vec<u8>, Vec<u8>>| check(got == want, || format!("{what}\n  merge_bytes {}\n  other       {}", show(&want), show(&got)));
    for (what, opt) in all {
        agrees(format!("merge_bytes differs from {what}"), opt.merge_bytes(o, a, b))?;
    }
    if let (Some(o), Some(a), Some(b)) = (st(o), st(a), st(b)) {
        let conv = |r: Result<String, String>| r.map(String::into_bytes).map_err(String::into_bytes);
        agrees("merge differs from merge_bytes".into(), conv(merge(o, a, b)))?;
        for (what, opt) in all {
            agrees(format!("merge differs from {what}"), conv(opt.merge(o, a, b)))?;
        }
    }
    Ok(())
}

fn c26_text(text: &[u8], cx: &mut Cx) -> Res {
    cx.input("text", text);
    if let Ok(p) = Patch::from_bytes(text) {
        cx.mark(!p.hunks().is_empty());
        c26_patch_b(&p)?;
        c26_patch_b(&p.reverse())?;
    }
    if let Some(Ok(p)) = st(text).map(Patch::from_str) {
        c26_patch_s(&p)?;
    }
    Ok(())
}

fn c26_texts(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::pair(s);
    c26_pair(&p.a, &p.b, cx)
}
fn c26_parsed(s: &mut Src, cx: &mut Cx) -> Res {
    let utf8 = gen::utf8(s);
    let m = model_odd(s, utf8);
    c26_text(&write_any(s, &m, utf8), cx)
}
fn c26_merges(s: &mut Src, cx: &mut Cx) -> Res {
    let t = gen::triple(s);
    c26_triple(&t.o, &t.a, &t.b, cx)
}
fn c26_small(i: u64, cx: &mut Cx) -> Res {
    let (a, b, _) = small_pair(i);
    c26_pair(a, b, cx)
}
fn c26_small_merges(i: u64, cx: &mut Cx) -> Res {
    let (o, a, b) = small_triple(i);
    c26_triple(o, a, b, cx)
}
fn c26_sizes(i: u64, cx: &mut Cx) -> Res {
    let (a, b, _) = sized_pair(i);
    c26_pair(&a, &b, cx)
}
fn c26_parsed_sizes(i: u64, cx: &mut Cx) -> Res {
    c26_text(&write_plain(&sized_model(i)), cx)
}
fn c26_merged_sizes(i: u64, cx: &mut Cx) -> Res {
    let (o, a, b) = sized_triple(i);
    c26_triple(&o, &a, &b, cx)
}

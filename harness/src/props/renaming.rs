//! C28: the library looks at lines only to tell which of them are equal.

use super::applying::{free, shift_headers};
use super::parsing::write_plain;
use super::*;
use crate::refm::*;
use diffy::{apply, apply_bytes, merge_bytes, ConflictStyle, MergeOptions, Patch};
use std::collections::{HashMap, HashSet};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        rule: "pairs and triples of texts, and texts with a patch that fits here and there, each run as it is and with its line contents exchanged one for one: for numbered lines, among themselves, for awkward or nearly equal contents, or with something put before or behind. Non-trivial: at least two different contents, and the arguments differ",
        parts: vec![
            rnd("create", 200_000, 8_000_000, random_pair),
            rnd("merge", 200_000, 8_000_000, random_triple),
            rnd("apply", 200_000, 8_000_000, random_apply),
            rnd("places", 200_000, 8_000_000, random_places),
            rnd("huge", 40, 1_600, random_huge),
            enm("small create", pairs_quick, pairs_thorough, small_create),
            enm("small merge", triples_quick, triples_thorough, small_merge),
            enm("create, sizes and bytes", sized_pairs, sized_pairs, sized_create),
            enm("merge, sizes and bytes", sized_triples, sized_triples, sized_merge),
        ],
    }]
}

/// A one-to-one exchange of line contents.
struct Exchange(HashMap<Vec<u8>, Vec<u8>>);

fn cut(l: &[u8]) -> (&[u8], bool) {
    match l.strip_suffix(b"\n") {
        Some(l) => (l, true),
        None => (l, false),
    }
}

/// The contents of all lines, in order of appearance, and those of lines without their newline.
fn contents(texts: &[&[u8]]) -> (Vec<Vec<u8>>, HashSet<Vec<u8>>) {
    let (mut all, mut seen, mut open) = (Vec::new(), HashSet::new(), HashSet::new());
    for t in texts {
        for l in split(t) {
            let (c, nl) = cut(l);
            if !nl {
                open.insert(c.to_vec());
            }
            if seen.insert(c.to_vec()) {
                all.push(c.to_vec());
            }
        }
    }
    (all, open)
}

impl Exchange {
    /// `to` says what a content becomes; what would be taken twice gets a number behind it.
    fn new(texts: &[&[u8]], mut to: impl FnMut(usize, &[Vec<u8>]) -> Vec<u8>) -> Self {
        let (all, open) = contents(texts);
        let (mut map, mut used) = (HashMap::new(), HashSet::new());
        for i in 0..all.len() {
            let mut t = to(i, &all);
            debug_assert!(!t.contains(&b'\n'));
            // there is no empty line without a newline
            while used.contains(&t) || (t.is_empty() && open.contains(&all[i])) {
                t.extend_from_slice(format!("~{i}").as_bytes());
            }
            used.insert(t.clone());
            map.insert(all[i].clone(), t);
        }
        Exchange(map)
    }

    fn line(&self, l: &[u8]) -> Option<Vec<u8>> {
        let (c, nl) = cut(l);
        let mut v = self.0.get(c)?.clone();
        if nl {
            v.push(b'\n');
        }
        Some(v)
    }

    fn text(&self, t: &[u8]) -> Vec<u8> {
        split(t).into_iter().flat_map(|l| self.line(l).expect("a line of the arguments")).collect()
    }

    /// A result: lines that were not in the arguments (conflict markers) stay as they are.
    fn result(&self, t: &[u8], marker: impl Fn(&[u8]) -> bool) -> Option<Vec<u8>> {
        let mut v = Vec::new();
        for l in split(t) {
            match self.line(l) {
                Some(l) => v.extend(l),
                None if marker(l) => v.extend_from_slice(l),
                None => return None,
            }
        }
        Some(v)
    }

    fn patch(&self, p: &RPatch) -> Option<RPatch> {
        let mut q = p.clone();
        for l in q.hunks.iter_mut().flat_map(|h| h.lines.iter_mut()) {
            l.1 = self.line(&l.1)?;
        }
        Some(q)
    }
}

fn exchange(s: &mut Src, texts: &[&[u8]]) -> Exchange {
    let utf8 = texts.iter().all(|t| st(t).is_some()) && s.chance(3, 4);
    match s.us(5) {
        0 => Exchange::new(texts, |i, _| format!("n{i}").into_bytes()),
        // the other way round in any order of the contents
        1 => Exchange::new(texts, |i, all| format!("n{}", all.len() + 10 - i).into_bytes()),
        2 => {
            let by = s.us(7) + 1;
            Exchange::new(texts, move |i, all| all[(i + by) % all.len()].clone())
        }
        3 => {
            let alpha = gen::alphabet(s, utf8);
            let mut more = Vec::new();
            for _ in 0..20 {
                more.push(gen::content(s, utf8));
            }
            Exchange::new(texts, move |i, _| alpha.iter().chain(&more).nth(i).cloned().unwrap_or_else(|| format!("{i}").into_bytes()))
        }
        _ => {
            let (pre, post) = (gen::content(s, utf8), gen::content(s, utf8));
            let (pre, post) = if s.chance(1, 2) { (pre, Vec::new()) } else { (Vec::new(), post) };
            Exchange::new(texts, move |i, all| [&pre[..], &all[i], &post].concat())
        }
    }
}

fn nontrivial(cx: &mut Cx, x: &Exchange, differ: bool) {
    cx.mark(differ && x.0.len() > 1);
    cx.class_if(x.0.values().any(|v| v.is_empty()), "a content becomes empty");
    cx.class_if(x.0.keys().any(|v| v.is_empty()), "an empty content becomes another");
    cx.class_if(x.0.len() > 10, "more than ten contents");
}

fn check_create(a: &[u8], b: &[u8], n: usize, x: &Exchange, cx: &mut Cx) -> Res {
    nontrivial(cx, x, a != b);
    let (fa, fb) = (x.text(a), x.text(b));
    input_pair(cx, a, b, n);
    cx.input("original, exchanged", &fa);
    cx.input("modified, exchanged", &fb);
    let p = opts(n).create_patch_bytes(a, b);
    let q = opts(n).create_patch_bytes(&fa, &fb);
    let want = x.patch(&observe_b(&p)).ok_or("a line of the patch is in neither text")?;
    let got = observe_b(&q);
    let differ = |what: &str, got: &RPatch| {
        check(*got == want, || {
            format!(
                "{what}: with the lines exchanged the patch is not the same patch with its lines exchanged\n  got:  {}\n  want: {}",
                clip(&write_plain(got)),
                clip(&write_plain(&want))
            )
        })
    };
    differ("bytes", &got)?;
    if let (Some(sa), Some(sb)) = (st(&fa), st(&fb)) {
        differ("str", &observe_s(&opts(n).create_patch(sa, sb)))?;
    }
    // and applied to the first text, which the second must be
    same("applied to the exchanged text", &apply_bytes(&fa, &q).map_err(|e| e.to_string())?, &fb)
}

const LEN: usize = 29;

fn is_marker(l: &[u8]) -> bool {
    l.len() > LEN && l[..LEN].iter().all(|c| *c == l[0]) && b"<|=>".contains(&l[0])
}

fn check_merge(o: &[u8], a: &[u8], b: &[u8], x: &Exchange, cx: &mut Cx) -> Res {
    if x.0.keys().any(|k| is_marker(&[&k[..], b"\n"].concat())) {
        cx.class("a line like a marker");
        return Ok(());
    }
    nontrivial(cx, x, o != a && o != b && a != b);
    let (fo, fa, fb) = (x.text(o), x.text(a), x.text(b));
    for (name, v) in [("ancestor", o), ("ours", a), ("theirs", b), ("ancestor, exchanged", &fo), ("ours, exchanged", &fa), ("theirs, exchanged", &fb)] {
        cx.input(name, v);
    }
    // of large texts, one style
    let styles = [ConflictStyle::Diff3, ConflictStyle::Merge];
    for style in &styles[..if o.len() > 2_000 { 1 } else { 2 }] {
        let mut m = MergeOptions::new();
        m.set_conflict_marker_length(LEN).set_conflict_style(*style);
        let p = m.merge_bytes(o, a, b);
        cx.class(if p.is_ok() { "clean merge" } else { "conflict" });
        let differ = |what: &str, q: Result<Vec<u8>, Vec<u8>>| -> Res {
            check(p.is_ok() == q.is_ok(), || {
                format!("{what}: the merge is {} and with the lines exchanged {}", word(p.is_ok()), word(q.is_ok()))
            })?;
            let (p, q) = (p.as_ref().unwrap_or_else(|e| e), q.unwrap_or_else(|e| e));
            match x.result(p, is_marker) {
                Some(want) => same(&format!("{what}: merged, lines exchanged"), &q, &want),
                None => Err(format!("{what}: a line of the merge is neither in an argument nor a marker: {}", clip(p))),
            }
        };
        differ("bytes", m.merge_bytes(&fo, &fa, &fb))?;
        if let (Some(fo), Some(fa), Some(fb)) = (st(&fo), st(&fa), st(&fb)) {
            differ("str", m.merge(fo, fa, fb).map(String::into_bytes).map_err(String::into_bytes))?;
        }
    }
    // the short function draws other markers
    check(merge_bytes(o, a, b).is_ok() == merge_bytes(&fo, &fa, &fb).is_ok(), || "merge_bytes: a conflict for one, none for the other".into())
}

fn word(clean: bool) -> &'static str {
    if clean {
        "clean"
    } else {
        "a conflict"
    }
}

fn check_apply(base: &[u8], m: &RPatch, x: &Exchange, cx: &mut Cx) -> Res {
    let fm = x.patch(m).expect("a line of the arguments");
    let fbase = x.text(base);
    let (t, ft) = (write_plain(m), write_plain(&fm));
    cx.input("base", base);
    cx.input("patch text", &t);
    cx.input("base, exchanged", &fbase);
    cx.input("patch text, exchanged", &ft);
    nontrivial(cx, x, !m.hunks.is_empty());
    let (p, q) = match (Patch::from_bytes(&t), Patch::from_bytes(&ft)) {
        (Ok(p), Ok(q)) => (p, q),
        (Err(p), Err(q)) => return check(p.to_string() == q.to_string(), || format!("rejected differently: {p} and {q}")),
        (Ok(_), Err(e)) | (Err(e), Ok(_)) => return Err(format!("only one of the two patches is accepted: {e}")),
    };
    let (old, new) = m.hunks.iter().fold((0, 0), |(o, n), h| (o + h.ol, n + h.nl));
    let differ = |what: &str, r: Result<Vec<u8>, String>, fr: Result<Vec<u8>, String>| -> Res {
        match (r, fr) {
            // an insertion behind a last line without newline makes one line of two
            (Ok(r), Ok(_)) if split(&r).len() + old != split(base).len() + new => Ok(()),
            (Ok(r), Ok(fr)) => match x.result(&r, |_| false) {
                Some(want) => same(&format!("{what}: applied, lines exchanged"), &fr, &want),
                None => Err(format!("{what}: a line of the result is in no argument: {}", clip(&r))),
            },
            (Err(e), Err(f)) => check(e == f, || format!("{what}: fails with {e}, and with the lines exchanged with {f}")),
            (Ok(_), Err(e)) => Err(format!("{what}: only with the lines exchanged it fails: {e}")),
            (Err(e), Ok(_)) => Err(format!("{what}: only with the lines as they are it fails: {e}")),
        }
    };
    cx.class(if apply_bytes(base, &p).is_ok() { "applies" } else { "does not apply" });
    let run = |b: &[u8], p: &Patch<'_, [u8]>| apply_bytes(b, p).map_err(|e| e.to_string());
    differ("bytes", run(base, &p), run(&fbase, &q))?;
    if let (Some(sb), Some(stext)) = (st(&fbase), st(&ft)) {
        let q = Patch::from_str(stext).map_err(|e| format!("from_str: {e}"))?;
        differ("str", run(base, &p), apply(sb, &q).map(String::into_bytes).map_err(|e| e.to_string()))?;
    }
    Ok(())
}

fn random_pair(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::pair(s);
    let n = gen::context_len(s);
    let x = exchange(s, &[&p.a, &p.b]);
    check_create(&p.a, &p.b, n, &x, cx)
}

fn random_huge(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::huge(s);
    let n = gen::context_len(s);
    let x = exchange(s, &[&p.a, &p.b]);
    check_create(&p.a, &p.b, n, &x, cx)
}

fn random_triple(s: &mut Src, cx: &mut Cx) -> Res {
    let t = gen::triple(s);
    let x = exchange(s, &[&t.o, &t.a, &t.b]);
    check_merge(&t.o, &t.a, &t.b, &x, cx)
}

fn random_apply(s: &mut Src, cx: &mut Cx) -> Res {
    let (base, mut m) = if s.chance(1, 2) {
        free(s)
    } else {
        // a created patch, applied to a text in which its place moved
        let p = gen::pair(s);
        let n = gen::context_len(s);
        let m = observe_b(&opts(n).create_patch_bytes(&p.a, &p.b));
        let alpha = gen::alphabet(s, p.utf8);
        let l: Vec<gen::Line> = split(&p.a).iter().map(|l| cut(l).0.to_vec()).collect();
        let e = if s.chance(1, 3) { l } else { gen::edit(s, &l, &alpha, 2) };
        (gen::join(&e, gen::final_nl(s)), m)
    };
    m.old = None;
    m.new = None;
    if s.chance(1, 4) {
        shift_headers(s, &mut m.hunks, 50);
    }
    // an inserted line without newline may end up before other lines and become one line with the next
    for l in m.hunks.iter_mut().flat_map(|h| h.lines.iter_mut()) {
        if l.0 == b'+' && !l.1.ends_with(b"\n") {
            l.1.push(b'\n');
        }
    }
    let all: Vec<&[u8]> = m.hunks.iter().flat_map(|h| h.lines.iter().map(|l| &l.1[..])).collect();
    let texts: Vec<&[u8]> = [&base[..]].into_iter().chain(all).collect();
    let x = exchange(s, &texts);
    check_apply(&base, &m, &x, cx)
}

/// A hunk whose lines stand at several places, often as far above its stated line as below.
fn random_places(s: &mut Src, cx: &mut Cx) -> Res {
    let alpha = gen::alphabet(s, true);
    let block: Vec<gen::Line> = (0..1 + s.us(3)).map(|_| s.pick(&alpha).clone()).collect();
    let mut base = vec![];
    let mut at = vec![];
    for k in 0..2 + s.us(3) {
        let d = if k == 0 { s.us(4) } else { s.us(6) };
        base.extend((0..d).map(|_| if s.chance(1, 5) { s.pick(&alpha).clone() } else { b"other".to_vec() }));
        at.push(base.len());
        base.extend(block.iter().cloned());
    }
    base.extend((0..s.us(4)).map(|_| b"other".to_vec()));
    let mut lines: Vec<(u8, Vec<u8>)> = block.iter().map(|l| (if s.chance(1, 2) { b' ' } else { b'-' }, [&l[..], b"\n"].concat())).collect();
    lines.insert(s.us(lines.len() + 1), (b'+', b"new\n".to_vec()));
    let i = s.us(at.len() - 1);
    // half way between two of the places, or anywhere
    let place = if s.chance(2, 3) { (at[i] + at[i + 1]) / 2 } else { s.us(base.len() + 2) };
    let nl = lines.iter().filter(|l| l.0 != b'-').count();
    let m = RPatch { old: None, new: None, hunks: vec![RHunk { os: place + 1, ol: block.len(), ns: place + 1, nl, heading: None, lines }] };
    let base = gen::join(&base, gen::final_nl(s));
    let all: Vec<&[u8]> = m.hunks.iter().flat_map(|h| h.lines.iter().map(|l| &l.1[..])).collect();
    let texts: Vec<&[u8]> = [&base[..]].into_iter().chain(all).collect();
    let x = exchange(s, &texts);
    check_apply(&base, &m, &x, cx)
}

/// Fixed exchanges for the enumerated families.
fn fixed(i: u64, texts: &[&[u8]]) -> Exchange {
    match i % 5 {
        0 => Exchange::new(texts, |i, all| format!("n{}", all.len() + 10 - i).into_bytes()),
        1 => Exchange::new(texts, |i, all| all[(i + 1) % all.len()].clone()),
        2 => Exchange::new(texts, |i, _| [&b""[..], b" ", b"\t", b"\r"].get(i).map_or_else(|| format!("{i}").into_bytes(), |t| t.to_vec())),
        3 => Exchange::new(texts, |i, all| [&b"+"[..], &all[i]].concat()),
        _ => Exchange::new(texts, |i, all| [&all[i][..], b" "].concat()),
    }
}

fn small_create(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = small_pair(i);
    check_create(a, b, n, &fixed(i / CTX, &[a, b]), cx)
}

fn small_merge(i: u64, cx: &mut Cx) -> Res {
    let (o, a, b) = small_triple(i);
    check_merge(o, a, b, &fixed(i, &[o, a, b]), cx)
}

fn sized_create(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = sized_pair(i);
    check_create(&a, &b, n, &fixed(i, &[&a, &b]), cx)
}

fn sized_merge(i: u64, cx: &mut Cx) -> Res {
    let (o, a, b) = sized_triple(i);
    check_merge(&o, &a, &b, &fixed(i, &[&o, &a, &b]), cx)
}

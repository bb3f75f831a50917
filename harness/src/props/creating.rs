//! Properties of created patches: C01 to C06, C20, C21, C23.

use super::parsing::{model_odd, sized_model, sized_models, write_any, write_plain};
use super::*;
use crate::refm::*;
use diffy::{apply, apply_bytes, Patch, PatchFormatter};

const PAIR_RULE: &str = "pairs of texts: random texts over small alphabets of plain, patch-like, non-ASCII and non-UTF-8 lines, edited copies, long mostly-unique texts, sizes past 65536 lines or bytes per line, and every pair of small texts with every context length 0..3; with a random context length including 0 and usize::MAX. Non-trivial: the two texts differ and both the case's texts and its options are new";

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: PAIR_RULE,
            parts: vec![
                rnd("pairs", 600_000, 24_000_000, c01_random),
                rnd("huge", 80, 3_200, c01_huge),
                enm("line numbers", c01_wrap_n, c01_wrap_n, c01_wrap),
                enm("small", pairs_quick, pairs_thorough, c01_small),
                enm("sizes and bytes", sized_pairs, sized_pairs, c01_sizes),
            ],
        },
        Prop {
            id: "C02",
            rule: "pairs of texts as in C01, and diff texts written from a generated model with section headings, missing file names and no-newline markers. Non-trivial: the two texts differ, or the parsed patch has a hunk",
            parts: vec![
                rnd("pairs", 400_000, 16_000_000, c02_random),
                rnd("huge", 60, 2_400, c02_huge),
                rnd("parsed", 300_000, 12_000_000, c02_parsed),
                enm("small", pairs_quick, pairs_thorough, c02_small),
                enm("sizes and bytes", sized_pairs, sized_pairs, c02_sizes),
                enm("parsed sizes and bytes", sized_models, sized_models, c02_parsed_sizes),
            ],
        },
        Prop {
            id: "C03",
            rule: PAIR_RULE,
            parts: vec![
                rnd("pairs", 300_000, 12_000_000, c03_random),
                rnd("huge", 60, 2_400, c03_huge),
                rnd("git apply and patch", 1_500, 60_000, tools::c03_tools),
                enm("small", pairs_quick, pairs_thorough, c03_small),
                enm("sizes and bytes", sized_pairs, sized_pairs, c03_sizes),
            ],
        },
        Prop {
            id: "C05",
            rule: "pairs of texts as in C01, texts with up to twelve thousand differences, and texts with thirty to forty-five thousand whose shortest edit script is known by construction. Non-trivial: the texts differ and share at least one line",
            parts: vec![
                rnd("pairs", 500_000, 20_000_000, c05_random),
                rnd("huge", 80, 3_200, c05_huge),
                rnd("many differences", 160, 6_400, c05_many),
                enm("small", pairs_quick, pairs_thorough, c05_small),
                enm("sizes and bytes", sized_pairs, sized_pairs, c05_sizes),
                enm("long comparisons", || 8, || 64, c05_long),
            ],
        },
        Prop {
            id: "C06",
            rule: "pairs of texts as in C01, and texts whose edits are separated by gaps of close to once or twice the context length. Non-trivial: at least one hunk",
            parts: vec![
                rnd("pairs", 400_000, 16_000_000, c06_random),
                rnd("gaps", 400_000, 16_000_000, c06_gaps),
                rnd("huge", 60, 2_400, c06_huge),
                enm("small", pairs_quick, pairs_thorough, c06_small),
                enm("sizes and bytes", sized_pairs, sized_pairs, c06_sizes),
            ],
        },
        Prop {
            id: "C20",
            rule: "histories: up to 9 versions of a text, each an edit of an earlier one, stored as patch objects or formatted text, and up to 30 undo, redo and checkout steps with random representations. Non-trivial: at least 3 steps change the text and both directions occur",
            parts: vec![
                rnd("histories", 250_000, 10_000_000, c20),
                rnd("copies", 200_000, 8_000_000, c20_copies),
                rnd("huge", 40, 1_600, c20_huge),
                enm("small", pairs_quick, pairs_thorough, c20_small),
                enm("sizes and bytes", sized_pairs, sized_pairs, c20_sizes),
            ],
        },
        Prop {
            id: "C23",
            rule: "pairs of texts as in C01, biased to repeated lines. Non-trivial: the patch has a block of only insertions or only deletions followed by an unchanged line",
            parts: vec![
                rnd("pairs", 500_000, 20_000_000, c23_random),
                rnd("repeats", 600_000, 24_000_000, c23_repeats),
                rnd("huge", 80, 3_200, c23_huge),
                rnd("many movable edits", 400, 16_000, c23_many),
                enm("small", pairs_quick, pairs_thorough, c23_small),
                enm("sizes and bytes", sized_pairs, sized_pairs, c23_sizes),
            ],
        },
    ]
}

fn pair_classes(cx: &mut Cx, a: &[u8], b: &[u8], n: usize, hunks: usize) {
    cx.class_if(n == 0, "context 0");
    cx.class_if(n > 1000, "context huge");
    cx.class_if(hunks == 0, "no hunk");
    cx.class_if(hunks == 1, "one hunk");
    cx.class_if(hunks > 1, "several hunks");
    cx.class_if(hunks > 10, "more than ten hunks");
    cx.class_if(a.is_empty() != b.is_empty(), "one text empty");
    let (ea, eb) = (!a.is_empty() && !a.ends_with(b"\n"), !b.is_empty() && !b.ends_with(b"\n"));
    cx.class_if(ea && !eb, "original lacks final newline");
    cx.class_if(!ea && eb, "modified lacks final newline");
    cx.class_if(ea && eb, "both lack final newline");
    cx.class_if(st(a).is_none() || st(b).is_none(), "not UTF-8");
    cx.class_if(a.len() > 20_000, "large");
}

/// Run a pair property on the pairs generator.
macro_rules! pair_parts {
    ($check:ident, $random:ident, $huge:ident, $small:ident, $sizes:ident) => {
        fn $random(s: &mut Src, cx: &mut Cx) -> Res {
            let p = gen::pair(s);
            let n = gen::context_len(s);
            input_pair(cx, &p.a, &p.b, n);
            $check(&p.a, &p.b, n, cx)
        }
        fn $huge(s: &mut Src, cx: &mut Cx) -> Res {
            let p = gen::huge(s);
            let n = gen::context_len(s);
            input_pair(cx, &p.a, &p.b, n);
            $check(&p.a, &p.b, n, cx)
        }
        fn $small(i: u64, cx: &mut Cx) -> Res {
            let (a, b, n) = small_pair(i);
            input_pair(cx, a, b, n);
            $check(a, b, n, cx)
        }
        fn $sizes(i: u64, cx: &mut Cx) -> Res {
            let (a, b, n) = sized_pair(i);
            input_pair(cx, &a, &b, n);
            $check(&a, &b, n, cx)
        }
    };
}

pair_parts!(c01_check, c01_random, c01_huge, c01_small, c01_sizes);

fn c01_wrap_n() -> u64 {
    10 * 3 * 3 * 2
}

/// Where an old line was, the new text holds the line that is the 2^k-th in order of first
/// appearance after it: lines numbered in too few bits would be mixed up.
fn c01_wrap(i: u64, cx: &mut Cx) -> Res {
    let (k, d, extra, swap) = (8 + i / 18, (i / 6 % 3) as usize, (i / 2 % 3) as usize, i % 2 == 1);
    let n = 1usize << k;
    let a: Vec<gen::Line> = (0..n + extra).map(|i| gen::uniq(i as u64)).collect();
    let mut b = a.clone();
    for j in 0..2 {
        b[extra + d + 2 * j] = gen::uniq(5_000_000 + j as u64);
    }
    let (a, b) = (gen::join(&a, true), gen::join(&b, true));
    let (a, b) = if swap { (b, a) } else { (a, b) };
    cx.input_n("different lines before the changed ones", (n + extra) as u64);
    cx.input_n("first changed line", (extra + d) as u64);
    c01_check(&a, &b, 3, cx)
}

fn c01_check(a: &[u8], b: &[u8], n: usize, cx: &mut Cx) -> Res {
    let p = opts(n).create_patch_bytes(a, b);
    pair_classes(cx, a, b, n, p.hunks().len());
    cx.mark(a != b);
    let got = apply_bytes(a, &p).map_err(|e| format!("apply_bytes: {e}"))?;
    same("apply_bytes(original, patch)", &got, b)?;
    if n == 3 {
        let p = diffy::create_patch_bytes(a, b);
        let got = apply_bytes(a, &p).map_err(|e| format!("apply_bytes with create_patch_bytes: {e}"))?;
        same("apply_bytes(original, create_patch_bytes)", &got, b)?;
    }
    if let (Some(a), Some(b)) = (st(a), st(b)) {
        let p = opts(n).create_patch(a, b);
        let got = apply(a, &p).map_err(|e| format!("apply: {e}"))?;
        same("apply(original, patch)", got.as_bytes(), b.as_bytes())?;
        if n == 3 {
            let p = diffy::create_patch(a, b);
            let got = apply(a, &p).map_err(|e| format!("apply with create_patch: {e}"))?;
            same("apply(original, create_patch)", got.as_bytes(), b.as_bytes())?;
        }
    }
    Ok(())
}

pair_parts!(c02_check, c02_random, c02_huge, c02_small, c02_sizes);

fn c02_check(a: &[u8], b: &[u8], n: usize, cx: &mut Cx) -> Res {
    let mut o = opts(n);
    o.set_original_filename("the old").set_modified_filename("the new");
    let p = o.create_patch_bytes(a, b);
    pair_classes(cx, a, b, n, p.hunks().len());
    cx.mark(a != b);
    let r = p.reverse();
    let got = apply_bytes(b, &r).map_err(|e| format!("apply_bytes(modified, reversed): {e}"))?;
    same("apply_bytes(modified, reversed)", &got, a)?;
    let (po, ro) = (observe_b(&p), observe_b(&r));
    check(ro == po.reversed(), || format!("reversed patch is\n{ro:?}\nbut the patch is\n{po:?}"))?;
    let rr = r.reverse();
    check(rr == p && observe_b(&rr) == po, || "reversing twice gives a different patch".into())?;
    let got = apply_bytes(a, &rr).map_err(|e| format!("apply_bytes(original, reversed twice): {e}"))?;
    same("apply_bytes(original, reversed twice)", &got, b)?;
    for (h, k) in p.hunks().iter().zip(r.hunks()) {
        check(h.reverse() == *k && k.reverse() == *h, || "hunk reversal differs from patch reversal".into())?;
        check(h.lines().iter().map(|l| l.reverse()).eq(k.lines().iter().copied()), || "line reversal differs from patch reversal".into())?;
    }
    if let (Some(a), Some(b)) = (st(a), st(b)) {
        let p = o.create_patch(a, b);
        let r = p.reverse();
        let got = apply(b, &r).map_err(|e| format!("apply(modified, reversed): {e}"))?;
        same("apply(modified, reversed)", got.as_bytes(), a.as_bytes())?;
        let (po, ro) = (observe_s(&p), observe_s(&r));
        check(ro == po.reversed(), || format!("reversed str patch is\n{ro:?}\nbut the patch is\n{po:?}"))?;
        let rr = r.reverse();
        check(rr == p, || "reversing twice gives a different str patch".into())?;
    }
    Ok(())
}

/// A patch that was read from a text keeps everything when reversed.
fn c02_parsed(s: &mut Src, cx: &mut Cx) -> Res {
    let utf8 = gen::utf8(s);
    let m = model_odd(s, utf8);
    let text = write_any(s, &m, utf8);
    c02_text(&m, &text, cx)
}

fn c02_parsed_sizes(i: u64, cx: &mut Cx) -> Res {
    let m = sized_model(i);
    c02_text(&m, &write_plain(&m), cx)
}

fn c02_text(m: &RPatch, text: &[u8], cx: &mut Cx) -> Res {
    cx.input("text", text);
    let Ok(p) = Patch::from_bytes(text) else {
        cx.class("rejected");
        return Ok(());
    };
    cx.mark(!p.hunks().is_empty());
    cx.class_if(m.hunks.iter().any(|h| h.heading.is_some()), "with section heading");
    cx.class_if(m.old.is_some() != m.new.is_some(), "one file name");
    let (po, r) = (observe_b(&p), p.reverse());
    let ro = observe_b(&r);
    check(ro == po.reversed(), || format!("reversed patch is\n{ro:?}\nbut the patch is\n{po:?}"))?;
    let rr = r.reverse();
    check(rr == p && observe_b(&rr) == po, || format!("reversing twice gives\n{:?}\nbut the patch is\n{po:?}", observe_b(&rr)))?;
    for (h, k) in p.hunks().iter().zip(r.hunks()) {
        check(h.reverse() == *k && k.reverse() == *h, || "hunk reversal differs from patch reversal".into())?;
        check(h.lines().iter().map(|l| l.reverse()).eq(k.lines().iter().copied()), || "line reversal differs from patch reversal".into())?;
    }
    // the lines the patch replaces and the lines it puts there
    let whole = |post: bool| -> Vec<u8> {
        let h: Vec<Vec<u8>> = po.hunks.iter().map(|h| if post { h.post().concat() } else { h.pre().concat() }).collect();
        h.concat()
    };
    if po.hunks.len() == 1 {
        let (pre, post) = (whole(false), whole(true));
        if let Ok(got) = apply_bytes(&pre, &p) {
            same("apply_bytes(old lines, patch)", &got, &post)?;
            let back = apply_bytes(&got, &r).map_err(|e| format!("apply_bytes(new lines, reversed): {e}"))?;
            same("apply_bytes(new lines, reversed)", &back, &pre)?;
        }
    }
    if let Some(Ok(p)) = st(text).map(Patch::from_str) {
        let (po, r) = (observe_s(&p), p.reverse());
        let ro = observe_s(&r);
        check(ro == po.reversed(), || format!("reversed str patch is\n{ro:?}\nbut the patch is\n{po:?}"))?;
        let rr = r.reverse();
        check(rr == p && observe_s(&rr) == po, || "reversing twice gives a different str patch".into())?;
    }
    Ok(())
}

pair_parts!(c03_check, c03_random, c03_huge, c03_small, c03_sizes);

fn c03_check(a: &[u8], b: &[u8], n: usize, cx: &mut Cx) -> Res {
    // names vary with the case, without drawing anything
    const NAMES: &[&str] = &["original", "a b", "q\"x", "t\tx", "n\nx", "back\\slash", "é", "", "a\r", "z\0", "--- x"];
    let k = a.len() % NAMES.len();
    let (na, nb) = (NAMES[k], NAMES[(k + b.len()) % NAMES.len()]);
    let mut o = opts(n);
    o.set_original_filename(na).set_modified_filename(nb);
    let p = o.create_patch_bytes(a, b);
    pair_classes(cx, a, b, n, p.hunks().len());
    cx.mark(a != b);
    strict_both_ways(&p.to_bytes(), a, b, na, nb).map_err(|e| format!("to_bytes: {e}\n  text: {}", clip(&p.to_bytes())))?;
    let mut v = Vec::new();
    PatchFormatter::new()
        .suppress_blank_empty(false)
        .write_patch_into(&p, &mut v)
        .map_err(|e| e.to_string())?;
    strict_both_ways(&v, a, b, na, nb).map_err(|e| format!("without blank suppression: {e}\n  text: {}", clip(&v)))?;
    // the reversed patch is a valid diff the other way round
    let r = p.reverse().to_bytes();
    strict_both_ways(&r, b, a, nb, na).map_err(|e| format!("reversed: {e}\n  text: {}", clip(&r)))?;
    if let (Some(a), Some(b)) = (st(a), st(b)) {
        let t = o.create_patch(a, b).to_string();
        strict_both_ways(t.as_bytes(), a.as_bytes(), b.as_bytes(), na, nb)
            .map_err(|e| format!("to_string: {e}\n  text: {}", clip(t.as_bytes())))?;
    }
    Ok(())
}

fn strict_both_ways(text: &[u8], a: &[u8], b: &[u8], na: &str, nb: &str) -> Res {
    let p = parse_strict(text)?;
    check(p.old.as_deref() == Some(na.as_bytes()), || format!("--- names {:?}", p.old))?;
    check(p.new.as_deref() == Some(nb.as_bytes()), || format!("+++ names {:?}", p.new))?;
    let got = apply_strict(a, &p.hunks)?;
    same("a strict tool applying the diff", &got, b)?;
    let back = apply_strict(b, &p.reversed().hunks).map_err(|e| format!("backwards: {e}"))?;
    same("a strict tool applying the diff backwards", &back, a)
}

pair_parts!(c05_check, c05_random, c05_huge, c05_small, c05_sizes);

fn c05_many(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::many(s);
    input_pair(cx, &p.a, &p.b, 3);
    c05_check(&p.a, &p.b, 3, cx)
}

/// Comparisons that take seconds: kept lines are all different and the others occur once, so the
/// shortest edit script changes exactly the others.
fn c05_long(i: u64, cx: &mut Cx) -> Res {
    let mut s = Src::random(0xC05 + i);
    let want = 30_000 + 5_000 * (i as usize % 4);
    let (mut a, mut b) = (String::new(), String::new());
    let (mut changed, mut n) = (0, 0);
    while changed < want {
        let gap = if i % 8 < 4 { 1 } else { 1 + s.us(40) };
        for _ in 0..gap {
            n += 1;
            a += &format!("{n:x}\n");
            b += &format!("{n:x}\n");
        }
        let (d, k) = if i % 2 == 0 { (1, 1) } else { (s.us(4), s.us(4)) };
        for _ in 0..d.min(want - changed) {
            changed += 1;
            a += &format!("-{changed}\n");
        }
        for _ in 0..k.min(want - changed) {
            changed += 1;
            b += &format!("+{changed}\n");
        }
    }
    cx.input_n("changed lines", want as u64);
    cx.input_n("kept lines", n);
    cx.mark(true);
    let p = opts(3).create_patch_bytes(a.as_bytes(), b.as_bytes());
    let got = p.hunks().iter().flat_map(|h| h.lines()).filter(|l| !matches!(l, diffy::Line::Context(_))).count();
    check(got == want, || format!("{got} changed lines, the shortest edit script has {want}"))
}

fn c05_check(a: &[u8], b: &[u8], n: usize, cx: &mut Cx) -> Res {
    let p = opts(n).create_patch_bytes(a, b);
    pair_classes(cx, a, b, n, p.hunks().len());
    let ids = number_lines(&[a, b]);
    let l = lcs(&ids[0], &ids[1]);
    if ids[0].len() < 40 {
        // the oracle itself
        let t = lcs_table(&ids[0], &ids[1]);
        assert_eq!(l, t, "the harness's two ways of computing the longest common subsequence");
    }
    cx.mark(a != b && l > 0);
    let want = ids[0].len() + ids[1].len() - 2 * l;
    cx.class_if(want > 20, "more than 20 changed lines");
    cx.class_if(want > 2000, "more than 2000 changed lines");
    let count = |p: &RPatch| -> usize { p.hunks.iter().flat_map(|h| &h.lines).filter(|l| l.0 != b' ').count() };
    let got = count(&observe_b(&p));
    check(got == want, || format!("{got} changed lines, the shortest edit script has {want}"))?;
    check(p.hunks().is_empty() == (a == b), || {
        format!("{} hunks for {} texts", p.hunks().len(), if a == b { "equal" } else { "different" })
    })?;
    if let (Some(a), Some(b)) = (st(a), st(b)) {
        let p = opts(n).create_patch(a, b);
        let got = count(&observe_s(&p));
        check(got == want, || format!("str: {got} changed lines, the shortest edit script has {want}"))?;
        check(p.hunks().is_empty() == (a == b), || "str: empty patch for different texts or the other way round".into())?;
    }
    Ok(())
}

pair_parts!(c06_check, c06_random, c06_huge, c06_small, c06_sizes);

/// Edits whose distances are around the values where hunks merge or split.
fn c06_gaps(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.us(6);
    let mut a: Vec<gen::Line> = Vec::new();
    let mut b: Vec<gen::Line> = Vec::new();
    let mut k = 0u64;
    let mut fresh = || {
        k += 1;
        format!("u{k}").into_bytes()
    };
    let gap = |s: &mut Src| -> usize {
        match s.us(4) {
            0 => n.saturating_sub(1) + s.us(3),
            1 => (2 * n).saturating_sub(2) + s.us(5),
            2 => s.us(3),
            _ => 2 * n + 1 + s.us(4),
        }
    };
    let first = gap(s);
    for _ in 0..first {
        let l = fresh();
        a.push(l.clone());
        b.push(l);
    }
    for _ in 0..1 + s.us(5) {
        let (d, i) = match s.us(4) {
            0 => (0, 1 + s.us(2)),
            1 => (1 + s.us(2), 0),
            2 => (1, 1),
            _ => (1 + s.us(3), 1 + s.us(3)),
        };
        for _ in 0..d {
            a.push(fresh());
        }
        for _ in 0..i {
            b.push(fresh());
        }
        for _ in 0..gap(s) {
            let l = fresh();
            a.push(l.clone());
            b.push(l);
        }
    }
    let nl = !s.chance(1, 3);
    let (a, b) = (gen::join(&a, nl), gen::join(&b, nl));
    input_pair(cx, &a, &b, n);
    c06_check(&a, &b, n, cx)
}

fn c06_check(a: &[u8], b: &[u8], n: usize, cx: &mut Cx) -> Res {
    let p = observe_b(&opts(n).create_patch_bytes(a, b));
    pair_classes(cx, a, b, n, p.hunks.len());
    cx.mark(!p.hunks.is_empty());
    c06_windows(&p, a, b, n)?;
    // the same lines are changed whatever the context
    let full = c06_changes(&observe_b(&opts(usize::MAX).create_patch_bytes(a, b)));
    check(c06_changes(&p) == full, || "the changed lines are not those shown with another context length".into())?;
    if n == 3 {
        c06_windows(&observe_b(&diffy::create_patch_bytes(a, b)), a, b, 3).map_err(|e| format!("default options: {e}"))?;
    }
    if let (Some(x), Some(y)) = (st(a), st(b)) {
        let p = observe_s(&opts(n).create_patch(x, y));
        c06_windows(&p, a, b, n).map_err(|e| format!("str: {e}"))?;
        check(c06_changes(&p) == full, || "str: the changed lines are not those shown with another context length".into())?;
    }
    Ok(())
}

/// The deleted and inserted lines by their numbers, in order.
pub fn c06_changes(p: &RPatch) -> Vec<(u8, usize)> {
    let mut v = vec![];
    for h in &p.hunks {
        let at = |start: usize, len: usize| if len == 0 { start } else { start.wrapping_sub(1) };
        let (mut o, mut n) = (at(h.os, h.ol), at(h.ns, h.nl));
        for (t, _) in &h.lines {
            match t {
                b'-' => v.push((*t, o)),
                b'+' => v.push((*t, n)),
                _ => {}
            }
            o += usize::from(*t != b'+');
            n += usize::from(*t != b'-');
        }
    }
    v
}

fn c06_windows(p: &RPatch, a: &[u8], b: &[u8], n: usize) -> Res {
    let (na, nb) = (split(a).len(), split(b).len());
    let two = n.saturating_mul(2);
    if n >= na.max(nb) {
        check(p.hunks.len() <= 1, || format!("{} hunks although the context covers everything", p.hunks.len()))?;
        if let Some(h) = p.hunks.first() {
            let c = h.counts();
            check(c == (na, nb), || format!("the hunk covers {c:?} lines of {:?}", (na, nb)))?;
        }
    }
    // unchanged lines the previous hunk carried at its end, and where it ended, in both files
    let mut prev: Option<(usize, usize, usize)> = None;
    for (k, h) in p.hunks.iter().enumerate() {
        let k = k + 1;
        let at = |start: usize, len: usize| if len == 0 { start } else { start.wrapping_sub(1) };
        let (so, sn) = (at(h.os, h.ol), at(h.ns, h.nl));
        let tags: Vec<u8> = h.lines.iter().map(|l| l.0).collect();
        let lead = tags.iter().take_while(|t| **t == b' ').count();
        check(lead < tags.len(), || format!("hunk {k} changes nothing"))?;
        let trail = tags.iter().rev().take_while(|t| **t == b' ').count();
        check(lead <= n && trail <= n, || format!("hunk {k} has {lead} leading and {trail} trailing context lines"))?;
        // lines before the first change that are unchanged: all of them up to the change before
        let avail = match prev {
            None => so.min(sn) + lead,
            Some((po, pn, t)) => {
                check(so >= po && sn >= pn && so - po == sn - pn, || format!("hunk {k} shares lines with the one before"))?;
                so - po + t + lead
            }
        };
        check(lead == n.min(avail), || format!("hunk {k} starts with {lead} context lines, {avail} were available"))?;
        let c = h.counts();
        let (eo, en) = (so + c.0, sn + c.1);
        if k == p.hunks.len() {
            check(eo <= na && en <= nb && na - eo == nb - en, || format!("hunk {k} ends at {eo} and {en}"))?;
            let avail = na - eo + trail;
            check(trail == n.min(avail), || format!("hunk {k} ends with {trail} context lines, {avail} were available"))?;
        } else {
            check(trail == n, || format!("hunk {k} ends with {trail} context lines"))?;
        }
        let mid = &tags[lead..tags.len() - trail];
        let mut run = 0;
        for t in mid {
            run = if *t == b' ' { run + 1 } else { 0 };
            check(run <= two, || format!("hunk {k} has more than {two} unchanged lines between changes"))?;
        }
        check(n > 0 || !tags.contains(&b' '), || format!("hunk {k} has context lines although none were asked for"))?;
        if prev.is_some() {
            let gap = avail;
            check(gap >= two, || format!("hunks {} and {k} are separated by {gap} unchanged lines only", k - 1))?;
            check(gap > 0, || format!("hunks {} and {k} touch", k - 1))?;
        }
        prev = Some((eo, en, trail));
    }
    Ok(())
}

/// One way of keeping a patch between two versions.
fn c20(s: &mut Src, cx: &mut Cx) -> Res {
    let utf8 = gen::utf8(s);
    let alpha = gen::alphabet(s, utf8);
    let mut vers: Vec<Vec<gen::Line>> = vec![gen::lines(s, &alpha, 10, 3)];
    let mut texts: Vec<Vec<u8>> = vec![gen::join(&vers[0], gen::final_nl(s))];
    for _ in 0..1 + s.us(8) {
        let from = if s.chance(1, 4) { s.us(vers.len()) } else { vers.len() - 1 };
        let v = gen::edit(s, &vers[from].clone(), &alpha, 3);
        texts.push(gen::join(&v, gen::final_nl(s)));
        vers.push(v);
    }
    for (i, t) in texts.iter().enumerate() {
        cx.input(&format!("version {i}"), t);
    }
    // patch i leads from version i to i+1
    enum Kept<'a> {
        Object(Patch<'a, [u8]>),
        Text(Vec<u8>),
        StrObject(Patch<'a, str>),
        StrText(String),
    }
    let mut kept: Vec<Kept> = Vec::new();
    for i in 0..texts.len() - 1 {
        let (a, b) = (&texts[i][..], &texts[i + 1][..]);
        let n = gen::context_len(s);
        let mut o = opts(n);
        if s.chance(1, 2) {
            o.set_original_filename(gen::filename(s)).set_modified_filename(gen::filename(s));
        }
        let how = s.us(4);
        let blank = s.chance(1, 2);
        let f = PatchFormatter::new().suppress_blank_empty(blank);
        cx.input_n(&format!("patch {i}: context"), n as u64);
        cx.input_n(&format!("patch {i}: kept as (0 object, 1 bytes, 2 str object, 3 string)"), how as u64);
        // sometimes the kept patch was made backwards and reversed
        let back = s.chance(1, 4);
        let k = match (how, st(a), st(b)) {
            (2, Some(a), Some(b)) => Kept::StrObject(o.create_patch(a, b)),
            (3, Some(a), Some(b)) => {
                let p = o.create_patch(a, b);
                let t = f.fmt_patch(&p).to_string();
                if back {
                    Kept::StrText(f.fmt_patch(&o.create_patch(b, a).reverse()).to_string())
                } else {
                    Kept::StrText(t)
                }
            }
            (0 | 2, ..) => Kept::Object(o.create_patch_bytes(a, b)),
            _ => {
                let mut v = Vec::new();
                let p = if back { o.create_patch_bytes(b, a) } else { o.create_patch_bytes(a, b) };
                let p = if back { p.reverse() } else { p };
                f.write_patch_into(&p, &mut v).map_err(|e| e.to_string())?;
                Kept::Text(v)
            }
        };
        kept.push(k);
    }
    let mut at = 0usize;
    let mut cur: Vec<u8> = texts[0].clone();
    let (mut ups, mut downs, mut changed) = (0, 0, 0);
    let mut trace = String::new();
    let steps = 3 + s.us(28);
    for _ in 0..steps {
        let up = if at == 0 {
            true
        } else if at == kept.len() {
            false
        } else {
            s.chance(1, 2)
        };
        let i = if up { at } else { at - 1 };
        let rep = s.us(5);
        trace.push_str(&format!("{}{} ", if up { "redo" } else { "undo" }, rep));
        let next = match &kept[i] {
            Kept::Object(p) => c20_bytes(p, up, rep, &cur),
            Kept::Text(t) => Patch::from_bytes(t).map_err(|e| e.to_string()).and_then(|p| c20_bytes(&p, up, rep, &cur)),
            Kept::StrObject(p) => c20_str(p, up, rep, &cur),
            Kept::StrText(t) => Patch::from_str(t).map_err(|e| e.to_string()).and_then(|p| c20_str(&p, up, rep, &cur)),
        };
        let next = next.map_err(|e| format!("after {trace}: patch {i}: {e}"))?;
        at = if up { at + 1 } else { at - 1 };
        same(&format!("version {at} reached by {trace}"), &next, &texts[at])?;
        changed += usize::from(next != cur);
        ups += usize::from(up);
        downs += usize::from(!up);
        cur = next;
    }
    cx.note("steps", || trace.clone());
    cx.input_n("steps taken", steps as u64);
    cx.class_if(!utf8, "byte texts");
    cx.class_if(ups + downs > 15, "long history");
    cx.mark(changed >= 3 && ups > 0 && downs > 0);
    Ok(())
}

/// One version to the next and back, by every way of keeping the patch.
fn c20_pair(a: &[u8], b: &[u8], n: usize, cx: &mut Cx) -> Res {
    input_pair(cx, a, b, n);
    cx.mark(a != b);
    let p = opts(n).create_patch_bytes(a, b);
    for rep in 0..5 {
        for (up, from, to) in [(true, a, b), (false, b, a)] {
            let what = format!("{} {rep}", if up { "redo" } else { "undo" });
            let got = c20_bytes(&p, up, rep, from).map_err(|e| format!("{what}: {e}"))?;
            same(&what, &got, to)?;
            if let (Some(x), Some(y)) = (st(a), st(b)) {
                let p = opts(n).create_patch(x, y);
                let got = c20_str(&p, up, rep, from).map_err(|e| format!("{what}, as a string: {e}"))?;
                same(&format!("{what}, as a string"), &got, to)?;
            }
        }
    }
    Ok(())
}
fn c20_huge(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::huge(s);
    let n = gen::context_len(s);
    c20_pair(&p.a, &p.b, n, cx)
}
fn c20_small(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = small_pair(i);
    c20_pair(a, b, n, cx)
}
fn c20_sizes(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = sized_pair(i);
    c20_pair(&a, &b, n, cx)
}

/// Copies of parsed patches.
fn c20_copies(s: &mut Src, cx: &mut Cx) -> Res {
    let utf8 = gen::utf8(s);
    let m = model_odd(s, utf8);
    let t = write_any(s, &m, utf8);
    cx.input("text", &t);
    cx.mark(m.hunks.iter().any(|h| !h.lines.is_empty()));
    let Ok(p) = Patch::from_bytes(&t) else {
        cx.class("rejected");
        return Ok(());
    };
    let c = p.clone();
    check(c == p && observe_b(&c) == observe_b(&p), || format!("the clone is\n  {c:?}\n  of\n  {p:?}"))?;
    same("the clone as text", &c.to_bytes(), &p.to_bytes())?;
    for h in p.hunks() {
        let c = h.clone();
        check(c == *h, || format!("the clone is\n  {c:?}\n  of\n  {h:?}"))?;
        check(c.function_context() == h.function_context() && c.lines() == h.lines(), || format!("the clone is\n  {c:?}\n  of\n  {h:?}"))?;
    }
    if let Some(Ok(p)) = st(&t).map(Patch::from_str) {
        let c = p.clone();
        check(c == p && observe_s(&c) == observe_s(&p), || format!("the clone is\n  {c:?}\n  of\n  {p:?}"))?;
        same("the clone as text", c.to_string().as_bytes(), p.to_string().as_bytes())?;
    }
    Ok(())
}

fn c20_bytes(p: &Patch<'_, [u8]>, up: bool, rep: usize, cur: &[u8]) -> Result<Vec<u8>, String> {
    let go = |p: &Patch<'_, [u8]>| apply_bytes(cur, p).map_err(|e| e.to_string());
    let rev = |p: &Patch<'_, [u8]>| apply_bytes(cur, &p.reverse()).map_err(|e| e.to_string());
    match (rep, up) {
        (0, true) => go(p),
        (0, false) => rev(p),
        (1, true) => go(&p.clone()),
        (1, false) => rev(&p.clone()),
        (2, true) => go(&p.reverse().reverse()),
        (2, false) => rev(&p.reverse().reverse()),
        (3, _) => {
            let t = p.to_bytes();
            let q = Patch::from_bytes(&t).map_err(|e| e.to_string())?;
            if up {
                go(&q)
            } else {
                rev(&q)
            }
        }
        (_, _) => {
            let t = p.reverse().to_bytes();
            let q = Patch::from_bytes(&t).map_err(|e| e.to_string())?;
            if up {
                rev(&q)
            } else {
                go(&q)
            }
        }
    }
}

fn c20_str(p: &Patch<'_, str>, up: bool, rep: usize, cur: &[u8]) -> Result<Vec<u8>, String> {
    let cur = st(cur).ok_or("history is not UTF-8")?;
    let go = |p: &Patch<'_, str>| apply(cur, p).map(String::into_bytes).map_err(|e| e.to_string());
    let rev = |p: &Patch<'_, str>| apply(cur, &p.reverse()).map(String::into_bytes).map_err(|e| e.to_string());
    match (rep, up) {
        (0, true) => go(p),
        (0, false) => rev(p),
        (1, true) => go(&p.clone()),
        (1, false) => rev(&p.clone()),
        (2, true) => go(&p.reverse().reverse()),
        (2, false) => rev(&p.reverse().reverse()),
        (3, _) => {
            let t = p.to_string();
            let q = Patch::from_str(&t).map_err(|e| e.to_string())?;
            if up {
                go(&q)
            } else {
                rev(&q)
            }
        }
        (_, _) => {
            let t = p.reverse().to_string();
            let q = Patch::from_str(&t).map_err(|e| e.to_string())?;
            if up {
                rev(&q)
            } else {
                go(&q)
            }
        }
    }
}

pair_parts!(c23_check, c23_random, c23_huge, c23_small, c23_sizes);

/// Texts full of repeated blocks.
fn c23_repeats(s: &mut Src, cx: &mut Cx) -> Res {
    let alpha: Vec<gen::Line> = (0..2 + s.n(4)).map(|i| vec![b'a' + i as u8]).collect();
    let block: Vec<gen::Line> = (0..1 + s.us(5)).map(|_| s.pick(&alpha).clone()).collect();
    let mut a = gen::lines(s, &alpha, 6, 0);
    for _ in 0..1 + s.us(4) {
        a.extend(block.clone());
        if s.chance(1, 3) {
            a.push(s.pick(&alpha).clone());
        }
    }
    a.extend(gen::lines(s, &alpha, 4, 0));
    let mut b = a.clone();
    for _ in 0..1 + s.us(3) {
        let at = s.us(b.len() + 1);
        match s.us(3) {
            0 => {
                b.splice(at..at, block.clone());
            }
            1 => {
                let d = s.us(block.len() + 2).min(b.len() - at);
                b.drain(at..at + d);
            }
            _ => {
                let l = s.pick(&alpha).clone();
                b.insert(at, l);
            }
        }
    }
    let (a, b) = (gen::join(&a, gen::final_nl(s)), gen::join(&b, gen::final_nl(s)));
    let (a, b) = if s.chance(1, 2) { (b, a) } else { (a, b) };
    let n = gen::context_len(s);
    input_pair(cx, &a, &b, n);
    c23_check(&a, &b, n, cx)
}

/// Hundreds to thousands of places at each of which a repeated block comes once more or less.
fn c23_many(s: &mut Src, cx: &mut Cx) -> Res {
    let places = match s.us(3) {
        0 => 20 + s.us(200),
        1 => 200 + s.us(1000),
        _ => 1000 + s.us(3000),
    };
    let block: Vec<String> = (0..1 + s.us(3)).map(|i| if s.chance(1, 4) { "a".into() } else { format!("b{i}") }).collect();
    let (few, moved) = (1 + s.us(3), 1 + s.n(3));
    let mut r = crate::engine::Rng::new(s.n(1 << 32));
    let (mut a, mut b) = (vec![], vec![]);
    for k in 0..places {
        for t in [&mut a, &mut b] {
            t.push(format!("place {k}").into_bytes());
        }
        let times = 1 + r.next() as usize % few;
        let other = if r.next() % 4 < moved { (times + 1) - 2 * (r.next() % 2) as usize } else { times };
        for (t, n) in [(&mut a, times), (&mut b, other)] {
            for _ in 0..n {
                t.extend(block.iter().map(|l| l.clone().into_bytes()));
            }
        }
    }
    let (a, b) = (gen::join(&a, gen::final_nl(s)), gen::join(&b, gen::final_nl(s)));
    let n = s.us(5);
    input_pair(cx, &a, &b, n);
    c23_check(&a, &b, n, cx)
}

fn c23_check(a: &[u8], b: &[u8], n: usize, cx: &mut Cx) -> Res {
    let p = observe_b(&opts(usize::MAX).create_patch_bytes(a, b));
    pair_classes(cx, a, b, n, p.hunks.len());
    let any = c23_lowest(&p, a)?;
    let p = observe_b(&opts(n).create_patch_bytes(a, b));
    c23_lowest(&p, a).map_err(|e| format!("context {n}: {e}"))?;
    if let (Some(x), Some(y)) = (st(a), st(b)) {
        let p = observe_s(&opts(n).create_patch(x, y));
        c23_lowest(&p, a).map_err(|e| format!("str: {e}"))?;
    }
    cx.mark(any);
    Ok(())
}

fn c23_lowest(p: &RPatch, a: &[u8]) -> Result<bool, String> {
    let la = split(a);
    let mut any = false;
    for h in &p.hunks {
        let ls = &h.lines;
        let mut at = if h.ol == 0 { h.os } else { h.os.saturating_sub(1) };
        let mut i = 0;
        while i < ls.len() {
            if ls[i].0 == b' ' {
                i += 1;
                at += 1;
                continue;
            }
            let mut j = i;
            while j < ls.len() && ls[j].0 != b' ' {
                at += usize::from(ls[j].0 == b'-');
                j += 1;
            }
            if ls[i..j].iter().all(|l| l.0 == ls[i].0) {
                // the unchanged line after the block
                if let Some(next) = la.get(at) {
                    any = true;
                    check(&ls[i].1[..] != *next, || {
                        format!(
                            "a block of {} {} lines before line {} of the original could be reported further down: its first line equals the unchanged line after it, {}",
                            j - i,
                            if ls[i].0 == b'+' { "inserted" } else { "deleted" },
                            at + 1,
                            show(next)
                        )
                    })?;
                }
            }
            i = j;
        }
    }
    Ok(any)
}

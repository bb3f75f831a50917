//! Properties across the interface: C12, C18, C19, C22.

use super::applying::{free, near_line, near_lines, shift, shift_headers, shifts, Shift};
use super::parsing::{bad_size, bad_sizes, broken, model, model_odd, mutated, sized_model, sized_models, write_any, write_plain};
use super::*;
use crate::refm::*;
use diffy::{
    apply, apply_bytes, create_patch, create_patch_bytes, merge, merge_bytes, ConflictStyle, DiffOptions, MergeOptions, Patch, PatchFormatter,
};
use std::io;

const MARK: &[u8] = b"\\ No newline at end of file\n";

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            rule: "UTF-8 texts, patch texts and merges given to the string and to the byte functions. Non-trivial: the texts differ, or the patch text has a hunk or is rejected",
            parts: vec![
                rnd("create", 80_000, 3_200_000, c12_create),
                rnd("parse", 150_000, 6_000_000, c12_parse),
                rnd("apply", 80_000, 3_200_000, c12_apply),
                rnd("merge", 100_000, 4_000_000, c12_merge),
                enm("small", pairs_quick, pairs_thorough, c12_small),
                enm("sizes and bytes", sized_pairs, sized_pairs, c12_sizes),
                enm("parsed sizes and bytes", sized_models, sized_models, c12_parsed_sizes),
                enm("merged sizes and bytes", sized_triples, sized_triples, c12_merged_sizes),
                enm("malformed sizes and bytes", bad_sizes, bad_sizes, c12_bad_sizes),
                enm("applied sizes and bytes", c12_applied_n, c12_applied_n, c12_applied),
            ],
        },
        Prop {
            id: "C18",
            rule: "patches created or parsed from texts without escape characters, under every combination of the three formatter settings set in any order. Non-trivial: the patch has a hunk with two kinds of line",
            parts: vec![
                rnd("created", 50_000, 2_000_000, c18_created),
                rnd("parsed", 70_000, 2_800_000, c18_parsed),
                enm("small", c18_small_n, pairs_quick, c18_small),
                enm("sizes and bytes", sized_pairs, sized_pairs, c18_sizes),
                enm("parsed sizes and bytes", sized_models, sized_models, c18_parsed_sizes),
            ],
        },
        Prop {
            id: "C19",
            rule: "a patch written through a writer that follows a generated script of short writes, interruptions, errors of several kinds, and refusals to accept more, at generated places; and through a formatting sink that fails after a generated number of bytes. Non-trivial: the script did something other than accept everything",
            parts: vec![
                rnd("writers", 1_000_000, 40_000_000, c19_writers),
                rnd("sinks", 500_000, 20_000_000, c19_sinks),
                enm("every position", pairs_quick, pairs_thorough, c19_small),
                enm("sizes and bytes", sized_pairs, sized_pairs, c19_sizes),
                enm("parsed sizes and bytes", sized_models, sized_models, c19_parsed_sizes),
            ],
        },
        Prop {
            id: "C22",
            rule: "a list of up to 8 operations (create, parse, format, apply, also patches that fit at several places, reverse, merge with random options), each run alone first, then repeated in random orders, through shared options objects, on several threads at once in another process with other environment variables and with arguments that are slices of one buffer; operations called by a writer while a patch is being written to it, and after a writer failed or panicked; options set several times; and single operations repeated hundreds of thousands of times. Non-trivial: at least three different operations",
            parts: vec![
                rnd("histories", 15_000, 600_000, c22_histories),
                rnd("threads", 1_500, 60_000, c22_threads),
                rnd("process", 1_000, 40_000, c22_process),
                rnd("options", 100_000, 4_000_000, c22_options),
                rnd("buffers", 20_000, 800_000, c22_buffers),
                rnd("shared", 60_000, 2_400_000, c22_shared),
                rnd("nested", 10_000, 400_000, c22_nested),
                enm("repetition", || REPEATED, || 2 * REPEATED, c22_repetition),
            ],
        },
    ]
}

fn formatter(i: u8) -> PatchFormatter {
    // the settings are applied in an order that depends on i as well
    let (color, msg, blank) = (i & 1 != 0, i & 2 != 0, i & 4 != 0);
    if i & 8 == 0 {
        let f = PatchFormatter::new().missing_newline_message(msg).suppress_blank_empty(blank);
        if color {
            f.with_color()
        } else {
            f
        }
    } else {
        let f = if color { PatchFormatter::new().with_color() } else { PatchFormatter::default() };
        f.suppress_blank_empty(blank).missing_newline_message(msg)
    }
}

fn write_b(f: &PatchFormatter, p: &Patch<'_, [u8]>) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    f.write_patch_into(p, &mut v).map_err(|e| format!("write_patch_into: {e}"))?;
    Ok(v)
}

fn write_s(f: &PatchFormatter, p: &Patch<'_, str>) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    f.write_patch_into(p, &mut v).map_err(|e| format!("write_patch_into: {e}"))?;
    Ok(v)
}

// ---------------------------------------------------------------- C12

fn utf8_pair(s: &mut Src) -> gen::Pair {
    let p = gen::pair(s);
    let fix = |v: Vec<u8>| if st(&v).is_some() { v } else { String::from_utf8_lossy(&v).into_owned().into_bytes() };
    gen::Pair { a: fix(p.a), b: fix(p.b), utf8: true }
}

fn agree_patch(what: &str, s: &Patch<'_, str>, b: &Patch<'_, [u8]>) -> Res {
    let (x, y) = (observe_s(s), observe_b(b));
    check(x == y, || format!("{what}: the patches differ\n  str   {x:?}\n  bytes {y:?}"))?;
    same(&format!("{what}: to_bytes of the two patches"), &b.to_bytes(), &s.to_bytes())?;
    same(&format!("{what}: to_bytes and to_string"), &s.to_bytes(), s.to_string().as_bytes())?;
    for i in 0..16u8 {
        let f = formatter(i);
        let t = f.fmt_patch(s).to_string();
        same(&format!("{what}: formatter {i}: str written and displayed"), &write_s(&f, s)?, t.as_bytes())?;
        same(&format!("{what}: formatter {i}: bytes written and str displayed"), &write_b(&f, b)?, t.as_bytes())?;
    }
    Ok(())
}

fn c12_pair(a: &str, b: &str, n: usize, names: Option<(String, String)>) -> Res {
    let mut o = opts(n);
    if let Some((x, y)) = names {
        o.set_original_filename(x).set_modified_filename(y);
    }
    let (s, t) = (o.create_patch(a, b), o.create_patch_bytes(a.as_bytes(), b.as_bytes()));
    agree_patch("created", &s, &t)?;
    agree_patch("reversed", &s.reverse(), &t.reverse())?;
    let (s, t) = (create_patch(a, b), create_patch_bytes(a.as_bytes(), b.as_bytes()));
    check(observe_s(&s) == observe_b(&t), || "create_patch and create_patch_bytes differ".into())
}

fn c12_create(s: &mut Src, cx: &mut Cx) -> Res {
    let p = utf8_pair(s);
    let n = gen::context_len(s);
    let names = if s.chance(1, 2) { Some((gen::filename(s), gen::filename(s))) } else { None };
    input_pair(cx, &p.a, &p.b, n);
    if let Some((x, y)) = &names {
        cx.input("names", format!("{x}|{y}").as_bytes());
    }
    cx.mark(p.a != p.b);
    c12_pair(st(&p.a).unwrap(), st(&p.b).unwrap(), n, names)
}

fn c12_small(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = small_pair(i);
    input_pair(cx, a, b, n);
    cx.mark(a != b);
    let (a, b) = (st(a).unwrap(), st(b).unwrap());
    let mut o = opts(n);
    o.set_modified_filename("b");
    let (s, t) = (o.create_patch(a, b), o.create_patch_bytes(a.as_bytes(), b.as_bytes()));
    check(observe_s(&s) == observe_b(&t), || "the created patches differ".into())?;
    same("to_bytes and to_string", &t.to_bytes(), s.to_string().as_bytes())
}

fn c12_sizes(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = sized_pair(i);
    input_pair(cx, &a, &b, n);
    cx.mark(a != b && st(&a).is_some() && st(&b).is_some());
    let (Some(a), Some(b)) = (st(&a), st(&b)) else {
        cx.class("not UTF-8");
        return Ok(());
    };
    c12_pair(a, b, n, None)?;
    let (x, y) = (opts(n).create_patch(a, b), opts(n).create_patch_bytes(a.as_bytes(), b.as_bytes()));
    agree_apply(a, &x, &y)
}

fn patch_text(s: &mut Src) -> Vec<u8> {
    let v = match s.us(6) {
        5 => broken(s).map(|b| b.0).unwrap_or_default(),
        0 | 1 => {
            let m = model_odd(s, true);
            write_any(s, &m, true)
        }
        2 | 3 => mutated(s).0,
        _ => {
            let mut v = Vec::new();
            while s.more(12) {
                v.extend_from_slice(
                    s.pick(&["@@ -1 +1 @@", "\n", "-a", "+a", " ", "--- ", "+++ ", "\"", "\\", "\t", "é", "0", ",", " @@", "@", "\\ No newline at end of file"])
                        .as_bytes(),
                );
            }
            v
        }
    };
    if st(&v).is_some() {
        v
    } else {
        String::from_utf8_lossy(&v).into_owned().into_bytes()
    }
}

fn c12_parse(s: &mut Src, cx: &mut Cx) -> Res {
    let v = patch_text(s);
    c12_text(&v, cx)
}

fn c12_parsed_sizes(i: u64, cx: &mut Cx) -> Res {
    c12_text(&write_plain(&sized_model(i)), cx)
}

fn c12_bad_sizes(i: u64, cx: &mut Cx) -> Res {
    match bad_size(i) {
        Some((text, _)) => c12_text(&text, cx),
        None => Ok(()),
    }
}

fn c12_applied_n() -> u64 {
    near_lines() + shifts()
}
fn c12_applied(i: u64, cx: &mut Cx) -> Res {
    if i < near_lines() {
        let (base, m) = near_line(i);
        return c12_place(&base, &m, cx);
    }
    match shift(i - near_lines()) {
        Some(Shift { base, patch, .. }) => c12_place(&base, &patch, cx),
        None => Ok(()),
    }
}

/// A patch from a text, that need not fit.
fn c12_place(base: &[u8], m: &RPatch, cx: &mut Cx) -> Res {
    let t = write_plain(m);
    let (Some(base), Some(t)) = (st(base), st(&t)) else {
        cx.class("not UTF-8");
        return Ok(());
    };
    cx.input("base", base.as_bytes());
    cx.input("patch text", t.as_bytes());
    cx.mark(!m.hunks.is_empty());
    match (Patch::from_str(t), Patch::from_bytes(t.as_bytes())) {
        (Ok(x), Ok(y)) => {
            agree_apply(base, &x, &y)?;
            agree_apply(base, &x.reverse(), &y.reverse())
        }
        (x, y) => check(x.is_ok() == y.is_ok(), || "from_str and from_bytes disagree".into()),
    }
}

fn c12_text(v: &[u8], cx: &mut Cx) -> Res {
    let Some(t) = st(v) else {
        cx.class("not UTF-8");
        return Ok(());
    };
    cx.input("text", v);
    match (Patch::from_str(t), Patch::from_bytes(v)) {
        (Ok(p), Ok(q)) => {
            cx.class("accepted");
            cx.mark(!p.hunks().is_empty());
            agree_patch("parsed", &p, &q)?;
            agree_patch("reversed", &p.reverse(), &q.reverse())?;
            let (dp, dq) = (format!("{:?}", p.hunks().len()), format!("{:?}", q.hunks().len()));
            check(dp == dq, || "different numbers of hunks".into())
        }
        (Err(e), Err(f)) => {
            cx.class("rejected");
            cx.mark(true);
            check(e.to_string() == f.to_string(), || format!("from_str says {e:?}, from_bytes says {f:?}"))
        }
        (Ok(_), Err(e)) => Err(format!("from_str accepts what from_bytes rejects: {e}")),
        (Err(e), Ok(_)) => Err(format!("from_bytes accepts what from_str rejects: {e}")),
    }
}

fn agree_apply(base: &str, p: &Patch<'_, str>, q: &Patch<'_, [u8]>) -> Res {
    match (apply(base, p), apply_bytes(base.as_bytes(), q)) {
        (Ok(x), Ok(y)) => same("apply and apply_bytes", &y, x.as_bytes()),
        (Err(e), Err(f)) => check(e.to_string() == f.to_string(), || format!("apply says {e}, apply_bytes says {f}")),
        (Ok(_), Err(e)) => Err(format!("apply succeeds, apply_bytes fails: {e}")),
        (Err(e), Ok(_)) => Err(format!("apply_bytes succeeds, apply fails: {e}")),
    }
}

fn c12_apply(s: &mut Src, cx: &mut Cx) -> Res {
    if s.chance(1, 3) {
        let (base, mut m) = free(s);
        if s.chance(1, 4) {
            shift_headers(s, &mut m.hunks, 50);
        }
        return c12_place(&base, &m, cx);
    }
    let p = utf8_pair(s);
    let n = gen::context_len(s);
    let alpha = gen::alphabet(s, true);
    let l: Vec<gen::Line> = split(&p.a).iter().map(|l| l.strip_suffix(b"\n").unwrap_or(l).to_vec()).collect();
    let base = match s.us(3) {
        0 => p.a.clone(),
        1 => {
            let e = gen::edit(s, &l, &alpha, 3);
            gen::join(&e, gen::final_nl(s))
        }
        _ => [&p.b[..], &p.a[..]].concat(),
    };
    input_pair(cx, &p.a, &p.b, n);
    cx.input("base", &base);
    cx.mark(p.a != p.b);
    let (a, b, base) = (st(&p.a).unwrap(), st(&p.b).unwrap(), st(&base).unwrap());
    let (x, y) = (opts(n).create_patch(a, b), opts(n).create_patch_bytes(a.as_bytes(), b.as_bytes()));
    agree_apply(base, &x, &y)?;
    agree_apply(base, &x.reverse(), &y.reverse())?;
    agree_apply(b, &x, &y)?;
    // and a patch from text
    let v = patch_text(s);
    if let (Ok(x), Ok(y)) = (Patch::from_str(st(&v).unwrap()), Patch::from_bytes(&v)) {
        agree_apply(base, &x, &y)?;
        let pre: String = x
            .hunks()
            .iter()
            .flat_map(|h| h.lines())
            .filter_map(|l| match l {
                diffy::Line::Insert(_) => None,
                diffy::Line::Context(l) | diffy::Line::Delete(l) => Some(*l),
            })
            .collect();
        agree_apply(&pre, &x, &y)?;
    }
    Ok(())
}

fn c12_merge(s: &mut Src, cx: &mut Cx) -> Res {
    let t = gen::triple(s);
    let fix = |v: Vec<u8>| String::from_utf8_lossy(&v).into_owned();
    let (o, a, b) = (fix(t.o), fix(t.a), fix(t.b));
    let len = s.us(12);
    let plain = s.chance(1, 2);
    c12_triple(&o, &a, &b, len, plain, cx)
}

fn c12_merged_sizes(i: u64, cx: &mut Cx) -> Res {
    let (o, a, b) = sized_triple(i);
    let (Some(o), Some(a), Some(b)) = (st(&o), st(&a), st(&b)) else {
        cx.class("not UTF-8");
        return Ok(());
    };
    c12_triple(o, a, b, i as usize % 9, i % 2 == 0, cx)
}

fn c12_triple(o: &str, a: &str, b: &str, len: usize, plain: bool, cx: &mut Cx) -> Res {
    cx.input("ancestor", o.as_bytes());
    cx.input("ours", a.as_bytes());
    cx.input("theirs", b.as_bytes());
    cx.mark(o != a && o != b);
    let mut m = MergeOptions::new();
    m.set_conflict_marker_length(len);
    if plain {
        m.set_conflict_style(ConflictStyle::Merge);
    }
    let conv = |r: Result<String, String>| r.map(String::into_bytes).map_err(String::into_bytes);
    let (x, y) = (conv(m.merge(o, a, b)), m.merge_bytes(o.as_bytes(), a.as_bytes(), b.as_bytes()));
    cx.class(if x.is_ok() { "clean" } else { "conflict" });
    check(x == y, || {
        let show = |r: &Result<Vec<u8>, Vec<u8>>| match r {
            Ok(v) => format!("Ok {}", clip(v)),
            Err(v) => format!("conflict {}", clip(v)),
        };
        format!("merge and merge_bytes differ\n  str   {}\n  bytes {}", show(&x), show(&y))
    })?;
    let (x, y) = (conv(merge(o, a, b)), merge_bytes(o.as_bytes(), a.as_bytes(), b.as_bytes()));
    check(x == y, || "merge and merge_bytes differ under default options".into())
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kd {
    Name,
    Header,
    Del,
    Ins,
    Ctx,
    Mark,
}

/// The plain output with the newline message and without blank suppression, line by line.
fn c18_lines(plain: &[u8], m: &RPatch) -> Result<Vec<(Kd, Vec<u8>)>, String> {
    let ls = split(plain);
    let mut kinds = Vec::new();
    for _ in 0..usize::from(m.old.is_some()) + usize::from(m.new.is_some()) {
        kinds.push((Kd::Name, None));
    }
    for h in &m.hunks {
        kinds.push((Kd::Header, None));
        for (t, l) in &h.lines {
            let mut v = vec![*t];
            v.extend_from_slice(l);
            let raw = !l.ends_with(b"\n");
            if raw {
                v.push(b'\n');
            }
            kinds.push((
                match t {
                    b'-' => Kd::Del,
                    b'+' => Kd::Ins,
                    _ => Kd::Ctx,
                },
                Some(v),
            ));
            if raw {
                kinds.push((Kd::Mark, Some(MARK.to_vec())));
            }
        }
    }
    check(kinds.len() == ls.len(), || format!("the output has {} lines, {} were expected", ls.len(), kinds.len()))?;
    let mut out = Vec::new();
    for ((k, want), l) in kinds.into_iter().zip(ls) {
        if let Some(w) = want {
            same("a line of the output", l, &w)?;
        }
        let ok = match k {
            Kd::Name => l.starts_with(b"--- ") || l.starts_with(b"+++ "),
            Kd::Header => l.starts_with(b"@@ -"),
            _ => true,
        };
        check(ok, || format!("header line {}", show(l)))?;
        out.push((k, l.to_vec()));
    }
    Ok(out)
}

/// Text with the style each byte is drawn in.
fn styled(t: &[u8]) -> Result<(Vec<(u8, Vec<u8>)>, Vec<u8>), String> {
    let mut out = Vec::new();
    let mut state: Vec<u8> = Vec::new();
    let mut i = 0;
    while i < t.len() {
        if t[i] == 0x1b {
            let end = t[i..].iter().position(|b| *b == b'm').ok_or("unfinished escape sequence")? + i;
            let code = t[i..end].strip_prefix(b"\x1b[").ok_or("not a colour sequence")?;
            state = if code == b"0" || code.is_empty() { vec![] } else { code.to_vec() };
            i = end + 1;
            continue;
        }
        out.push((t[i], state.clone()));
        i += 1;
    }
    Ok((out, state))
}

fn c18_colours(coloured: &[u8], lines: &[(Kd, Vec<u8>)]) -> Res {
    let (chars, end) = styled(coloured)?;
    check(end.is_empty(), || "the output ends inside a colour".into())?;
    let mut at = 0;
    for (k, l) in lines {
        let body = &chars[at..at + l.len()];
        at += l.len();
        let (span, want): (usize, &[u8]) = match k {
            Kd::Name => (l.len() - 1, b"1"),
            Kd::Del => (l.len() - 1, b"31"),
            Kd::Ins => (l.len() - 1, b"32"),
            Kd::Ctx => (l.len() - 1, b""),
            Kd::Mark => (0, b""),
            Kd::Header => {
                let e = l.windows(3).position(|w| w == b" @@").map_or(l.len() - 1, |i| i + 3);
                (e, b"36")
            }
        };
        for (c, style) in &body[..span] {
            check(style == want, || {
                format!(
                    "in the {k:?} line {} the character {:?} has style {:?}, not {:?}",
                    show(l),
                    *c as char,
                    String::from_utf8_lossy(style),
                    String::from_utf8_lossy(want)
                )
            })?;
        }
    }
    Ok(())
}

fn c18_check(m: &RPatch, write: &dyn Fn(&PatchFormatter) -> Result<Vec<u8>, String>, default: &[u8], reread: &dyn Fn(&[u8]) -> Result<RPatch, String>) -> Res {
    let full = write(&formatter(2))?;
    let lines = c18_lines(&full, m)?;
    // what the settings are documented to change
    let expect = |msg: bool, blank: bool| -> Vec<(Kd, Vec<u8>)> {
        lines
            .iter()
            .filter(|(k, _)| msg || *k != Kd::Mark)
            .map(|(k, l)| if blank && *k == Kd::Ctx && l == b" \n" { (*k, b"\n".to_vec()) } else { (*k, l.clone()) })
            .collect()
    };
    // an empty last line without newline is not a blank line
    let raw_blank = m.hunks.iter().flat_map(|h| &h.lines).any(|l| l.0 == b' ' && l.1.is_empty());
    for i in 0..16u8 {
        let (color, msg, blank) = (i & 1 != 0, i & 2 != 0, i & 4 != 0);
        let want_lines = expect(msg, blank && !raw_blank);
        if raw_blank && blank {
            continue;
        }
        let want: Vec<u8> = want_lines.iter().flat_map(|l| l.1.clone()).collect();
        let got = write(&formatter(i))?;
        let what = format!("colour {color}, newline message {msg}, blank suppression {blank}");
        if color {
            same(&format!("{what}: without its colours the output"), &strip_ansi(&got), &want)?;
            c18_colours(&got, &want_lines).map_err(|e| format!("{what}: {e}"))?;
        } else {
            same(&what, &got, &want)?;
        }
        if i == 6 {
            same("the default output", default, &got)?;
        }
        if !color {
            let back = reread(&got).map_err(|e| format!("{what}: does not parse: {e}"))?;
            let mut w = m.clone();
            if !msg {
                for l in w.hunks.iter_mut().flat_map(|h| &mut h.lines) {
                    if !l.1.ends_with(b"\n") {
                        l.1.push(b'\n');
                    }
                }
            }
            check(back == w, || format!("{what}: parses as\n  {back:?}\n  expected\n  {w:?}"))?;
        }
    }
    Ok(())
}

fn c18_bytes(p: &Patch<'_, [u8]>) -> Res {
    c18_check(&observe_b(p), &|f| write_b(f, p), &p.to_bytes(), &|t| Patch::from_bytes(t).map(|p| observe_b(&p)).map_err(|e| e.to_string()))
}

fn c18_str(p: &Patch<'_, str>) -> Res {
    c18_check(
        &observe_s(p),
        &|f| Ok(f.fmt_patch(p).to_string().into_bytes()),
        p.to_string().as_bytes(),
        &|t| Patch::from_str(st(t).ok_or("not UTF-8")?).map(|p| observe_s(&p)).map_err(|e| e.to_string()),
    )
}

fn two_kinds(p: &RPatch) -> bool {
    p.hunks.iter().any(|h| b" -+".iter().filter(|t| h.lines.iter().any(|l| l.0 == **t)).count() > 1)
}

fn c18_created(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::pair(s);
    let n = gen::context_len(s);
    let clean = |n: String| n.replace('\x1b', "e");
    let (na, nb) = (clean(gen::filename(s)), clean(gen::filename(s)));
    let no_esc = |v: Vec<u8>| -> Vec<u8> { v.into_iter().map(|b| if b == 0x1b { b'e' } else { b }).collect() };
    let (a, b) = (no_esc(p.a), no_esc(p.b));
    input_pair(cx, &a, &b, n);
    cx.input("names", format!("{na}|{nb}").as_bytes());
    let mut o = opts(n);
    o.set_original_filename(na).set_modified_filename(nb);
    let q = o.create_patch_bytes(&a, &b);
    let m = observe_b(&q);
    cx.mark(two_kinds(&m));
    cx.class_if(m.hunks.iter().flat_map(|h| &h.lines).any(|l| !l.1.ends_with(b"\n")), "with a line lacking its newline");
    cx.class_if(m.hunks.iter().flat_map(|h| &h.lines).any(|l| l.0 == b' ' && l.1 == b"\n"), "with a blank context line");
    c18_bytes(&q)?;
    if let (Some(a), Some(b)) = (st(&a), st(&b)) {
        c18_str(&o.create_patch(a, b)).map_err(|e| format!("str: {e}"))?;
    }
    Ok(())
}

fn c18_parsed(s: &mut Src, cx: &mut Cx) -> Res {
    let utf8 = gen::utf8(s);
    let m = model_odd(s, utf8);
    let t: Vec<u8> = write_any(s, &m, utf8).into_iter().map(|b| if b == 0x1b { b'e' } else { b }).collect();
    cx.input("text", &t);
    let Ok(p) = Patch::from_bytes(&t) else {
        cx.class("rejected");
        return Ok(());
    };
    let m = observe_b(&p);
    cx.mark(two_kinds(&m));
    cx.class_if(m.hunks.iter().any(|h| h.heading.is_some()), "with section heading");
    c18_bytes(&p)?;
    if let Some(Ok(p)) = st(&t).map(Patch::from_str) {
        c18_str(&p).map_err(|e| format!("str: {e}"))?;
    }
    Ok(())
}

fn c18_small_n() -> u64 {
    pairs_quick() / 4
}
fn c18_small(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = small_pair(i);
    c18_pair(a, b, n, cx)
}

fn c18_sizes(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = sized_pair(i);
    if a.len() + b.len() > 60_000 && i % 16 != 0 {
        cx.class("left out as too large");
        return Ok(());
    }
    let no_esc = |v: Vec<u8>| -> Vec<u8> { v.into_iter().map(|b| if b == 0x1b { b'e' } else { b }).collect() };
    c18_pair(&no_esc(a), &no_esc(b), n, cx)
}

fn c18_pair(a: &[u8], b: &[u8], n: usize, cx: &mut Cx) -> Res {
    input_pair(cx, a, b, n);
    let q = opts(n).create_patch_bytes(a, b);
    cx.mark(two_kinds(&observe_b(&q)));
    c18_bytes(&q)?;
    if let (Some(a), Some(b)) = (st(a), st(b)) {
        c18_str(&opts(n).create_patch(a, b)).map_err(|e| format!("str: {e}"))?;
    }
    Ok(())
}

fn c18_parsed_sizes(i: u64, cx: &mut Cx) -> Res {
    let t: Vec<u8> = write_plain(&sized_model(i)).into_iter().map(|b| if b == 0x1b { b'e' } else { b }).collect();
    cx.input("text", &t);
    let p = Patch::from_bytes(&t).map_err(|e| e.to_string())?;
    cx.mark(two_kinds(&observe_b(&p)));
    c18_bytes(&p)?;
    if let Some(Ok(p)) = st(&t).map(Patch::from_str) {
        c18_str(&p).map_err(|e| format!("str: {e}"))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

/// A writer with room for some bytes, which takes at most `step` at a time and then fails.
struct Full {
    left: usize,
    step: usize,
    how: usize,
    got: Vec<u8>,
    failed: bool,
}

impl io::Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.step).min(self.left);
        if n == 0 && !b.is_empty() {
            self.failed = true;
            return match KINDS.get(self.how) {
                Some(k) => Err(io::Error::new(*k, "full")),
                None => Ok(0),
            };
        }
        self.left -= n;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn c19_every(write: &dyn Fn(&mut dyn io::Write) -> io::Result<()>, rot: usize) -> Res {
    let mut want = Vec::new();
    write(&mut want).map_err(|e| e.to_string())?;
    // every place in a short output, and the places around its ends, its middle and round numbers in a long one
    let len = want.len();
    let all: Vec<usize> = if len <= 400 {
        (0..=len).collect()
    } else {
        let mut v: Vec<usize> = (0..20).chain(len - 60..=len).collect();
        v.extend([len / 2, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537]);
        v.retain(|x| *x <= len);
        v
    };
    for (k, left) in all.into_iter().enumerate() {
        let step = [usize::MAX, 1, 7, 1000][(k + rot) % 4];
        let how = (k / 4 + rot) % (KINDS.len() + 1);
        let mut w = Full { left, step, how, got: vec![], failed: false };
        let r = write(&mut w);
        let what = || format!("a writer with room for {left} of {len} bytes, {step} at a time");
        match &r {
            Ok(()) => {
                check(!w.failed, || format!("{}: failed, but success is reported", what()))?;
                same("what the writer received", &w.got, &want)?;
            }
            Err(e) => {
                check(w.failed, || format!("{}: never failed, but {e:?} is reported", what()))?;
                let kind = KINDS.get(how).copied().unwrap_or(io::ErrorKind::WriteZero);
                check(e.kind() == kind, || format!("{}: failed with {kind:?}, but {:?} is reported", what(), e.kind()))?;
                check(how >= KINDS.len() || e.to_string() == "full", || format!("{}: the error is {e}", what()))?;
                check(want.starts_with(&w.got), || format!("{}: what it accepted is not a prefix of the output", what()))?;
            }
        }
    }
    Ok(())
}

fn c19_pair(a: &[u8], b: &[u8], n: usize, i: u64, cx: &mut Cx) -> Res {
    input_pair(cx, a, b, n);
    let rot = mix(&[i]) as usize >> 8;
    let f = formatter((rot % 16) as u8);
    cx.mark(a != b);
    if let (true, Some(a), Some(b)) = (rot / 16 % 2 == 0, st(a), st(b)) {
        let p = opts(n).create_patch(a, b);
        return c19_every(&|w| f.write_patch_into(&p, w), rot / 32);
    }
    let p = opts(n).create_patch_bytes(a, b);
    c19_every(&|w| f.write_patch_into(&p, w), rot / 32)
}

fn c19_small(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = small_pair(i);
    c19_pair(a, b, n, i, cx)
}

fn c19_sizes(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = sized_pair(i);
    c19_pair(&a, &b, n, i, cx)
}

fn c19_parsed_sizes(i: u64, cx: &mut Cx) -> Res {
    let t = write_plain(&sized_model(i));
    cx.input("text", &t);
    cx.mark(true);
    let rot = mix(&[i]) as usize >> 8;
    let f = formatter((rot % 16) as u8);
    let p = Patch::from_bytes(&t).map_err(|e| e.to_string())?;
    c19_every(&|w| f.write_patch_into(&p, w), rot / 32)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Take(usize),
    Interrupted,
    Fail(u8),
    Zero,
}

struct Scripted {
    script: Vec<Step>,
    at: usize,
    got: Vec<u8>,
    failed: Option<(io::ErrorKind, String)>,
    after_failure: usize,
    short: bool,
    vectored: bool,
}

const KINDS: [io::ErrorKind; 14] = [
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WriteZero,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::NotFound,
    io::ErrorKind::StorageFull,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::Other,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::PermissionDenied,
];

impl io::Write for Scripted {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.failed.is_some() {
            self.after_failure += 1;
        }
        let step = self.script.get(self.at).copied().unwrap_or(Step::Take(usize::MAX));
        self.at += 1;
        match step {
            Step::Take(n) => {
                let n = n.max(1).min(b.len());
                self.short |= n < b.len();
                self.got.extend_from_slice(&b[..n]);
                Ok(n)
            }
            Step::Interrupted => {
                self.short = true;
                Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"))
            }
            Step::Fail(k) => {
                let kind = KINDS[k as usize % KINDS.len()];
                let msg = format!("failure {k} at {}", self.at);
                self.failed.get_or_insert((kind, msg.clone()));
                Err(io::Error::new(kind, msg))
            }
            Step::Zero => {
                self.failed.get_or_insert((io::ErrorKind::WriteZero, String::new()));
                Ok(0)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        self.vectored = true;
        match bufs.iter().find(|b| !b.is_empty()) {
            Some(b) => self.write(b),
            None => Ok(0),
        }
    }
}

fn script(s: &mut Src, len: usize) -> Vec<Step> {
    let mut v = Vec::new();
    let style = s.us(4);
    let avg = 1 + s.n(40);
    while s.more(avg) {
        v.push(match (style, s.us(8)) {
            (0, _) => Step::Take(1),
            (_, 0..=3) => Step::Take(1 + s.us(6)),
            (_, 4) => Step::Interrupted,
            (_, 5) => Step::Take(1 + s.us(len.max(1))),
            (1, _) => Step::Interrupted,
            (_, _) => Step::Take(usize::MAX),
        });
    }
    if s.chance(2, 3) {
        // one failure somewhere, anywhere in the output
        let at = if s.chance(1, 2) { s.us(v.len() + 1) } else { v.len() };
        for _ in 0..s.us(10) {
            v.push(Step::Take(1 + s.us(3)));
        }
        let at = at.min(v.len());
        let f = if s.chance(1, 4) { Step::Zero } else { Step::Fail(s.n(KINDS.len() as u64) as u8) };
        v.insert(at, f);
        if s.chance(1, 4) {
            v.push(Step::Interrupted);
        }
    }
    v
}

fn c19_judge(r: io::Result<()>, w: &Scripted, want: &[u8]) -> Res {
    match (&r, &w.failed) {
        (Ok(()), None) => same("what the writer received", &w.got, want),
        (Ok(()), Some((k, m))) => Err(format!(
            "the writer failed ({k:?} {m}) but success is reported; it received {}\n  want: {}",
            clip(&w.got),
            clip(want)
        )),
        (Err(e), None) => Err(format!("the writer never failed but an error is reported: {e:?}")),
        (Err(e), Some((k, m))) => {
            check(e.kind() == *k, || format!("the writer failed with {k:?} but {:?} is reported", e.kind()))?;
            check(m.is_empty() || e.to_string() == *m, || format!("the writer failed with {m:?} but {e} is reported"))?;
            check(w.after_failure == 0, || "writing went on after the writer failed".into())?;
            check(want.starts_with(&w.got), || format!("what the writer accepted is not a prefix\n  got:  {}\n  want: {}", clip(&w.got), clip(want)))
        }
    }
}

fn c19_patch(s: &mut Src) -> (Vec<u8>, Vec<u8>, usize, Option<Vec<u8>>, (String, String)) {
    let p = gen::pair_sized(s, 1);
    let n = gen::context_len(s);
    let names = (gen::filename(s), gen::filename(s));
    let text = if s.chance(1, 3) {
        let utf8 = gen::utf8(s);
        let m = model(s, utf8, true);
        Some(write_any(s, &m, utf8))
    } else {
        None
    };
    (p.a, p.b, n, text, names)
}

fn c19_writers(s: &mut Src, cx: &mut Cx) -> Res {
    let (a, b, n, text, names) = c19_patch(s);
    let fi = s.us(16) as u8;
    let f = formatter(fi);
    let mut o = opts(n);
    o.set_original_filename(names.0).set_modified_filename(names.1);
    let as_str = s.chance(1, 2);
    let run = |write: &dyn Fn(&mut dyn io::Write) -> io::Result<()>, cx: &mut Cx, s: &mut Src| -> Res {
        let mut want = Vec::new();
        write(&mut want).map_err(|e| e.to_string())?;
        let sc = script(s, want.len());
        cx.input("output", &want);
        cx.input("script", format!("{sc:?}").as_bytes());
        let mut w = Scripted { script: sc, at: 0, got: vec![], failed: None, after_failure: 0, short: false, vectored: false };
        let r = write(&mut w);
        cx.class(match (&w.failed, w.short) {
            (Some((io::ErrorKind::WriteZero, _)), _) => "refuses more",
            (Some(_), _) => "fails",
            (None, true) => "short or interrupted only",
            (None, false) => "accepts everything",
        });
        cx.mark(w.failed.is_some() || w.short);
        c19_judge(r, &w, &want)
    };
    if let Some(t) = &text {
        if let (true, Some(Ok(p))) = (as_str, st(t).map(Patch::from_str)) {
            return run(&|w| f.write_patch_into(&p, w), cx, s);
        }
        if let Ok(p) = Patch::from_bytes(t) {
            return run(&|w| f.write_patch_into(&p, w), cx, s);
        }
        return Ok(());
    }
    if let (true, Some(x), Some(y)) = (as_str, st(&a), st(&b)) {
        let p = o.create_patch(x, y);
        return run(&|w| f.write_patch_into(&p, w), cx, s);
    }
    let p = o.create_patch_bytes(&a, &b);
    run(&|w| f.write_patch_into(&p, w), cx, s)
}

/// A formatting sink with room for some bytes only.
struct Room {
    left: usize,
    got: String,
    failed: bool,
    after: usize,
}

impl std::fmt::Write for Room {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        if self.failed {
            self.after += 1;
        }
        if t.len() > self.left {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.left -= t.len();
        self.got.push_str(t);
        Ok(())
    }
}

fn c19_sinks(s: &mut Src, cx: &mut Cx) -> Res {
    use std::fmt::Write;
    let (a, b, n, text, names) = c19_patch(s);
    let f = formatter(s.us(16) as u8);
    let mut o = opts(n);
    o.set_original_filename(names.0).set_modified_filename(names.1);
    let parsed = text.as_deref().and_then(st).map(Patch::from_str);
    let p = match (&parsed, st(&a), st(&b)) {
        (Some(Ok(p)), ..) => p.clone(),
        (_, Some(a), Some(b)) => o.create_patch(a, b),
        _ => return Ok(()),
    };
    let want = f.fmt_patch(&p).to_string();
    let left = s.us(want.len() + 3);
    cx.input("output", want.as_bytes());
    cx.input_n("room", left as u64);
    let mut w = Room { left, got: String::new(), failed: false, after: 0 };
    let r = write!(w, "{}", f.fmt_patch(&p));
    cx.mark(w.failed);
    match (r, w.failed) {
        (Ok(()), false) => same("what the sink received", w.got.as_bytes(), want.as_bytes()),
        (Err(_), true) => {
            check(w.after == 0, || "formatting went on after the sink failed".into())?;
            check(want.starts_with(&w.got), || "what the sink accepted is not a prefix".into())
        }
        (Ok(()), true) => Err("the sink failed but success is reported".into()),
        (Err(_), false) => Err("the sink never failed but an error is reported".into()),
    }
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug)]
enum Op {
    Create { a: usize, b: usize, ctx: usize },
    CreateStr { a: usize, b: usize, ctx: usize },
    Apply { a: usize, b: usize, base: usize, ctx: usize, back: bool },
    Parse { t: usize },
    Format { t: usize, f: u8 },
    Merge { o: usize, a: usize, b: usize, len: usize, diff3: bool },
    ApplyStr { a: usize, b: usize, base: usize, ctx: usize, back: bool },
    ParseStr { t: usize },
    FormatStr { t: usize, f: u8 },
    MergeStr { o: usize, a: usize, b: usize, len: usize, diff3: bool },
    Reverse { t: usize },
    Place { t: usize, base: usize, back: bool },
    PlaceStr { t: usize, base: usize, back: bool },
    /// The short functions and default objects.
    Short { o: usize, a: usize, b: usize },
    ShortStr { o: usize, a: usize, b: usize },
}

struct World {
    texts: Vec<Vec<u8>>,
    patches: Vec<Vec<u8>>,
}

/// Options objects the operations may share.
struct Shared {
    diff: std::collections::HashMap<usize, DiffOptions>,
    merge: std::collections::HashMap<(usize, bool), MergeOptions>,
    fmt: Vec<PatchFormatter>,
}

fn merge_opts(len: usize, diff3: bool) -> MergeOptions {
    let mut m = MergeOptions::new();
    m.set_conflict_marker_length(len);
    m.set_conflict_style(if diff3 { ConflictStyle::Diff3 } else { ConflictStyle::Merge });
    m
}

fn run_op(w: &World, op: &Op, sh: Option<&Shared>) -> Vec<u8> {
    let fresh;
    let dopts = |ctx: usize, slot: &mut Option<DiffOptions>| {
        *slot = Some(opts(ctx));
    };
    match op {
        Op::Create { a, b, ctx } => {
            let mut slot = None;
            dopts(*ctx, &mut slot);
            let o = sh.and_then(|s| s.diff.get(ctx)).unwrap_or_else(|| slot.as_ref().unwrap());
            let p = o.create_patch_bytes(&w.texts[*a], &w.texts[*b]);
            let mut v = p.to_bytes();
            v.extend(format!("{:?}", observe_b(&p)).into_bytes());
            v
        }
        Op::CreateStr { a, b, ctx } => {
            let mut slot = None;
            dopts(*ctx, &mut slot);
            let o = sh.and_then(|s| s.diff.get(ctx)).unwrap_or_else(|| slot.as_ref().unwrap());
            match (st(&w.texts[*a]), st(&w.texts[*b])) {
                (Some(a), Some(b)) => {
                    let p = o.create_patch(a, b);
                    let mut v = p.to_string().into_bytes();
                    v.extend(format!("{:?} {p:?}", observe_s(&p)).into_bytes());
                    v
                }
                _ => vec![],
            }
        }
        Op::Apply { a, b, base, ctx, back } => {
            let p = opts(*ctx).create_patch_bytes(&w.texts[*a], &w.texts[*b]);
            let r = if *back { apply_bytes(&w.texts[*base], &p.reverse()) } else { apply_bytes(&w.texts[*base], &p) };
            match r {
                Ok(mut v) => {
                    v.push(b'+');
                    v
                }
                Err(e) => e.to_string().into_bytes(),
            }
        }
        Op::Parse { t } => match Patch::from_bytes(&w.patches[*t]) {
            Ok(p) => format!("{:?}", observe_b(&p)).into_bytes(),
            Err(e) => e.to_string().into_bytes(),
        },
        Op::Format { t, f } => match Patch::from_bytes(&w.patches[*t]) {
            Ok(p) => {
                fresh = formatter(*f);
                let f = sh.map_or(&fresh, |s| &s.fmt[*f as usize]);
                write_b(f, &p).unwrap_or_default()
            }
            Err(e) => e.to_string().into_bytes(),
        },
        Op::Short { o, a, b } => {
            let [o, a, b] = [o, a, b].map(|t| &w.texts[*t][..]);
            let p = create_patch_bytes(o, a);
            let mut v = p.to_bytes();
            v.extend(DiffOptions::new().create_patch_bytes(o, b).to_bytes());
            v.extend(DiffOptions::default().create_patch_bytes(a, b).to_bytes());
            v.extend(write_b(&PatchFormatter::default(), &p).unwrap_or_default());
            for r in [merge_bytes(o, a, b), MergeOptions::new().merge_bytes(a, o, b), MergeOptions::default().merge_bytes(b, o, a)] {
                v.push(if r.is_ok() { b'+' } else { b'-' });
                v.extend(r.unwrap_or_else(|e| e));
            }
            v
        }
        Op::ShortStr { o, a, b } => match (st(&w.texts[*o]), st(&w.texts[*a]), st(&w.texts[*b])) {
            (Some(o), Some(a), Some(b)) => {
                let p = create_patch(o, a);
                let mut v = p.to_string();
                v += &DiffOptions::new().create_patch(o, b).to_string();
                v += &DiffOptions::default().create_patch(a, b).to_string();
                v += &PatchFormatter::new().fmt_patch(&p).to_string();
                for r in [merge(o, a, b), MergeOptions::new().merge(a, o, b), MergeOptions::default().merge(b, o, a)] {
                    v += if r.is_ok() { "+" } else { "-" };
                    v += &r.unwrap_or_else(|e| e);
                }
                v.into_bytes()
            }
            _ => vec![],
        },
        Op::Merge { o, a, b, len, diff3 } => {
            let own = merge_opts(*len, *diff3);
            let m = sh.and_then(|s| s.merge.get(&(*len, *diff3))).unwrap_or(&own);
            match m.merge_bytes(&w.texts[*o], &w.texts[*a], &w.texts[*b]) {
                Ok(mut v) => {
                    v.push(b'+');
                    v
                }
                Err(v) => v,
            }
        }
        Op::ApplyStr { a, b, base, ctx, back } => match (st(&w.texts[*a]), st(&w.texts[*b]), st(&w.texts[*base])) {
            (Some(a), Some(b), Some(base)) => {
                let p = opts(*ctx).create_patch(a, b);
                let r = if *back { apply(base, &p.reverse()) } else { apply(base, &p) };
                r.map_or_else(|e| e.to_string(), |v| v + "+").into_bytes()
            }
            _ => vec![],
        },
        Op::ParseStr { t } => match st(&w.patches[*t]).map(Patch::from_str) {
            Some(Ok(p)) => format!("{:?} {p:?}", observe_s(&p)).into_bytes(),
            Some(Err(e)) => e.to_string().into_bytes(),
            None => vec![],
        },
        Op::FormatStr { t, f } => match st(&w.patches[*t]).map(Patch::from_str) {
            Some(Ok(p)) => {
                fresh = formatter(*f);
                let f = sh.map_or(&fresh, |s| &s.fmt[*f as usize]);
                format!("{}{}", f.fmt_patch(&p), p).into_bytes()
            }
            Some(Err(e)) => e.to_string().into_bytes(),
            None => vec![],
        },
        Op::MergeStr { o, a, b, len, diff3 } => {
            let own = merge_opts(*len, *diff3);
            let m = sh.and_then(|s| s.merge.get(&(*len, *diff3))).unwrap_or(&own);
            match (st(&w.texts[*o]), st(&w.texts[*a]), st(&w.texts[*b])) {
                (Some(o), Some(a), Some(b)) => m.merge(o, a, b).map_or_else(|v| v, |v| v + "+").into_bytes(),
                _ => vec![],
            }
        }
        Op::Reverse { t } => match Patch::from_bytes(&w.patches[*t]) {
            Ok(p) => p.reverse().to_bytes(),
            Err(e) => e.to_string().into_bytes(),
        },
        Op::Place { t, base, back } => match Patch::from_bytes(&w.patches[*t]) {
            Ok(p) => match apply_bytes(&w.texts[*base], &if *back { p.reverse() } else { p.clone() }) {
                Ok(mut v) => {
                    v.push(b'+');
                    v
                }
                Err(e) => e.to_string().into_bytes(),
            },
            Err(e) => e.to_string().into_bytes(),
        },
        Op::PlaceStr { t, base, back } => match (st(&w.patches[*t]).map(Patch::from_str), st(&w.texts[*base])) {
            (Some(Ok(p)), Some(base)) => {
                let r = if *back { apply(base, &p.reverse()) } else { apply(base, &p) };
                r.map_or_else(|e| e.to_string(), |v| v + "+").into_bytes()
            }
            (Some(Err(e)), _) => e.to_string().into_bytes(),
            _ => vec![],
        },
    }
}

fn c22_world(s: &mut Src, cx: &mut Cx) -> (World, Vec<Op>, Shared) {
    // texts with several conflicts between them are among them
    let t = if s.chance(1, 4) {
        let n = 1 + s.us(9);
        let k = s.us(3);
        let [o, a, b] = gen::TRIPLE_SHAPES[k].1(n);
        gen::Triple { o: gen::join(&o, true), a: gen::join(&a, true), b: gen::join(&b, gen::final_nl(s)), utf8: true }
    } else {
        gen::triple(s)
    };
    let p = gen::pair(s);
    let mut texts = vec![t.o, t.a, t.b, p.a, p.b, vec![]];
    let mut patches = vec![opts(s.us(4)).create_patch_bytes(&texts[0], &texts[1]).to_bytes(), mutated(s).0];
    let utf8 = gen::utf8(s);
    let m = model(s, utf8, true);
    patches.push(write_any(s, &m, utf8));
    // a patch that fits here and there, for two of the texts
    for t in 5..7 {
        let (base, m) = free(s);
        let m = write_plain(&m);
        if t < texts.len() {
            if s.chance(1, 2) {
                texts[t] = base;
            }
        } else {
            texts.push(base);
        }
        patches.push(m);
    }
    let mut ops = Vec::new();
    let n = 2 + s.us(7);
    let any = |s: &mut Src| s.us(7);
    // the three texts that belong together, or any
    let three = |s: &mut Src| {
        if s.chance(2, 3) {
            (0, 1, 2)
        } else {
            (any(s), any(s), any(s))
        }
    };
    for _ in 0..n {
        ops.push(match s.us(15) {
            13 => {
                let (o, a, b) = three(s);
                Op::Short { o, a, b }
            }
            14 => {
                let (o, a, b) = three(s);
                Op::ShortStr { o, a, b }
            }
            0 => Op::Create { a: any(s), b: any(s), ctx: s.us(5) },
            1 => Op::CreateStr { a: any(s), b: any(s), ctx: s.us(5) },
            k @ (2 | 3) => {
                let (a, b) = (any(s), any(s));
                let back = s.chance(1, 2);
                let base = if s.chance(2, 3) { if back { b } else { a } } else { any(s) };
                let ctx = s.us(5);
                if k == 2 {
                    Op::Apply { a, b, base, ctx, back }
                } else {
                    Op::ApplyStr { a, b, base, ctx, back }
                }
            }
            k @ (4 | 5) => {
                let (t, back) = (s.us(5), s.chance(1, 4));
                let base = if t > 2 && s.chance(2, 3) { t + 2 } else { any(s) };
                if k == 4 {
                    Op::Place { t, base, back }
                } else {
                    Op::PlaceStr { t, base, back }
                }
            }
            6 => Op::Parse { t: s.us(5) },
            7 => Op::ParseStr { t: s.us(5) },
            8 => Op::Format { t: s.us(5), f: s.us(16) as u8 },
            9 => Op::FormatStr { t: s.us(5), f: s.us(16) as u8 },
            10 => Op::Reverse { t: s.us(5) },
            11 => {
                let (o, a, b) = three(s);
                Op::Merge { o, a, b, len: s.us(9), diff3: s.chance(1, 2) }
            }
            _ => {
                let (o, a, b) = three(s);
                Op::MergeStr { o, a, b, len: s.us(9), diff3: s.chance(1, 2) }
            }
        });
    }
    let mut sh = Shared { diff: Default::default(), merge: Default::default(), fmt: (0..16).map(formatter).collect() };
    for op in &ops {
        match op {
            Op::Create { ctx, .. } | Op::CreateStr { ctx, .. } => {
                sh.diff.entry(*ctx).or_insert_with(|| opts(*ctx));
            }
            Op::Merge { len, diff3, .. } | Op::MergeStr { len, diff3, .. } => {
                sh.merge.entry((*len, *diff3)).or_insert_with(|| merge_opts(*len, *diff3));
            }
            _ => {}
        }
    }
    for (i, t) in texts.iter().enumerate() {
        cx.input(&format!("text {i}"), t);
    }
    for (i, t) in patches.iter().enumerate() {
        cx.input(&format!("patch text {i}"), t);
    }
    cx.note("operations", || format!("{ops:?}"));
    let kinds: std::collections::HashSet<_> = ops.iter().map(std::mem::discriminant).collect();
    cx.mark(kinds.len() >= 3);
    (World { texts, patches }, ops, sh)
}

/// What each operation gives on a thread that has done nothing else.
fn on_fresh_threads(w: &World, ops: &[Op]) -> Result<Vec<Vec<u8>>, String> {
    std::thread::scope(|sc| {
        let hs: Vec<_> = ops.iter().map(|o| sc.spawn(move || guard(|| Ok(run_op(w, o, None))))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread ended".into()))).collect()
    })
}

fn c22_histories(s: &mut Src, cx: &mut Cx) -> Res {
    let (w, ops, sh) = c22_world(s, cx);
    let first = on_fresh_threads(&w, &ops)?;
    let mut order = String::new();
    let steps = if s.chance(1, 60) { 400 } else { 2 + s.us(3 * ops.len()) };
    for k in 0..steps {
        let (i, shared) = if k < 40 { (s.us(ops.len()), s.chance(1, 2)) } else { (k % ops.len(), k % 2 == 0) };
        if k < 60 {
            order.push_str(&format!("{i}{} ", if shared { "s" } else { "" }));
        }
        let again = run_op(&w, &ops[i], if shared { Some(&sh) } else { None });
        same(&format!("operation {i} again, as the {}-th after {order}", k + 1), &again, &first[i])?;
    }
    cx.class_if(steps == 400, "400 operations");
    cx.note("order", || order.clone());
    Ok(())
}

fn c22_threads(s: &mut Src, cx: &mut Cx) -> Res {
    let (w, ops, sh) = c22_world(s, cx);
    let first = on_fresh_threads(&w, &ops)?;
    let r: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4usize)
            .map(|t| {
                let (w, ops, sh, first) = (&w, &ops, &sh, &first);
                sc.spawn(move || {
                    guard(|| {
                        for k in 0..3 * ops.len() {
                            let i = (k * (t + 1) + t) % ops.len();
                            let again = run_op(w, &ops[i], Some(sh));
                            same(&format!("operation {i} on thread {t}"), &again, &first[i])?;
                        }
                        Ok(())
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread ended".into()))).collect()
    });
    r.into_iter().collect()
}

fn digest(v: &[u8]) -> u64 {
    v.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01B3))
}

/// For a process started by `c22_process`: the results of the operations the choices describe, the
/// last one first, as digests.
pub fn digests(choices: Vec<u64>) -> Vec<String> {
    let (w, ops, _) = c22_world(&mut Src::replay(choices), &mut Cx::default());
    let mut d: Vec<String> = ops
        .iter()
        .rev()
        .map(|o| guard(|| Ok(run_op(&w, o, None))).map_or_else(|e| e, |v| digest(&v).to_string()))
        .collect();
    d.reverse();
    d
}

/// Environment variables that programs of this kind look at, and words of the source that may be some.
const ENV: &[&str] = &[
    "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "COLORTERM", "TERM", "LS_COLORS", "COLUMNS", "LINES", "LANG", "LANGUAGE", "LC_ALL",
    "LC_CTYPE", "LC_COLLATE", "TZ", "HOME", "USER", "PAGER", "DIFF_OPTIONS", "GIT_DIFF_OPTS", "GIT_EXTERNAL_DIFF", "GIT_CONFIG_COUNT",
    "POSIXLY_CORRECT", "PATCH_GET", "QUOTING_STYLE", "SIMPLE_BACKUP_SUFFIX", "TABSIZE", "CI", "DEBUG", "RUST_LOG", "RUST_BACKTRACE",
    "DIFFY_CONTEXT", "DIFFY_COLOR",
];
const ENV_VALUES: &[&str] = &["", "0", "1", "2", "20", "true", "false", "always", "never", "dumb", "C", "tr_TR.UTF-8", "xterm-256color", "-u1", "/tmp"];

fn environment(s: &mut Src) -> Vec<(String, &'static str)> {
    let named = crate::dict::words().iter().filter_map(|w| {
        let w = std::str::from_utf8(w).ok()?;
        let fits = w.len() > 1 && w.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'_');
        fits.then(|| w.to_string())
    });
    let names: Vec<String> = ENV.iter().map(|n| n.to_string()).chain(named).collect();
    match s.us(4) {
        0 => vec![],
        // all of them
        1 => {
            let v = *s.pick(ENV_VALUES);
            names.into_iter().map(|n| (n, v)).collect()
        }
        2 => names.into_iter().map(|n| (n, *s.pick(ENV_VALUES))).collect(),
        _ => vec![(s.pick(&names).clone(), *s.pick(ENV_VALUES))],
    }
}

/// A process that has done nothing else, in any environment, gives the results this one gives,
/// which has made thousands of calls.
fn c22_process(s: &mut Src, cx: &mut Cx) -> Res {
    let (w, ops, sh) = c22_world(s, cx);
    let choices = s.rec.iter().map(u64::to_string).collect::<Vec<_>>().join(",");
    let env = environment(s);
    let clear = s.chance(1, 4);
    let dir = *s.pick(&["/", "/tmp", "."]);
    cx.class(if env.is_empty() { "same environment" } else { "environment variables set" });
    let run = || -> io::Result<std::process::Output> {
        let mut c = std::process::Command::new(std::env::current_exe()?);
        if clear {
            c.env_clear();
        }
        let mut c = c
            .envs(env.iter().map(|(k, v)| (k, v)))
            .current_dir(dir)
            .arg("digests")
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .spawn()?;
        let sent = io::Write::write_all(&mut c.stdin.take().expect("piped"), choices.as_bytes());
        let out = c.wait_with_output();
        sent.and(out)
    };
    let out = match run() {
        Ok(o) if o.status.success() => o,
        // no process could be had, or it was ended: that says nothing about the library
        _ => {
            cx.class("no process");
            cx.mark(false);
            return Ok(());
        }
    };
    let theirs: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(str::to_string).collect();
    check(theirs.len() == ops.len(), || format!("harness: {} results for {} operations", theirs.len(), ops.len()))?;
    for (i, o) in ops.iter().enumerate() {
        let mine = guard(|| Ok(run_op(&w, o, if i % 2 == 0 { Some(&sh) } else { None })));
        let shown = mine.as_ref().map_or_else(Clone::clone, |v| digest(v).to_string());
        check(shown == theirs[i], || {
            format!("operation {i} ({o:?}) gives another result in a process that has done nothing else{}, with {} variables set: {env:?}; here {}", if clear { " and has no other environment" } else { "" }, env.len(), mine.map_or_else(|e| e, |v| clip(&v)))
        })?;
    }
    Ok(())
}

/// Results of operations on three texts.
fn on_three(x: &[u8], y: &[u8], z: &[u8], n: usize) -> Vec<Vec<u8>> {
    let conv = |r: Result<Vec<u8>, Vec<u8>>| match r {
        Ok(v) => [b"ok ", &v[..]].concat(),
        Err(v) => [b"no ", &v[..]].concat(),
    };
    let mut out = Vec::new();
    let p = opts(n).create_patch_bytes(x, y);
    let q = opts(n).create_patch_bytes(y, x);
    out.push(p.to_bytes());
    out.push(q.to_bytes());
    out.push(vec![u8::from(p == q), u8::from(p.reverse() == q), u8::from(q == p)]);
    for t in [x, y, z] {
        out.push(conv(apply_bytes(t, &p).map_err(|e| e.to_string().into_bytes())));
        out.push(Patch::from_bytes(t).map_or_else(|e| e.to_string(), |p| format!("{:?}", observe_b(&p))).into_bytes());
        if let Ok(p) = Patch::from_bytes(t) {
            for b in [x, y, z] {
                out.push(conv(apply_bytes(b, &p).map_err(|e| e.to_string().into_bytes())));
            }
        }
    }
    for (o, a, b) in [(x, y, z), (y, z, x), (z, x, y), (x, y, x), (x, x, z)] {
        out.push(conv(merge_bytes(o, a, b)));
    }
    if let (Some(x), Some(y), Some(z)) = (st(x), st(y), st(z)) {
        let p = opts(n).create_patch(x, y);
        let q = opts(n).create_patch(y, x);
        out.push(p.to_string().into_bytes());
        out.push(q.to_string().into_bytes());
        out.push(vec![u8::from(p == q), u8::from(p.reverse() == q), u8::from(q == p)]);
        for t in [x, y, z] {
            out.push(conv(apply(t, &p).map(String::into_bytes).map_err(|e| e.to_string().into_bytes())));
            if let Ok(p) = Patch::from_str(t) {
                for b in [x, y, z] {
                    out.push(conv(apply(b, &p).map(String::into_bytes).map_err(|e| e.to_string().into_bytes())));
                }
            }
        }
        for (o, a, b) in [(x, y, z), (y, z, x), (z, x, y), (x, y, x), (x, x, z)] {
            out.push(conv(merge(o, a, b).map(String::into_bytes).map_err(String::into_bytes)));
        }
    }
    out
}

/// Arguments that are slices of one buffer, with the same start or end, one inside the other, one
/// after the other or the same: results must be those of texts in memory of their own.
fn c22_shared(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::pair(s);
    let n = s.us(4);
    let mut buf = Vec::new();
    let mut cuts = vec![0];
    let mut put = |t: &[u8], cuts: &mut Vec<usize>| {
        buf.extend_from_slice(t);
        cuts.push(buf.len());
    };
    put(&p.a, &mut cuts);
    match s.us(4) {
        0 => put(&p.b, &mut cuts),
        1 => put(&p.a, &mut cuts),
        // a patch text between its texts
        2 => {
            put(&opts(n).create_patch_bytes(&p.a, &p.b).to_bytes(), &mut cuts);
            put(&p.b, &mut cuts);
        }
        _ => {}
    }
    // any place, mostly starts of lines
    for _ in 0..s.us(4) {
        let i = s.us(buf.len() + 1);
        cuts.push(if s.chance(3, 4) { i + buf[i..].iter().position(|b| *b == b'\n').map_or(0, |k| k + 1) } else { i });
    }
    let mut slices = Vec::new();
    for _ in 0..3 {
        let (i, j) = (*s.pick(&cuts), *s.pick(&cuts));
        slices.push(&buf[i.min(j)..i.max(j)]);
    }
    let (x, y, z) = (slices[0], slices[1], slices[2]);
    cx.input("first text", x);
    cx.input("second text", y);
    cx.input("third text", z);
    cx.class_if(x.as_ptr() == y.as_ptr() && x != y, "two texts with one start");
    cx.class_if(x.as_ptr_range().end == y.as_ptr_range().start, "one text after the other");
    cx.mark(x != y && (y != z || x != z));
    let shared = on_three(x, y, z, n);
    let own = on_three(&x.to_vec(), &y.to_vec(), &z.to_vec(), n);
    for (i, (g, w)) in shared.iter().zip(&own).enumerate() {
        same(&format!("result {i} with slices of one buffer, against texts in memory of their own"), g, w)?;
    }
    Ok(())
}

/// A writer and formatting sink that calls the library itself, fails or panics at some of its calls.
struct Nesting<'a> {
    got: Vec<u8>,
    most: usize,
    every: usize,
    calls: usize,
    stop_at: usize,
    panics: bool,
    run: &'a dyn Fn(usize) -> Res,
    bad: Option<String>,
}

impl Nesting<'_> {
    /// Whether to go on.
    fn call(&mut self) -> bool {
        self.calls += 1;
        assert!(!self.panics || self.calls != self.stop_at, "the writer's own panic");
        if self.calls == self.stop_at {
            return false;
        }
        if self.calls % self.every == 0 && self.calls < 60 && self.bad.is_none() {
            self.bad = (self.run)(self.calls).err();
        }
        true
    }
}
impl io::Write for Nesting<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if !self.call() {
            return Err(io::Error::new(io::ErrorKind::Other, "the writer's own error"));
        }
        let n = b.len().min(self.most);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl std::fmt::Write for Nesting<'_> {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        if !self.call() {
            return Err(std::fmt::Error);
        }
        self.got.extend_from_slice(t.as_bytes());
        Ok(())
    }
}

/// Operations run by a writer in the middle of another operation, and after a writer stopped.
fn c22_nested(s: &mut Src, cx: &mut Cx) -> Res {
    let (w, ops, _) = c22_world(s, cx);
    let first = on_fresh_threads(&w, &ops)?;
    let t = &w.patches[s.us(w.patches.len())];
    let f = formatter(s.us(16) as u8);
    let (every, most) = (1 + s.us(4), 1 + s.us(40));
    let stop_at = if s.chance(1, 2) { 1 + s.us(12) } else { 0 };
    let panics = s.chance(1, 2);
    let again = [0, 1, 2 + s.us(4), 40][s.weighted(&[2, 1, 3, 1])];
    let run = |k: usize| -> Res {
        let i = k % ops.len();
        same(&format!("operation {i}, called by a writer in the middle of another operation"), &run_op(&w, &ops[i], None), &first[i])
    };
    cx.input("written patch", t);
    cx.input_n("operation at every so many calls of the writer", every as u64);
    cx.input_n(if panics { "panic at call" } else { "error at call" }, stop_at as u64);
    cx.input_n("stopped again, times", again as u64);
    let judge = |what: &str, write: &dyn Fn(&mut Nesting) -> Result<(), String>, want: &[u8], cx: &mut Cx| -> Res {
        let mut n = Nesting { got: vec![], most, every, calls: 0, stop_at, panics, run: &run, bad: None };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| write(&mut n)));
        if let Some(m) = n.bad {
            return Err(m);
        }
        let stopped = stop_at > 0 && n.calls >= stop_at;
        match r {
            Ok(Ok(())) => same(what, &n.got, want),
            Ok(Err(e)) if panics || !stopped => Err(e),
            Err(_) if !panics || !stopped => Err(format!("{what}: panic")),
            _ => {
                cx.class(if panics { "the writer panicked" } else { "the writer failed" });
                check(want.starts_with(&n.got), || format!("{what}: what came before the writer stopped is no prefix"))?;
                // and several times more, before anything else succeeds
                for _ in 0..again {
                    let mut m = Nesting { got: vec![], most, every: usize::MAX, calls: 0, stop_at, panics, run: &run, bad: None };
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| write(&mut m)));
                    check(m.got == n.got, || format!("{what}: what came before the writer stopped again"))?;
                }
                for (i, op) in ops.iter().enumerate() {
                    same(&format!("operation {i}, after a writer stopped"), &run_op(&w, op, None), &first[i])?;
                }
                Ok(())
            }
        }
    };
    if let Ok(p) = Patch::from_bytes(t) {
        let want = write_b(&f, &p)?;
        judge("written to a writer that calls the library", &|n| f.write_patch_into(&p, n).map_err(|e| e.to_string()), &want, cx)?;
        same("written again", &write_b(&f, &p)?, &want)?;
    }
    if let Some(Ok(p)) = st(t).map(Patch::from_str) {
        let want = f.fmt_patch(&p).to_string().into_bytes();
        judge(
            "formatted to a sink that calls the library",
            &|n| std::fmt::Write::write_fmt(n, format_args!("{}", f.fmt_patch(&p))).map_err(|e| e.to_string()),
            &want,
            cx,
        )?;
        same("formatted again", f.fmt_patch(&p).to_string().as_bytes(), &want)?;
    }
    Ok(())
}

const REPEATED: u64 = 24;

/// One operation on small texts, over and over: the last of very many results must be the first.
/// Cases run on several threads at once, so that counts per thread and per process both grow.
fn c22_repetition(i: u64, cx: &mut Cx) -> Res {
    let times = if i < REPEATED { 270_000 } else { 2_000_000 };
    let t = |s: &str| s.as_bytes().to_vec();
    let texts = vec![
        t("a\nb\nc\nd\ne\nf\ng\nh\ni\nj\nk\nl\nm\n"),
        t("a\nb\nc\nd\ne\nf\nX\nh\ni\nj\nk\nl\nm\n"),
        t("a\nb\nc\nd\ne\nf\nY\nh\ni\nj\nk\nl\nZ"),
        t("b\na\nb\nc\nd\ne\nf\nX\nh\ni\nj\nk\nl\nm\nb\n"),
    ];
    let patches = vec![
        opts(3).create_patch_bytes(&texts[0], &texts[1]).to_bytes(),
        opts(1).create_patch_bytes(&texts[0], &texts[2]).to_bytes(),
        t("@@ -1 +1 @@\n-a\n+b"),
        t("--- a\n+++ b\n@@ -9 +9,2 @@ head\n b\n+c\n"),
    ];
    let w = World { texts, patches };
    let op = match i % REPEATED {
        0 => Op::Create { a: 0, b: 1, ctx: 3 },
        1 => Op::Create { a: 0, b: 2, ctx: 0 },
        2 => Op::CreateStr { a: 0, b: 1, ctx: 3 },
        3 => Op::CreateStr { a: 1, b: 2, ctx: 1 },
        4 => Op::Short { o: 0, a: 1, b: 2 },
        5 => Op::ShortStr { o: 0, a: 1, b: 2 },
        6 => Op::Apply { a: 0, b: 1, base: 3, ctx: 3, back: true },
        7 => Op::ApplyStr { a: 0, b: 1, base: 0, ctx: 3, back: false },
        8 => Op::Parse { t: 0 },
        9 => Op::Parse { t: 2 },
        10 => Op::ParseStr { t: 1 },
        11 => Op::ParseStr { t: 2 },
        12 => Op::Format { t: 1, f: 7 },
        13 => Op::Format { t: 3, f: 0 },
        14 => Op::FormatStr { t: 3, f: 6 },
        15 => Op::Merge { o: 0, a: 1, b: 3, len: 7, diff3: false },
        16 => Op::Merge { o: 0, a: 1, b: 2, len: 7, diff3: true },
        17 => Op::Merge { o: 1, a: 0, b: 2, len: 9, diff3: false },
        18 => Op::MergeStr { o: 0, a: 1, b: 2, len: 7, diff3: true },
        19 => Op::MergeStr { o: 0, a: 1, b: 3, len: 7, diff3: false },
        20 => Op::Reverse { t: 1 },
        21 => Op::Place { t: 3, base: 3, back: false },
        22 => Op::PlaceStr { t: 3, base: 3, back: false },
        _ => Op::Place { t: 1, base: 3, back: false },
    };
    cx.input("operation", format!("{op:?}, {times} times").as_bytes());
    cx.mark(true);
    let first = run_op(&w, &op, None);
    for k in 2..=times {
        let again = run_op(&w, &op, None);
        if again != first {
            return same(&format!("{op:?} repeated, time {k}, against the first time"), &again, &first);
        }
    }
    Ok(())
}

/// The same memory holds one text after another, often of one length: results must be those of
/// texts in memory of their own.
fn c22_buffers(s: &mut Src, cx: &mut Cx) -> Res {
    let utf8 = gen::utf8(s);
    let alpha = gen::alphabet(s, utf8);
    let big = s.chance(1, 12);
    let mut texts: Vec<Vec<u8>> = Vec::new();
    let l = gen::lines(s, &alpha, 8, 2);
    let mut first = gen::join(&l, gen::final_nl(s));
    if big {
        let unit = if first.is_empty() { b"x\n".to_vec() } else { first.clone() };
        let most = 1000 + s.us(5000);
        while first.len() < most {
            first.extend_from_slice(&unit);
        }
    }
    texts.push(first);
    for _ in 0..1 + s.us(3) {
        let mut t = texts[s.us(texts.len())].clone();
        if s.chance(3, 4) {
            // as long as the one before: newlines and bytes move about
            for _ in 0..1 + s.us(4) {
                if t.is_empty() {
                    break;
                }
                let i = s.us(t.len());
                match s.us(3) {
                    0 => t[i] = b'\n',
                    1 => {
                        if t[i].is_ascii() {
                            t[i] = b'k'
                        }
                    }
                    _ => {
                        let j = s.us(t.len());
                        t.swap(i, j);
                    }
                }
            }
        } else {
            let l = gen::lines(s, &alpha, 8, 2);
            t = gen::join(&l, gen::final_nl(s));
        }
        texts.push(t);
    }
    let other = if big {
        let l: Vec<gen::Line> = split(&texts[0]).iter().map(|l| l.strip_suffix(b"\n").unwrap_or(l).to_vec()).collect();
        let e = gen::edit(s, &l, &alpha, 4);
        gen::join(&e, gen::final_nl(s))
    } else {
        let l = gen::lines(s, &alpha, 8, 2);
        gen::join(&l, gen::final_nl(s))
    };
    for (i, t) in texts.iter().enumerate() {
        cx.input(&format!("text {i}"), t);
    }
    cx.input("other text", &other);
    cx.class_if(big, "large");
    cx.mark(texts.iter().any(|t| *t != texts[0]));
    let n = s.us(4);
    let run = |t: &[u8]| -> Vec<Vec<u8>> {
        let p = opts(n).create_patch_bytes(t, &other);
        let q = opts(n).create_patch_bytes(&other, t);
        let conv = |r: Result<Vec<u8>, Vec<u8>>| match r {
            Ok(mut v) => {
                v.push(b'+');
                v
            }
            Err(v) => v,
        };
        let app = |r: Result<Vec<u8>, diffy::ApplyError>| r.unwrap_or_else(|e| e.to_string().into_bytes());
        let mut out = vec![
            p.to_bytes(),
            q.to_bytes(),
            app(apply_bytes(t, &p)),
            app(apply_bytes(&other, &q)),
            conv(merge_bytes(t, &other, &texts[0])),
            conv(merge_bytes(&texts[0], t, &other)),
        ];
        if let (Some(t), Some(o)) = (st(t), st(&other)) {
            let p = opts(n).create_patch(t, o);
            out.push(p.to_string().into_bytes());
            out.push(apply(t, &p).map_or_else(|e| e.to_string(), |v| v).into_bytes());
            out.push(merge(o, t, o).unwrap_or_else(|e| e).into_bytes());
        }
        // the patch text itself in a reused buffer
        out.push(Patch::from_bytes(t).map_or_else(|e| e.to_string(), |p| format!("{:?}", observe_b(&p))).into_bytes());
        out
    };
    let most = texts.iter().map(Vec::len).max().unwrap_or(0);
    let mut buf = vec![0u8; most];
    let mut reused: Vec<Vec<Vec<u8>>> = Vec::new();
    for t in &texts {
        buf[..t.len()].copy_from_slice(t);
        reused.push(run(&buf[..t.len()]));
    }
    // the texts live at addresses of their own
    for i in (0..texts.len()).rev() {
        for (k, (x, y)) in reused[i].iter().zip(run(&texts[i])).enumerate() {
            same(&format!("text {i}, operation {k}: in a buffer that held other texts before, and in its own memory"), x, &y)?;
        }
    }
    Ok(())
}

fn c22_options(s: &mut Src, cx: &mut Cx) -> Res {
    let t = gen::triple_sized(s, 0);
    cx.input("ancestor", &t.o);
    cx.input("ours", &t.a);
    cx.input("theirs", &t.b);
    cx.mark(t.o != t.a && t.a != t.b);
    // several settings, only the last of each kind counts; using the object in between is harmless
    let mut o = DiffOptions::new();
    let (mut ctx, mut na, mut nb) = (3usize, "original".to_string(), "modified".to_string());
    let mut m = MergeOptions::new();
    let (mut len, mut d3) = (7usize, true);
    let mut f = PatchFormatter::new();
    let (mut msg, mut blank, mut color) = (true, true, false);
    let mut log = String::new();
    for _ in 0..1 + s.us(10) {
        match s.us(9) {
            0 | 1 => {
                ctx = gen::context_len(s);
                o.set_context_len(ctx);
                log.push_str(&format!("context {ctx}; "));
            }
            2 => {
                na = gen::filename(s);
                o.set_original_filename(na.clone());
                log.push_str(&format!("original {na:?}; "));
            }
            3 => {
                nb = gen::filename(s);
                o.set_modified_filename(nb.clone());
                log.push_str(&format!("modified {nb:?}; "));
            }
            4 => {
                len = s.us(10);
                m.set_conflict_marker_length(len);
                log.push_str(&format!("marker {len}; "));
            }
            5 => {
                d3 = s.chance(1, 2);
                m.set_conflict_style(if d3 { ConflictStyle::Diff3 } else { ConflictStyle::Merge });
                log.push_str(&format!("diff3 {d3}; "));
            }
            6 => {
                msg = s.chance(1, 2);
                f = f.missing_newline_message(msg);
                log.push_str(&format!("message {msg}; "));
            }
            7 => {
                blank = s.chance(1, 2);
                f = f.suppress_blank_empty(blank);
                if s.chance(1, 4) {
                    f = f.with_color();
                    color = true;
                }
                log.push_str(&format!("blank {blank} colour {color}; "));
            }
            _ => {
                let _ = o.create_patch_bytes(&t.b, &t.o).to_bytes();
                let _ = m.merge_bytes(&t.b, &t.o, &t.a).is_ok();
                log.push_str("use; ");
            }
        }
    }
    cx.note("settings", || log.clone());
    let mut o2 = DiffOptions::default();
    o2.set_modified_filename(nb).set_original_filename(na).set_context_len(ctx);
    let (p, q) = (o.create_patch_bytes(&t.o, &t.a), o2.create_patch_bytes(&t.o, &t.a));
    check(observe_b(&p) == observe_b(&q), || format!("options set by {log}: the patch differs from one made with the last values only"))?;
    let m2 = merge_opts(len, d3);
    check(m.merge_bytes(&t.o, &t.a, &t.b) == m2.merge_bytes(&t.o, &t.a, &t.b), || {
        format!("options set by {log}: the merge differs from one made with the last values only")
    })?;
    let i = u8::from(color) | (u8::from(msg) << 1) | (u8::from(blank) << 2);
    same(&format!("formatter set by {log}"), &write_b(&f, &p)?, &write_b(&formatter(i), &p)?)
}

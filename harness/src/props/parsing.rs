//! Properties of parsing and formatting: C04, C07, C08, C09, C21.

use super::*;
use crate::refm::*;
use std::sync::OnceLock;
use diffy::{apply, apply_bytes, ConflictStyle, MergeOptions, Patch, PatchFormatter};

const MARK: &[u8] = b"\\ No newline at end of file\n";

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            rule: "patches created with random file names, reversed, or parsed from generated diff texts with section headings, then formatted with blank suppression on, off and by default, and parsed again. Non-trivial: the patch has a hunk, or a name that needs quoting",
            parts: vec![
                rnd("created", 200_000, 8_000_000, c04_created),
                rnd("parsed", 300_000, 12_000_000, c04_parsed),
                enm("parsed sizes and bytes", sized_models, sized_models, c04_parsed_sizes),
                rnd("huge", 48, 1_920, c04_huge),
                enm("small", pairs_quick, pairs_thorough, c04_small),
                enm("sizes and bytes", sized_pairs, sized_pairs, c04_sizes),
            ],
        },
        Prop {
            id: "C07",
            rule: "diff texts written from a generated model with every optional piece of syntax chosen at random: preamble, none, one or both file headers, quoting, timestamps, omitted counts, section headings, blank context lines with and without their space, no-newline markers, any line contents; and diffs of generated texts written by git diff and GNU diff. Non-trivial: at least one hunk, with at least two kinds of line",
            parts: vec![
                rnd("diffs", 3_000_000, 120_000_000, c07),
                rnd("written by git and diff", 3_000, 100_000, tools::c07_tools),
                enm("sizes and bytes", sized_models, sized_models, c07_sizes),
                enm("syntax sizes and bytes", syntax_n, syntax_n, c07_syntax),
            ],
        },
        Prop {
            id: "C08",
            rule: "well-formed diff texts as in C07 with one corruption of a listed kind at a random place, and each kind with every size of a grid and every byte and word of a list. Non-trivial: the text without the corruption is accepted",
            parts: vec![rnd("corruptions", 2_500_000, 100_000_000, c08), enm("listed", c08_listed_n, c08_listed_n, c08_listed), enm("sizes and bytes", bad_sizes, bad_sizes, c08_sizes)],
        },
        Prop {
            id: "C09",
            rule: "random bytes, sequences of diff tokens with extreme numbers, and mutated diff texts, parsed and then inspected, reversed, formatted, parsed again and applied; and random texts created, applied and merged under extreme options. Non-trivial: the text parses as a patch with a hunk, or is rejected after its first hunk header; or the texts differ",
            parts: vec![
                rnd("bytes", 300_000, 12_000_000, c09_bytes),
                rnd("tokens", 500_000, 20_000_000, c09_tokens),
                rnd("mutated", 300_000, 12_000_000, c09_mutated),
                rnd("headers", 500_000, 20_000_000, c09_headers),
                rnd("texts", 200_000, 8_000_000, c09_texts),
                enm("sizes and bytes", sized_triples, sized_triples, c09_sizes),
                enm("parsed sizes and bytes", sized_models, sized_models, c09_parsed_sizes),
            ],
        },
        Prop {
            id: "C21",
            rule: "patches created from pairs as in C01 with random or default file names, parsed from generated diff texts or mutated ones, and reversed. Non-trivial: the patch has a hunk",
            parts: vec![
                rnd("created", 200_000, 8_000_000, c21_created),
                rnd("parsed", 500_000, 20_000_000, c21_parsed),
                rnd("mutated", 400_000, 16_000_000, c21_mutated),
                enm("parsed sizes and bytes", sized_models, sized_models, c21_parsed_sizes),
                rnd("huge", 48, 1_920, c21_huge),
                enm("small", pairs_quick, pairs_thorough, c21_small),
                enm("sizes and bytes", sized_pairs, sized_pairs, c21_sizes),
            ],
        },
    ]
}

// ---------------------------------------------------------------- writing diffs

pub fn number_text(s: usize, n: usize, short: bool) -> String {
    if n == 1 && short {
        format!("{s}")
    } else {
        format!("{s},{n}")
    }
}

pub fn quote(name: &[u8]) -> Vec<u8> {
    let mut v = vec![b'"'];
    for b in name {
        match b {
            b'\n' => v.extend_from_slice(b"\\n"),
            b'\t' => v.extend_from_slice(b"\\t"),
            b'\r' => v.extend_from_slice(b"\\r"),
            0 => v.extend_from_slice(b"\\0"),
            b'"' => v.extend_from_slice(b"\\\""),
            b'\\' => v.extend_from_slice(b"\\\\"),
            b => v.push(*b),
        }
    }
    v.push(b'"');
    v
}

pub fn special(name: &[u8]) -> bool {
    name.iter().any(|b| b"\n\t\r\0\"\\".contains(b))
}

/// The plain text of a model.
pub fn write_plain(p: &RPatch) -> Vec<u8> {
    let mut v = Vec::new();
    for (pre, n) in [("--- ", &p.old), ("+++ ", &p.new)] {
        if let Some(n) = n {
            v.extend_from_slice(pre.as_bytes());
            v.extend(if special(n) { quote(n) } else { n.clone() });
            v.push(b'\n');
        }
    }
    for h in &p.hunks {
        write_header(&mut v, h, true, true);
        for (t, l) in &h.lines {
            v.push(*t);
            v.extend_from_slice(l);
            if !l.ends_with(b"\n") {
                v.push(b'\n');
                v.extend_from_slice(MARK);
            }
        }
    }
    v
}

fn write_header(v: &mut Vec<u8>, h: &RHunk, so: bool, sn: bool) {
    v.extend_from_slice(format!("@@ -{} +{} @@", number_text(h.os, h.ol, so), number_text(h.ns, h.nl, sn)).as_bytes());
    if let Some(c) = &h.heading {
        v.push(b' ');
        v.extend_from_slice(c);
    }
    v.push(b'\n');
}

fn any_name(s: &mut Src, utf8: bool) -> Vec<u8> {
    let mut n = gen::filename(s).into_bytes();
    if !utf8 && s.chance(1, 4) {
        let at = s.us(n.len() + 1);
        n.insert(at, 0x80 + s.n(0x80) as u8);
    }
    n
}

/// A body line: content with its newline.
fn body_line(s: &mut Src, alpha: &[gen::Line], utf8: bool) -> Vec<u8> {
    let mut l = if s.chance(2, 3) { s.pick(alpha).clone() } else { gen::content(s, utf8) };
    l.push(b'\n');
    l
}

fn any_gap(s: &mut Src) -> usize {
    match s.weighted(&[6, 6, 4, 2, 1]) {
        0 => s.us(3),
        1 => 1 + s.us(12),
        2 => 50 + s.us(1000),
        3 => s.us(1 << 30),
        _ => gen::named_number(s).min(1 << 30),
    }
}

/// A model of a well-formed diff. The hunks describe one consistent change.
pub fn model(s: &mut Src, utf8: bool, names: bool) -> RPatch {
    let alpha = gen::alphabet(s, utf8);
    let mut p = RPatch::default();
    if names {
        match s.weighted(&[8, 2, 1, 1]) {
            0 => {
                p.old = Some(any_name(s, utf8));
                p.new = Some(any_name(s, utf8));
            }
            1 => {}
            2 => p.old = Some(any_name(s, utf8)),
            _ => p.new = Some(any_name(s, utf8)),
        }
    }
    let k = s.weighted(&[1, 10, 6, 3, 1]);
    let k = if k == 4 { 4 + s.us(30) } else { k };
    // indices of the next free line in both files
    let (mut io, mut inw) = (0usize, 0usize);
    for i in 0..k {
        let last = i + 1 == k;
        let mut lines: Vec<(u8, Vec<u8>)> = Vec::new();
        let kind = s.weighted(&[6, 1, 1, 1]);
        let avg = if s.chance(1, 30) { 120 } else { 4 };
        loop {
            let t = match kind {
                1 => b'+',
                2 => b'-',
                3 => b' ',
                _ => *s.pick(b" -+"),
            };
            lines.push((t, body_line(s, &alpha, utf8)));
            if !s.more(avg) {
                break;
            }
        }
        if last {
            // the final newline of either file may be missing
            let lo = lines.iter().rposition(|l| l.0 != b'+');
            let ln = lines.iter().rposition(|l| l.0 != b'-');
            match s.weighted(&[5, 1, 1, 1]) {
                0 => {}
                m => {
                    for (side, at) in [(1, lo), (2, ln)] {
                        if m & side == 0 {
                            continue;
                        }
                        if let Some(at) = at {
                            // a context line ends both files or neither
                            let ctx = lines[at].0 == b' ';
                            let both = lo == ln && at + 1 == lines.len();
                            let l = &mut lines[at].1;
                            if (!ctx || both) && l.len() > 1 && l.ends_with(b"\n") {
                                l.pop();
                            }
                        }
                    }
                }
            }
        }
        let ol = lines.iter().filter(|l| l.0 != b'+').count();
        let nl = lines.iter().filter(|l| l.0 != b'-').count();
        // hunks with an empty side are kept apart from the one before
        let gap = any_gap(s);
        let gap = if i > 0 && (ol == 0 || nl == 0) { gap.max(1) } else { gap };
        io += gap;
        inw += gap;
        let heading = if s.chance(1, 4) {
            let mut h = gen::content(s, utf8);
            if s.chance(1, 4) {
                h.extend_from_slice(b" @@ x");
            }
            if h.is_empty() {
                h.push(b'f');
            }
            Some(h)
        } else {
            None
        };
        p.hunks.push(RHunk {
            os: if ol == 0 { io } else { io + 1 },
            ol,
            ns: if nl == 0 { inw } else { inw + 1 },
            nl,
            heading,
            lines,
        });
        io += ol;
        inw += nl;
    }
    p
}

/// Put hunks without lines between the others.
pub fn add_empty_hunks(s: &mut Src, p: &mut RPatch) {
    while s.more(1) {
        let at = s.us(p.hunks.len() + 1);
        let least = if at == 0 {
            (0, 0)
        } else {
            let h = &p.hunks[at - 1];
            (h.os + h.ol, h.ns + h.nl)
        };
        let most = p.hunks.get(at).map_or((least.0 + 20, least.1 + 20), |h| (h.os, h.ns));
        let pick = |s: &mut Src, lo: usize, hi: usize| lo + s.us((hi - lo).min(20) + 1);
        let (os, ns) = (pick(s, least.0, most.0), pick(s, least.1, most.1));
        p.hunks.insert(at, RHunk { os, ol: 0, ns, nl: 0, heading: None, lines: vec![] });
    }
}

/// A model, some with empty hunks or places that do not fit together, which no diff tool writes
/// but a text can hold.
pub fn model_odd(s: &mut Src, utf8: bool) -> RPatch {
    let mut m = model(s, utf8, true);
    if s.chance(1, 4) {
        // as after some hunks were taken out by hand: the places in the two files drift apart
        let (mut o, mut n) = (0, 0);
        for h in &mut m.hunks {
            match s.n(3) {
                0 => o += any_gap(s),
                1 => n += any_gap(s),
                _ => {}
            }
            h.os += o;
            h.ns += n;
        }
    }
    if s.chance(1, 6) {
        add_empty_hunks(s, &mut m);
    }
    m
}

/// Models with one dimension of a given size: (largest size, model).
const MODEL_SHAPES: &[(usize, fn(usize) -> RPatch)] = &[
    // n hunks
    (65_537, |n| RPatch {
        hunks: (0..n)
            .map(|i| {
                let at = 1 + 3 * i;
                let l = |t: u8| (t, format!("{i}\n").into_bytes());
                RHunk { os: at, ol: 1, ns: at, nl: 1, heading: None, lines: vec![l(b'-'), l(b'+')] }
            })
            .collect(),
        ..RPatch::default()
    }),
    // n lines of one kind after one of another
    (131_073, |n| one_hunk(5, [vec![(b'-', b"x\n".to_vec())], vec![(b'+', b"y\n".to_vec()); n]].concat())),
    (131_073, |n| one_hunk(5, [vec![(b'+', b"x\n".to_vec())], vec![(b' ', b"y\n".to_vec()); n]].concat())),
    (131_073, |n| one_hunk(5, [vec![(b' ', b"x\n".to_vec())], vec![(b'-', b"y\n".to_vec()); n]].concat())),
    // blank context lines
    (131_073, |n| one_hunk(5, [vec![(b'+', b"x\n".to_vec())], vec![(b' ', b"\n".to_vec()); n]].concat())),
    // a line of n bytes, with and without its newline
    (131_073, |n| {
        let l = |c: u8, nl: &[u8]| [&vec![c; n][..], nl].concat();
        one_hunk(5, vec![(b'-', l(b'x', b"\n")), (b'+', l(b'+', b"\n")), (b' ', l(b' ', b"\n")), (b'-', l(b'-', b"\n"))])
    }),
    (131_073, |n| one_hunk(5, vec![(b'-', vec![b'x'; n + 1]), (b'+', vec![b'y'; n + 1])])),
    // file names of n bytes, plain and quoted
    (131_073, |n| RPatch {
        old: Some(vec![b'o'; n]),
        new: Some([&b"\""[..], &vec![b'n'; n]].concat()),
        ..one_hunk(5, vec![(b'+', b"y\n".to_vec())])
    }),
    (131_073, |n| RPatch { old: Some(vec![b'\\'; n]), new: Some(vec![b'\t'; n]), ..one_hunk(5, vec![(b'-', b"y\n".to_vec())]) }),
    // a section heading of n bytes
    (131_073, |n| {
        let mut p = one_hunk(5, vec![(b'+', b"y\n".to_vec())]);
        p.hunks[0].heading = Some(vec![b'f'; n + 1]);
        p
    }),
    // a hunk at line n
    (131_073, |n| one_hunk(n, vec![(b' ', b"x\n".to_vec()), (b'+', b"y\n".to_vec())])),
    (131_073, |n| one_hunk(n, vec![(b'-', b"x\n".to_vec())])),
];

fn one_hunk(at: usize, lines: Vec<(u8, Vec<u8>)>) -> RPatch {
    let mut h = RHunk { os: at, ol: 0, ns: at, nl: 0, heading: None, lines };
    (h.ol, h.nl) = h.counts();
    // an empty range names the line before it
    h.os += usize::from(h.ol > 0);
    h.ns += usize::from(h.nl > 0);
    RPatch { hunks: vec![h], ..RPatch::default() }
}

fn model_sizes() -> &'static [Vec<usize>] {
    static C: OnceLock<Vec<Vec<usize>>> = OnceLock::new();
    C.get_or_init(|| MODEL_SHAPES.iter().map(|s| gen::sizes(s.0)).collect())
}

/// Models with one byte or character in a name, a heading or a line, at its start, its end or within.
const UNIT_MODELS: u64 = 12;
fn unit_model(u: &[u8], i: u64) -> RPatch {
    let (what, at) = (i / 4, i % 4);
    let t: Vec<u8> = match at {
        0 => u.to_vec(),
        1 => [b"a", u].concat(),
        2 => [u, b"a"].concat(),
        // next to something that calls for quotes
        _ => [b"a\t", u, b"b"].concat(),
    };
    let mut p = one_hunk(5, vec![(b'-', b"x\n".to_vec()), (b'+', b"y\n".to_vec()), (b' ', b"z\n".to_vec())]);
    match what {
        0 => {
            p.old = Some(t.clone());
            p.new = Some([&t[..], &t].concat());
        }
        1 => p.hunks[0].heading = Some(t),
        _ => {
            let l: Vec<u8> = [&t[..], b"\n"].concat();
            p = one_hunk(5, vec![(b'-', l.clone()), (b' ', l.clone()), (b'+', l), (b'-', t)]);
        }
    }
    p
}

pub fn sized_models() -> u64 {
    model_sizes().iter().map(|s| s.len() as u64).sum::<u64>() + gen::units().len() as u64 * UNIT_MODELS
}

pub fn sized_model(i: u64) -> RPatch {
    let units = gen::units().len() as u64 * UNIT_MODELS;
    if i < units {
        return unit_model(&gen::units()[(i / UNIT_MODELS) as usize], i % UNIT_MODELS);
    }
    let mut i = (i - units) as usize;
    for (k, sizes) in model_sizes().iter().enumerate() {
        if i < sizes.len() {
            return MODEL_SHAPES[k].1(sizes[i]);
        }
        i -= sizes.len();
    }
    unreachable!()
}

fn preamble(s: &mut Src, v: &mut Vec<u8>, utf8: bool) {
    while s.more(1) {
        match s.us(6) {
            0 => v.extend_from_slice(b"diff --git a/x b/x\n"),
            1 => v.extend_from_slice(b"index 1234567..89abcde 100644\n"),
            2 => v.extend_from_slice(b"\n"),
            3 => v.extend_from_slice(b"new file mode 100644\n"),
            4 => v.extend_from_slice(b"---\n"),
            _ => {
                let mut l = gen::content(s, utf8);
                if [&b"--- "[..], b"+++ ", b"@@ "].iter().any(|p| l.starts_with(p)) {
                    l.insert(0, b'#');
                }
                l.push(b'\n');
                v.extend(l);
            }
        }
    }
}

/// A well-formed text for a model, with the optional syntax chosen at random.
pub fn write_any(s: &mut Src, p: &RPatch, utf8: bool) -> Vec<u8> {
    let mut v = Vec::new();
    if s.chance(1, 3) {
        preamble(s, &mut v, utf8);
    }
    for (pre, n) in [("--- ", &p.old), ("+++ ", &p.new)] {
        if let Some(n) = n {
            v.extend_from_slice(pre.as_bytes());
            v.extend(if special(n) || s.chance(1, 4) { quote(n) } else { n.clone() });
            match s.weighted(&[5, 1, 1, 1]) {
                0 => {}
                1 => v.extend_from_slice(b"\t2020-01-02 03:04:05.000000000 +0000"),
                2 => v.push(b'\t'),
                _ => {
                    v.push(b'\t');
                    let c = gen::content(s, utf8);
                    v.extend(c);
                }
            }
            v.push(b'\n');
        }
    }
    for h in &p.hunks {
        write_header(&mut v, h, !s.chance(1, 3), !s.chance(1, 3));
        for (t, l) in &h.lines {
            if !(*t == b' ' && l == b"\n" && s.chance(1, 2)) {
                v.push(*t);
            }
            v.extend_from_slice(l);
            if !l.ends_with(b"\n") {
                v.push(b'\n');
                v.extend_from_slice(MARK);
            }
        }
    }
    v
}

/// A text that is close to a diff: a well-formed one with random edits to its bytes and lines.
pub fn mutated(s: &mut Src) -> (Vec<u8>, bool) {
    let utf8 = gen::utf8(s);
    let m = model_odd(s, utf8);
    let mut v = write_any(s, &m, utf8);
    const BITS: &[&str] = &[
        "@@ ", " @@", "@", "-", "+", " ", "\\", "\n", ",", "0", "1", "9", "--- ", "+++ ", "\"", "\t", "\\ No newline at end of file\n",
        "@@ -1 +1 @@\n", "@@ -0,0 +0,0 @@\n", "18446744073709551615", "9223372036854775808", "\r", "\0", "é", "\u{1F600}", "\\303", "\\n", "\\x41", "\\\\", "\\\"", "@@ -1,0 +1,0 @@\n",
    ];
    while s.more(2) {
        let at = s.us(v.len() + 1);
        match s.us(6) {
            0 => {
                let b = s.pick(BITS).as_bytes().to_vec();
                v.splice(at..at, b);
            }
            1 => {
                let n = (1 + s.us(4)).min(v.len() - at);
                v.drain(at..at + n);
            }
            2 => {
                if at < v.len() {
                    v[at] = *s.pick(b" -+@\\\n0129,\"\ta");
                }
            }
            3 => {
                // drop, duplicate or swap lines
                let mut ls: Vec<Vec<u8>> = split(&v).into_iter().map(<[u8]>::to_vec).collect();
                if !ls.is_empty() {
                    let i = s.us(ls.len());
                    match s.us(3) {
                        0 => {
                            ls.remove(i);
                        }
                        1 => {
                            let l = ls[i].clone();
                            ls.insert(i, l);
                        }
                        _ => {
                            let j = s.us(ls.len());
                            ls.swap(i, j);
                        }
                    }
                    v = ls.concat();
                }
            }
            4 => {
                v.truncate(at);
            }
            _ => {
                // a number somewhere becomes another
                if let Some(i) = v.iter().skip(at).position(u8::is_ascii_digit) {
                    let i = i + at;
                    let j = i + v[i..].iter().take_while(|b| b.is_ascii_digit()).count();
                    let n = number(s);
                    v.splice(i..j, n.into_bytes());
                }
            }
        }
    }
    (v, utf8)
}

fn number(s: &mut Src) -> String {
    match s.us(8) {
        0 => format!("{}", s.us(12)),
        1 => "0".into(),
        2 => format!("{}", usize::MAX - s.us(3)),
        3 => format!("{}", usize::MAX / 2 + s.us(3)),
        4 => "18446744073709551616".into(),
        5 => "99999999999999999999999999".into(),
        6 => format!("{}", (1u64 << 32) - 1 + s.n(3)),
        _ => (*s.pick(&["", "-1", "+1", "1.0", "a", "0x1", "00", "007", "1 ", "1_0", "\u{0661}"])).into(),
    }
}

// ---------------------------------------------------------------- C04

fn formats(p: &Patch<'_, [u8]>) -> Result<Vec<(&'static str, Vec<u8>)>, String> {
    let mut out = vec![("to_bytes", p.to_bytes())];
    for (n, on) in [("blank suppression on", true), ("blank suppression off", false)] {
        let mut v = Vec::new();
        PatchFormatter::new().suppress_blank_empty(on).write_patch_into(p, &mut v).map_err(|e| e.to_string())?;
        out.push((n, v));
    }
    Ok(out)
}

fn c04_bytes(p: &Patch<'_, [u8]>) -> Res {
    let want = observe_b(p);
    for (n, t) in formats(p)? {
        let q = Patch::from_bytes(&t).map_err(|e| format!("{n}: does not parse: {e}\n  text: {}", clip(&t)))?;
        check(q == *p && observe_b(&q) == want, || {
            format!("{n}: parses as a different patch\n  text: {}\n  got  {:?}\n  want {want:?}", clip(&t), observe_b(&q))
        })?;
    }
    Ok(())
}

fn c04_str(p: &Patch<'_, str>) -> Res {
    let want = observe_s(p);
    let texts = [
        ("to_string", p.to_string()),
        ("fmt_patch", PatchFormatter::new().fmt_patch(p).to_string()),
        ("fmt_patch, blank suppression off", PatchFormatter::new().suppress_blank_empty(false).fmt_patch(p).to_string()),
        ("fmt_patch, blank suppression on", PatchFormatter::new().suppress_blank_empty(true).fmt_patch(p).to_string()),
    ];
    for (n, t) in texts {
        let q = Patch::from_str(&t).map_err(|e| format!("{n}: does not parse: {e}\n  text: {}", clip(t.as_bytes())))?;
        check(q == *p && observe_s(&q) == want, || {
            format!("{n}: parses as a different patch\n  text: {}\n  got  {:?}\n  want {want:?}", clip(t.as_bytes()), observe_s(&q))
        })?;
    }
    Ok(())
}

fn c04_pair(a: &[u8], b: &[u8], n: usize, na: String, nb: String, cx: &mut Cx) -> Res {
    let quoted = special(na.as_bytes()) || special(nb.as_bytes());
    cx.class_if(quoted, "quoted file name");
    let mut o = opts(n);
    o.set_original_filename(na).set_modified_filename(nb);
    let p = o.create_patch_bytes(a, b);
    cx.mark(!p.hunks().is_empty() || quoted);
    c04_bytes(&p)?;
    c04_bytes(&p.reverse()).map_err(|e| format!("reversed: {e}"))?;
    if let (Some(a), Some(b)) = (st(a), st(b)) {
        let p = o.create_patch(a, b);
        c04_str(&p)?;
        c04_str(&p.reverse()).map_err(|e| format!("reversed: {e}"))?;
    }
    Ok(())
}

fn c04_created(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::pair(s);
    let n = gen::context_len(s);
    let (na, nb) = (gen::filename(s), gen::filename(s));
    input_pair(cx, &p.a, &p.b, n);
    cx.input("original name", na.as_bytes());
    cx.input("modified name", nb.as_bytes());
    c04_pair(&p.a, &p.b, n, na, nb, cx)
}

fn c04_huge(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::huge(s);
    let n = gen::context_len(s);
    input_pair(cx, &p.a, &p.b, n);
    c04_pair(&p.a, &p.b, n, "a".into(), "b".into(), cx)
}

fn c04_sizes(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = sized_pair(i);
    input_pair(cx, &a, &b, n);
    c04_pair(&a, &b, n, "a".into(), "b".into(), cx)
}

fn c04_small(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = small_pair(i);
    input_pair(cx, a, b, n);
    c04_pair(a, b, n, "a".into(), "b\n".into(), cx)
}

fn c04_parsed(s: &mut Src, cx: &mut Cx) -> Res {
    let (text, utf8) = if s.chance(1, 5) {
        mutated(s)
    } else {
        let utf8 = gen::utf8(s);
        let m = model_odd(s, utf8);
        (write_any(s, &m, utf8), utf8)
    };
    cx.class_if(!utf8, "bytes");
    c04_text(&text, cx)
}

fn c04_parsed_sizes(i: u64, cx: &mut Cx) -> Res {
    c04_text(&write_plain(&sized_model(i)), cx)
}

fn c04_text(text: &[u8], cx: &mut Cx) -> Res {
    cx.input("text", text);
    let Ok(p) = Patch::from_bytes(text) else {
        cx.class("rejected");
        return Ok(());
    };
    cx.mark(!p.hunks().is_empty());
    cx.class_if(p.hunks().iter().any(|h| h.function_context().is_some()), "with section heading");
    cx.class_if(p.original().is_some() != p.modified().is_some(), "one file header");
    cx.class_if(p.original().is_none() && p.modified().is_none(), "no file header");
    c04_bytes(&p)?;
    c04_bytes(&p.reverse()).map_err(|e| format!("reversed: {e}"))?;
    if let Some(t) = st(text) {
        if let Ok(p) = Patch::from_str(t) {
            c04_str(&p)?;
            c04_str(&p.reverse()).map_err(|e| format!("reversed: {e}"))?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

fn c07(s: &mut Src, cx: &mut Cx) -> Res {
    let utf8 = gen::utf8(s);
    let m = model(s, utf8, true);
    let text = write_any(s, &m, utf8);
    cx.class_if(!utf8, "bytes");
    c07_check(&m, &text, cx)
}

fn c07_sizes(i: u64, cx: &mut Cx) -> Res {
    let m = sized_model(i);
    c07_check(&m, &write_plain(&m), cx)
}

const SYNTAX_SIZED: usize = 6;
const SYNTAX_UNITS: usize = 16;
fn syntax_n() -> u64 {
    (gen::sizes(131_073).len() * SYNTAX_SIZED + gen::units().len() * SYNTAX_UNITS) as u64
}

/// Leading lines, time stamps and unneeded quotes of every size and with every byte and word.
fn c07_syntax(i: u64, cx: &mut Cx) -> Res {
    let i = i as usize;
    let mut m = one_hunk(5, vec![(b'-', b"x\n".to_vec()), (b'+', b"y\n".to_vec()), (b' ', b"z\n".to_vec())]);
    (m.old, m.new) = (Some(b"old".to_vec()), Some(b"new".to_vec()));
    let mut bare = m.clone();
    (bare.old, bare.new) = (None, None);
    let body = write_plain(&bare);
    let sizes = gen::sizes(131_073);
    let names = |stamp: &[u8]| [b"--- old", stamp, b"\n+++ new", stamp, b"\n"].concat();
    let head = if i < sizes.len() * SYNTAX_SIZED {
        let n = sizes[i / SYNTAX_SIZED];
        match i % SYNTAX_SIZED {
            0 => [b"index\n".repeat(n), names(b"")].concat(),
            1 => [vec![b'-'; n], b"\n".to_vec(), names(b"")].concat(),
            2 => names(&[b"\t", &b"0".repeat(n)[..]].concat()),
            3 => names(&b"\t".repeat(n)),
            4 => [b"\n".repeat(n), b"--- \"old\"\n+++ \"new\"\n".to_vec()].concat(),
            _ => {
                // without file names the hunk follows the leading lines
                (m.old, m.new) = (None, None);
                b"diff\n".repeat(n)
            }
        }
    } else {
        let i = i - sizes.len() * SYNTAX_SIZED;
        let u = &gen::units()[i / SYNTAX_UNITS];
        let before: &[&[u8]] = &[b"", b"a", b"-", b"--", b"---", b"+", b"++", b"+++", b"@", b"@@", b"diff ", b" "];
        match i % SYNTAX_UNITS {
            k if k < before.len() => {
                let l = [before[k], u, b" b/c.d 1\n"].concat();
                if split(&l).iter().any(|l| [&b"--- "[..], b"+++ ", b"@@ "].iter().any(|p| l.starts_with(p))) {
                    return Ok(());
                }
                [l, names(b"")].concat()
            }
            k if u.contains(&b'\n') => [b"x".repeat(k), b"\n".to_vec(), names(b"")].concat(),
            12 => names(&[b"\t", &u[..]].concat()),
            13 => names(&[b"\t2020-01-01", &u[..], b"1"].concat()),
            14 => names(&[b"\t\"", &u[..], b"\""].concat()),
            // a line that is just this, behind other leading lines
            _ => {
                if [&b"--- "[..], b"+++ ", b"@@ "].iter().any(|p| u.starts_with(p)) {
                    return Ok(());
                }
                [b"diff --git a/x b/x\n", &u[..], b"\nindex 12..34\n", &names(b"")].concat()
            }
        }
    };
    c07_check(&m, &[head, body].concat(), cx)
}

fn c07_check(m: &RPatch, text: &[u8], cx: &mut Cx) -> Res {
    cx.input("text", text);
    let marks = m.hunks.iter().flat_map(|h| &h.lines).filter(|l| !l.1.ends_with(b"\n")).count();
    let kinds = |h: &RHunk| b" -+".iter().filter(|t| h.lines.iter().any(|l| l.0 == **t)).count();
    cx.mark(m.hunks.iter().any(|h| kinds(h) > 1));
    cx.class_if(m.hunks.len() > 1, "several hunks");
    cx.class_if(m.hunks.is_empty(), "no hunk");
    cx.class_if(marks == 1, "one no-newline marker");
    cx.class_if(marks == 2, "two no-newline markers");
    cx.class_if(m.hunks.iter().any(|h| h.heading.is_some()), "with section heading");
    cx.class_if(m.hunks.iter().any(|h| h.ol == 0 || h.nl == 0), "with an empty range");
    cx.class_if(m.old.is_none() && m.new.is_none(), "no file header");
    c07_read(m, text)?;
    // a marker may stand at the very end of the text
    let marked = m.hunks.last().and_then(|h| h.lines.last()).map_or(false, |l| !l.1.ends_with(b"\n"));
    match text.strip_suffix(b" No newline at end of file\n") {
        Some(t) if marked && t.ends_with(b"\n\\") => {
            cx.class("a marker at the very end of the text");
            c07_read(m, &text[..text.len() - 1]).map_err(|e| format!("without the newline of the last marker: {e}"))
        }
        _ => Ok(()),
    }
}

fn c07_read(m: &RPatch, text: &[u8]) -> Res {
    let p = Patch::from_bytes(text).map_err(|e| format!("from_bytes rejects a well-formed diff: {e}"))?;
    let got = observe_b(&p);
    check(got == *m, || format!("from_bytes reads\n  {got:?}\nbut what was written is\n  {m:?}"))?;
    if let Some(t) = st(text) {
        let p = Patch::from_str(t).map_err(|e| format!("from_str rejects a well-formed diff: {e}"))?;
        let got = observe_s(&p);
        check(got == *m, || format!("from_str reads\n  {got:?}\nbut what was written is\n  {m:?}"))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

fn rejected(text: &[u8], what: &str) -> Res {
    if let Ok(p) = Patch::from_bytes(text) {
        return Err(format!("{what}: from_bytes accepts it as {:?}", observe_b(&p)));
    }
    if let Some(t) = st(text) {
        if let Ok(p) = Patch::from_str(t) {
            return Err(format!("{what}: from_str accepts it as {:?}", observe_s(&p)));
        }
    }
    Ok(())
}

/// The text of a model in pieces: names, then for each hunk its header and its body lines,
/// each with its marker.
struct Pieces {
    names: Vec<Vec<u8>>,
    hunks: Vec<(Vec<u8>, Vec<Vec<u8>>)>,
}

impl Pieces {
    fn of(p: &RPatch) -> Pieces {
        let names = RPatch { hunks: vec![], ..p.clone() };
        Pieces {
            names: split(&write_plain(&names)).into_iter().map(<[u8]>::to_vec).collect(),
            hunks: p
                .hunks
                .iter()
                .map(|h| {
                    let mut v = Vec::new();
                    write_header(&mut v, h, true, true);
                    let b = h
                        .lines
                        .iter()
                        .map(|(t, l)| {
                            let mut v = vec![*t];
                            v.extend_from_slice(l);
                            if !l.ends_with(b"\n") {
                                v.push(b'\n');
                                v.extend_from_slice(MARK);
                            }
                            v
                        })
                        .collect();
                    (v, b)
                })
                .collect(),
        }
    }
    fn text(&self) -> Vec<u8> {
        let mut v = self.names.concat();
        for (h, b) in &self.hunks {
            v.extend_from_slice(h);
            v.extend(b.concat());
        }
        v
    }
}

/// A well-formed text with one fault, and which.
pub fn broken(s: &mut Src) -> Option<Bad> {
    let utf8 = gen::utf8(s);
    let mut m = model(s, utf8, true);
    if m.hunks.is_empty() {
        m.hunks.push(RHunk { os: 1, ol: 1, ns: 1, nl: 1, heading: None, lines: vec![(b' ', b"x\n".to_vec())] });
    }
    let k = s.us(m.hunks.len());
    let plain = write_plain(&m);
    let accepted = Patch::from_bytes(&plain).is_ok();
    if !accepted {
        // C07's business
        return None;
    }
    let mut pc = Pieces::of(&m);
    let head = |h: &RHunk| {
        let mut v = Vec::new();
        write_header(&mut v, h, true, true);
        v
    };
    let kind = s.us(14);
    let what: &'static str = match kind {
        0 | 1 => {
            let mut h = m.hunks[k].clone();
            let up = s.chance(1, 2);
            let by = 1 + s.us(3);
            let side = if kind == 0 { &mut h.ol } else { &mut h.nl };
            *side = if up { *side + by } else { side.saturating_sub(by) };
            if h == m.hunks[k] {
                if kind == 0 {
                    h.ol += 1
                } else {
                    h.nl += 1
                }
            }
            pc.hunks[k].0 = head(&h);
            if kind == 0 {
                "wrong old count"
            } else {
                "wrong new count"
            }
        }
        2 => {
            let n = pc.hunks[k].1.len();
            pc.hunks[k].1.remove(s.us(n));
            "a body line is missing"
        }
        3 => {
            let n = pc.hunks[k].1.len();
            let t = *s.pick(b" -+");
            let mut l = vec![t];
            l.extend(body_line(s, &[b"x".to_vec()], utf8));
            pc.hunks[k].1.insert(s.us(n + 1), l);
            "a body line too many"
        }
        4 => {
            const BAD: &[&[u8]] = &[
                b"", b"a", b"-1", b"1,", b",1", b"1,2,3", b"0x1", b"1.5", b"18446744073709551616", b"99999999999999999999999", b"\xff",
                b"1,a", b"1,-1", b"1;1", b"\xd9\xa1", b"1,18446744073709551616", b"1,\xff", b"NaN", b"1\t", b"\"1\"", b"1,1,", b"1e2",
            ];
            let bad = s.pick(BAD).to_vec();
            let h = &m.hunks[k];
            let good = |s: usize, n: usize| number_text(s, n, true).into_bytes();
            let (o, n) = if s.chance(1, 2) { (bad, good(h.ns, h.nl)) } else { (good(h.os, h.ol), bad) };
            pc.hunks[k].0 = [b"@@ -", &o[..], b" +", &n[..], b" @@\n"].concat();
            "a range is not a number"
        }
        5 => {
            let h = &m.hunks[k];
            let (o, n) = (number_text(h.os, h.ol, true), number_text(h.ns, h.nl, true));
            let t = match s.us(6) {
                0 => format!("@@ {o} +{n} @@\n"),
                1 => format!("@@ -{o} {n} @@\n"),
                2 => format!("@@ +{o} +{n} @@\n"),
                3 => format!("@@ -{o} -{n} @@\n"),
                4 => format!("@@ +{n} -{o} @@\n"),
                _ => format!("@@ {o} {n} @@\n"),
            };
            pc.hunks[k].0 = t.into_bytes();
            "a range is missing its sign"
        }
        6 => {
            let h = &m.hunks[k];
            let (o, n) = (number_text(h.os, h.ol, true), number_text(h.ns, h.nl, true));
            let tail = *s.pick(&["", " ", " @", "@@", "@ @", " f", " -", "\t@@"]);
            pc.hunks[k].0 = format!("@@ -{o} +{n}{tail}\n").into_bytes();
            "a hunk header is unterminated"
        }
        7 => {
            if m.hunks.len() < 2 {
                return None;
            }
            let k = k.min(m.hunks.len() - 2);
            let j = k + 1 + s.us(m.hunks.len() - k - 1);
            let (x, y) = (&m.hunks[k], &m.hunks[j]);
            if x.os >= y.os && x.ns >= y.ns {
                return None;
            }
            pc.hunks.swap(k, j);
            "hunks are out of order"
        }
        8 | 9 => {
            if m.hunks.len() < 2 {
                return None;
            }
            let k = k.min(m.hunks.len() - 2);
            let (x, mut y) = (m.hunks[k].clone(), m.hunks[k + 1].clone());
            if kind == 8 {
                if x.ol == 0 || y.ol == 0 {
                    return None;
                }
                y.os = x.os + s.us(x.ol);
            } else {
                if x.nl == 0 || y.nl == 0 {
                    return None;
                }
                y.ns = x.ns + s.us(x.nl);
            }
            pc.hunks[k + 1].0 = head(&y);
            if kind == 8 {
                "hunks overlap in the old file"
            } else {
                "hunks overlap in the new file"
            }
        }
        10 => {
            let (a, b) = (b"--- a\n".to_vec(), b"+++ b\n".to_vec());
            pc.names = match s.us(6) {
                0 => vec![a.clone(), a, b],
                1 => vec![a.clone(), b, a],
                2 => vec![a, b.clone(), b],
                3 => vec![a.clone(), a],
                4 => vec![b.clone(), b],
                _ => vec![b.clone(), a, b],
            };
            "a file header is repeated"
        }
        11 => {
            let name: Vec<u8> = match s.us(3) {
                0 => {
                    // unquoted special character
                    let mut n = b"ab".to_vec();
                    let at = s.us(3);
                    n.insert(at, *s.pick(b"\"\\\r\0"));
                    n
                }
                1 => {
                    // invalid escape
                    let c = loop {
                        let c = s.n(128) as u8;
                        if !b"ntr0\"\\\n\t".contains(&c) {
                            break c;
                        }
                    };
                    const LONG: &[&[u8]] = &[
                        b"101", b"303\\251", b"377", b"200", b"x41", b"xff", b"u00e9", b"u{e9}", b"U0001F600", b"1", b"7", b"12", b"a", b"b",
                        b"f", b"v", b"e", b"N", b"T", b"'", b" ", b"x", b"\xc3\xa9", b"/",
                    ];
                    if s.chance(1, 2) {
                        [b"\"a\\", *s.pick(LONG), b"b\""].concat()
                    } else {
                        [b"\"a\\", &[c][..], b"b\""].concat()
                    }
                }
                _ => match s.us(3) {
                    0 => b"\"a\\\"".to_vec(),
                    1 => b"\"a\"b\"".to_vec(),
                    _ => vec![b'"', b'a', *s.pick(b"\r\0"), b'"'],
                },
            };
            let old = s.chance(1, 2);
            let tail = *s.pick(&["\n", "\t\n", "\t2020-01-01\n"]);
            let l = [if old { b"--- " } else { b"+++ " }, &name[..], tail.as_bytes()].concat();
            pc.names = if old { vec![l, b"+++ b\n".to_vec()] } else { vec![b"--- a\n".to_vec(), l] };
            "a file name holds an unquoted special character or an invalid escape"
        }
        12 => {
            let n = pc.hunks[k].1.len();
            let c = loop {
                let c = s.n(if utf8 { 128 } else { 256 }) as u8;
                if !b" -+\\@\n".contains(&c) {
                    break c;
                }
            };
            const ALONE: &[&str] = &["\r", "\t", "x", "\u{a0}", "\u{2003}", "\u{feff}+a", "\u{2212}a", "\u{ff0b}a", "\u{e9}", "\0", "\x0b", "\x1b[31m-a", "'", "\r\r", "\t\r"];
            let mut l = vec![c];
            match s.us(4) {
                0 | 1 => l.extend(body_line(s, &[b"x".to_vec()], utf8)),
                2 => l.push(b'\n'),
                _ => l = format!("{}\n", s.pick(ALONE)).into_bytes(),
            }
            let at = s.us(n);
            if s.chance(1, 2) {
                // instead of a context line or another one
                pc.hunks[k].1[at] = l;
            } else {
                pc.hunks[k].1.insert(at, l);
            }
            "a body line has no valid leading character"
        }
        _ => {
            // lines after a marked one, counts adjusted
            let mut m = m.clone();
            let k = m.hunks.len() - 1;
            let h = &mut m.hunks[k];
            let t = *s.pick(b" -+");
            let then = match t {
                b' ' => *s.pick(b" -+"),
                t => t,
            };
            for l in &mut h.lines {
                if !l.1.ends_with(b"\n") {
                    l.1.push(b'\n');
                }
            }
            // lines of the other side may come before and in between, its last one marked too
            let other = if t == b'-' { b'+' } else { b'-' };
            let around = if t == b' ' { 0 } else { s.us(5) };
            match around {
                1 => h.lines.push((other, b"before".to_vec())),
                2 => h.lines.push((other, b"before\n".to_vec())),
                _ => {}
            }
            h.lines.push((t, b"marked".to_vec()));
            match around {
                3 => h.lines.push((other, b"between\n".to_vec())),
                4 => h.lines.push((other, b"between".to_vec())),
                _ => {}
            }
            h.lines.push((then, if s.chance(1, 3) { b"more".to_vec() } else { b"more\n".to_vec() }));
            let (a, b) = h.counts();
            h.ol = a;
            h.nl = b;
            if h.os == 0 && a > 0 {
                h.os = 1;
            }
            if h.ns == 0 && b > 0 {
                h.ns = 1;
            }
            pc = Pieces::of(&m);
            "lines follow a no-newline marker on the same side"
        }
    };
    Some((pc.text(), what))
}

fn c08(s: &mut Src, cx: &mut Cx) -> Res {
    let Some((text, what)) = broken(s) else {
        cx.class("nothing to break, or the base text is rejected");
        return Ok(());
    };
    cx.class(what);
    cx.input("text", &text);
    cx.mark(true);
    rejected(&text, what)
}

const LISTED: &[&[u8]] = &[
    // the body ends early or the header has no body
    b"@@ -1 +1 @@\n",
    b"@@ -1,2 +1,2 @@\n a\n",
    b"--- a\n+++ b\n@@ -1 +1 @@\n-a\n",
    // markers without a line
    b"@@ -1 +1 @@\n\\ No newline at end of file\n-a\n+b\n",
    b"@@ -1 +1 @@\n-a\n\\ No newline at end of file\n\\ No newline at end of file\n+b\n",
    b"@@ -0,0 +0,0 @@\n\\ No newline at end of file\n",
    // ranges whose end cannot be a number
    b"@@ -18446744073709551615 +1 @@\n-a\n+b\n",
    b"@@ -1 +18446744073709551615,1 @@\n-a\n+b\n",
    b"@@ -1,18446744073709551615 +1 @@\n-a\n+b\n",
    b"@@ -1, +1 @@\n-a\n+b\n",
    // headers
    b"--- a\n--- b\n@@ -1 +1 @@\n-a\n+b\n",
    b"+++ a\n+++ b\n@@ -1 +1 @@\n-a\n+b\n",
    b"--- \"\n+++ b\n@@ -1 +1 @@\n-a\n+b\n",
    b"@@ -1 @@\n-a\n",
    b"@@ -1+1 @@\n-a\n+b\n",
    b"@@ -1 +1\n-a\n+b\n",
    b"@@ -1 +1 @@\n-a\n+b\nx\n",
    b"@@ -1 +1 @@\n-a\n+b\n@@\n",
    b"@@ -1 +1 @@\n-a\n+b\n@x\n",
    b"@@ -2 +2 @@\n-a\n+b\n@@ -1 +1 @@\n-a\n+b\n",
    b"@@ -1 +1 @@\n-a\n+b\n@@ -1 +2 @@\n-a\n+b\n",
    b"@@ -1 +1 @@\n-a\n+b\n@@ -2 +1 @@\n-a\n+b\n",
];

fn c08_listed_n() -> u64 {
    LISTED.len() as u64
}

fn c08_listed(i: u64, cx: &mut Cx) -> Res {
    let t = LISTED[i as usize];
    cx.input("text", t);
    cx.mark(true);
    rejected(t, "malformed")
}

/// Numbers by which a count or a place may be off.
fn offsets() -> &'static [usize] {
    static C: OnceLock<Vec<usize>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = gen::sizes(131_073);
        for k in 17..64 {
            let n = 1usize << k;
            v.extend([n - 1, n, n + 1]);
        }
        v.extend([usize::MAX / 2, usize::MAX - 3, usize::MAX - 2]);
        v.extend(gen::named_numbers());
        v.retain(|n| *n > 0);
        v.sort_unstable();
        v.dedup();
        v
    })
}

fn body_sizes() -> &'static [usize] {
    static C: OnceLock<Vec<usize>> = OnceLock::new();
    C.get_or_init(|| gen::sizes(131_073).into_iter().filter(|n| *n > 0).collect())
}

fn hunk_sizes() -> &'static [usize] {
    static C: OnceLock<Vec<usize>> = OnceLock::new();
    C.get_or_init(|| gen::sizes(5_001).into_iter().filter(|n| *n > 0).collect())
}

const BAD_OFFSETS: u64 = 6;
const BAD_BODIES: u64 = 14;
const BAD_HUNKS: u64 = 6;
const BAD_UNITS: u64 = 14;

pub fn bad_sizes() -> u64 {
    offsets().len() as u64 * BAD_OFFSETS
        + body_sizes().len() as u64 * BAD_BODIES
        + hunk_sizes().len() as u64 * BAD_HUNKS
        + gen::units().len() as u64 * BAD_UNITS
}

/// One fault, with one dimension of every size or with every byte.
pub fn bad_size(mut i: u64) -> Option<Bad> {
    let n = gen::units().len() as u64 * BAD_UNITS;
    if i < n {
        return bad_unit(&gen::units()[(i / BAD_UNITS) as usize], i % BAD_UNITS);
    }
    i -= n;
    let n = hunk_sizes().len() as u64 * BAD_HUNKS;
    if i < n {
        return Some(bad_hunk(hunk_sizes()[(i / BAD_HUNKS) as usize], i % BAD_HUNKS));
    }
    i -= n;
    let n = body_sizes().len() as u64 * BAD_BODIES;
    if i < n {
        return Some(bad_body(body_sizes()[(i / BAD_BODIES) as usize], i % BAD_BODIES));
    }
    i -= n;
    Some(bad_offset(offsets()[(i / BAD_OFFSETS) as usize], i % BAD_OFFSETS))
}

fn c08_sizes(i: u64, cx: &mut Cx) -> Res {
    let Some((text, what)) = bad_size(i) else {
        cx.class("the byte is no fault here");
        return Ok(());
    };
    cx.class(what);
    cx.input("text", &text);
    cx.mark(true);
    rejected(&text, what)
}

pub type Bad = (Vec<u8>, &'static str);

/// Counts and places that are off by d.
fn bad_offset(d: usize, i: u64) -> Bad {
    // an end that no number can hold is a fault too
    let more = 2usize.saturating_add(d);
    match i {
        0 => (format!("@@ -1,{more} +1,2 @@\n a\n b\n").into_bytes(), "wrong old count"),
        1 => (format!("@@ -1,2 +1,{more} @@\n a\n b\n").into_bytes(), "wrong new count"),
        2 => (format!("@@ -1,{more} +1,{more} @@\n a\n b\n").into_bytes(), "wrong counts"),
        3 => (format!("@@ -{} +1 @@\n-a\n+b\n@@ -{d} +5 @@\n-a\n+b\n", d.saturating_add(1)).into_bytes(), "old places out of order"),
        4 => (format!("@@ -1 +{} @@\n-a\n+b\n@@ -5 +{d} @@\n-a\n+b\n", d.saturating_add(1)).into_bytes(), "new places out of order"),
        _ => {
            let h = format!("@@ -{d} +{d} @@\n-a\n+b\n");
            (format!("{h}{h}").into_bytes(), "the same place twice")
        }
    }
}

/// Bodies, names and leading texts of n lines or bytes.
fn bad_body(n: usize, i: u64) -> Bad {
    let body = |l: &str| l.repeat(n);
    let bytes = "n".repeat(n);
    let hunk = "@@ -1 +1 @@\n-a\n+b\n";
    let (t, what) = match i {
        0 => (format!("@@ -0,0 +1,{} @@\n{}", n + 1, body("+a\n")), "a body line too few"),
        1 => (format!("@@ -1,{} +0,0 @@\n{}", n - 1, body("-a\n")), "a body line too many"),
        2 => (format!("@@ -1,{} +1,{n} @@\n{}", n - 1, body(" a\n")), "wrong old count"),
        3 => (format!("@@ -1,{n} +1,{} @@\n{}", n + 1, body("\n")), "wrong new count"),
        4 => (format!("@@ -1,{n} +1,{n} @@\n{}@@ -{n} +{} @@\n-a\n+b\n", body(" a\n"), n + 9), "overlap in the old file"),
        5 => (format!("@@ -1,{n} +1,{n} @@\n{}@@ -{} +{n} @@\n-a\n+b\n", body(" a\n"), n + 9), "overlap in the new file"),
        6 => (format!("--- {bytes}\"\n+++ b\n{hunk}"), "an unquoted special character"),
        7 => (format!("--- a\n+++ {bytes}\r\n{hunk}"), "an unquoted special character"),
        8 => (format!("--- \"{bytes}\\x\"\n+++ b\n{hunk}"), "an invalid escape"),
        9 => (format!("--- a\n+++ \"{bytes}\r\"\n{hunk}"), "a special character not escaped"),
        10 => (format!("{}--- a\n--- a\n{hunk}", body("index\n")), "a repeated file header"),
        11 => (
            format!("@@ -0,0 +1,{} @@\n{}+x\n\\ No newline at end of file\n+y\n", n + 2, body("+a\n")),
            "lines follow a no-newline marker on the same side",
        ),
        12 => (
            format!("@@ -1,2 +1,{n} @@\n-x\n\\ No newline at end of file\n{}-y\n", body("+a\n")),
            "lines follow a no-newline marker on the same side",
        ),
        _ => (format!("@@ -1,{n} +1,{n} @@\n{}x\n", body(" a\n")), "a body line has no valid leading character"),
    };
    (t.into_bytes(), what)
}

/// n hunks of which one is at fault.
fn bad_hunk(n: usize, i: u64) -> Bad {
    let bad = match i % 3 {
        0 => n - 1,
        1 => n / 2,
        _ => 0,
    };
    let mut t = String::new();
    let mut what = "";
    for k in 0..n {
        let at = 3 * k + 1;
        if k != bad {
            t.push_str(&format!("@@ -{at} +{at} @@\n-a\n+b\n"));
        } else if i < 3 {
            t.push_str(&format!("@@ -{at} +{at},2 @@\n-a\n+b\n"));
            what = "wrong new count";
        } else if k + 1 < n {
            // reaches into the next
            t.push_str(&format!("@@ -{at},4 +{at},3 @@\n-a\n a\n a\n a\n"));
            what = "overlap in the old file";
        } else {
            t.push_str(&format!("@@ -{at} +{at} @@\n-a\n+b\n@@ -{at} +{} @@\n-a\n+b\n", at + 9));
            what = "overlap in the old file";
        }
    }
    (t.into_bytes(), what)
}

/// One byte or word where it does not belong.
fn bad_unit(u: &[u8], i: u64) -> Option<Bad> {
    let u1 = u[0];
    let of = |parts: &[&[u8]]| parts.concat();
    match i {
        // as the start of a body line: first, between others, last, or one too many
        0..=3 => {
            if b" -+@\\\n".contains(&u1) {
                return None;
            }
            let t = match i {
                0 => of(&[b"@@ -1,2 +1,2 @@\n", u, b"x\n a\n"]),
                1 => of(&[b"@@ -1,3 +1,3 @@\n a\n", u, b"\n a\n"]),
                2 => of(&[b"@@ -1,2 +1,2 @@\n a\n", u]),
                _ => of(&[b"@@ -1 +1 @@\n-a\n+b\n", u, b"\n"]),
            };
            Some((t, "a body line has no valid leading character"))
        }
        // after a backslash in a quoted name
        4..=5 => {
            if b"nt0r\"\\".contains(&u1) {
                return None;
            }
            let t = match i {
                4 => of(&[b"--- \"\\", u, b"b\"\n+++ b\n@@ -1 +1 @@\n-a\n+b\n"]),
                _ => of(&[b"--- a\n+++ \"a\\", u, b"\"\n@@ -1 +1 @@\n-a\n+b\n"]),
            };
            Some((t, "an invalid escape"))
        }
        // in or for a number, or for a sign
        6..=11 => {
            if u.iter().any(|b| b" @,+-0123456789".contains(b)) {
                return None;
            }
            let t = match i {
                6 => of(&[b"@@ -1", u, b" +1 @@\n-a\n+b\n"]),
                7 => of(&[b"@@ -1 +", u, b"1 @@\n-a\n+b\n"]),
                8 => of(&[b"@@ -1,1", u, b" +1 @@\n-a\n+b\n"]),
                9 => of(&[b"@@ -1 +1,", u, b" @@\n-a\n+b\n"]),
                10 => of(&[b"@@ ", u, b"1 +1 @@\n-a\n+b\n"]),
                _ => of(&[b"@@ -1 ", u, b"1 @@\n-a\n+b\n"]),
            };
            Some((t, "a range is not a number or is missing its sign"))
        }
        // next to a special character in a name without quotes
        _ => {
            if u.contains(&b'\t') || u1 == b'"' {
                return None;
            }
            let t = match i {
                12 => of(&[b"--- ", u, b"\0\n+++ b\n@@ -1 +1 @@\n-a\n+b\n"]),
                _ => of(&[b"--- a\n+++ ", u, b"\\x\n@@ -1 +1 @@\n-a\n+b\n"]),
            };
            Some((t, "an unquoted special character"))
        }
    }
}

// ---------------------------------------------------------------- C09

fn c09_exercise(text: &[u8], bases: &[Vec<u8>], cx: &mut Cx) -> Res {
    let pb = Patch::from_bytes(text);
    match &pb {
        Ok(p) => {
            cx.class("accepted");
            cx.class_if(!p.hunks().is_empty(), "accepted with a hunk");
            cx.mark(!p.hunks().is_empty());
            let _ = format!("{p:?}");
            let r = p.reverse();
            let rr = r.reverse();
            for q in [p, &r, &rr, &p.clone()] {
                for h in q.hunks() {
                    for x in [h.old_range(), h.new_range()] {
                        let _ = (x.start(), x.end(), x.len(), x.is_empty(), x.range(), x.to_string());
                    }
                    let _ = (h.lines().len(), h.function_context(), h.clone().reverse());
                }
                for i in 0..8u8 {
                    let mut f = PatchFormatter::new().missing_newline_message(i & 1 == 0).suppress_blank_empty(i & 2 == 0);
                    if i & 4 != 0 {
                        f = f.with_color();
                    }
                    let mut v = Vec::new();
                    f.write_patch_into(q, &mut v).map_err(|e| format!("write_patch_into: {e}"))?;
                    let _ = Patch::from_bytes(&v).map(|p| p.hunks().len());
                }
                for b in bases {
                    if let Err(e) = apply_bytes(b, q) {
                        let _ = format!("{e} {e:?}");
                    }
                }
            }
            // the text the patch itself describes
            let m = observe_b(p);
            for pick in [false, true] {
                let mut t = Vec::new();
                for h in &m.hunks {
                    for l in if pick { h.post() } else { h.pre() } {
                        t.extend_from_slice(l);
                    }
                }
                let _ = apply_bytes(&t, p).map(|v| v.len());
                let _ = apply_bytes(&t, &r).map(|v| v.len());
            }
        }
        Err(e) => {
            cx.class("rejected");
            let _ = format!("{e} {e:?}");
            cx.mark(text.windows(3).any(|w| w == b"@@ "));
        }
    }
    if let Some(t) = st(text) {
        match Patch::from_str(t) {
            Ok(p) => {
                let _ = format!("{p:?} {p}");
                let r = p.reverse();
                for q in [&p, &r] {
                    for i in 0..8u8 {
                        let mut f = PatchFormatter::new().missing_newline_message(i & 1 == 0).suppress_blank_empty(i & 2 == 0);
                        if i & 4 != 0 {
                            f = f.with_color();
                        }
                        let t = f.fmt_patch(q).to_string();
                        let _ = Patch::from_str(&t).map(|p| p.hunks().len());
                    }
                    for b in bases {
                        if let Some(b) = st(b) {
                            let _ = apply(b, q).map(|t| t.len());
                        }
                    }
                }
            }
            Err(e) => {
                let _ = format!("{e} {e:?}");
            }
        }
    }
    Ok(())
}

fn c09_bases(s: &mut Src) -> Vec<Vec<u8>> {
    let utf8 = gen::utf8(s);
    let alpha = gen::alphabet(s, utf8);
    let l = gen::lines(s, &alpha, 6, 2);
    vec![Vec::new(), gen::join(&l, gen::final_nl(s))]
}

fn c09_bytes(s: &mut Src, cx: &mut Cx) -> Res {
    let mut v = Vec::new();
    match s.us(3) {
        0 => {
            while s.more(30) {
                v.push(s.n(256) as u8);
            }
        }
        1 => {
            while s.more(40) {
                v.push(*s.pick(b"@ -+,0123456789\n\n\\\"\t\rab\xc3\xa9"));
            }
        }
        _ => {
            v.extend_from_slice(b"@@ -");
            while s.more(20) {
                v.push(*s.pick(b"@ -+,0189\n\n\\\"\ta\xff"));
            }
        }
    }
    let b = c09_bases(s);
    cx.input("text", &v);
    c09_exercise(&v, &b, cx)
}

fn c09_tokens(s: &mut Src, cx: &mut Cx) -> Res {
    const T: &[&str] = &[
        "--- ", "+++ ", "@@ ", " @@", "\n", "@@ -1 +1 @@\n", "@@ -1,2 +1,2 @@ f\n", "@@ -0,0 +1 @@\n", "@@ -1 +0,0 @@\n", "-a\n", "+a\n", " a\n",
        "-\n", "+\n", " \n", "\n", "\\ No newline at end of file\n", "\\ No newline at end of file", "\\", "@", "a", "\"", "\t", "\"a\"", "\\n", "\u{e9}",
        "diff --git a b\n", "--- a\n+++ b\n", "--- a\n", "+++ b\n", "--- \"\\", "-", "+", " ",
    ];
    let mut v = Vec::new();
    while s.more(8) {
        match s.weighted(&[6, 2, 2, 1]) {
            0 => v.extend_from_slice(s.pick(T).as_bytes()),
            1 => {
                let h = format!("@@ -{},{} +{},{} @@\n", number(s), number(s), number(s), number(s));
                v.extend_from_slice(h.as_bytes());
            }
            2 => {
                // a header whose counts fit the body, at an extreme place
                let (o, n) = (s.us(3), s.us(3));
                let h = format!("@@ -{},{o} +{},{n} @@\n", number(s), number(s));
                v.extend_from_slice(h.as_bytes());
                for _ in 0..o {
                    v.extend_from_slice(b"-a\n");
                }
                for _ in 0..n {
                    v.extend_from_slice(b"+b\n");
                }
            }
            _ => v.push(s.n(256) as u8),
        }
    }
    let b = c09_bases(s);
    cx.input("text", &v);
    c09_exercise(&v, &b, cx)
}

/// File headers and hunk headers put together from pieces, everything else being in order.
fn c09_headers(s: &mut Src, cx: &mut Cx) -> Res {
    const P: &[&str] = &[
        "a", "\"", "\\", "\\n", "\\t", "\\r", "\\0", "\\\"", "\\\\", "\\377", "\\303\\251", "\\101", "\\8", "\\18", "\\x41", "\\xff", "\\u00e9",
        "\\u{e9}", "\\u{110000}", "\\U0001F600", "\\a", "\\'", "\\ ", "\u{e9}", "\u{1F600}", "\u{2028}", "\t", "\r", "\0", "\x1b[0m", " ", "  ", "/",
        "b/", "%", "{}", "-", "+", "@@", "--- ", "/dev/null", "2020-01-01 00:00:00",
    ];
    const H: &[&str] = &[
        "-", "+", " ", ",", "1", "0", "2", " @@", "@@", "@", "\t", "f", " f", "\u{e9}", "\u{660}", "\u{1F600}", "18446744073709551615", "-1,1", "+1,1",
    ];
    let text = |s: &mut Src, p: &[&str], avg: u64, raw: bool| -> Vec<u8> {
        let mut v = Vec::new();
        while s.more(avg) {
            if raw && s.chance(1, 8) {
                v.push(s.n(256) as u8);
            } else {
                v.extend_from_slice(s.pick(p).as_bytes());
            }
        }
        v
    };
    let raw = s.chance(1, 3);
    let mut v = Vec::new();
    for pre in ["--- ", "+++ "] {
        if s.chance(1, 6) {
            continue;
        }
        v.extend_from_slice(pre.as_bytes());
        let name = text(s, P, 3, raw);
        match s.us(4) {
            0 => v.extend(name),
            1 => {
                v.push(b'"');
                v.extend(name);
            }
            _ => {
                v.push(b'"');
                v.extend(name);
                v.push(b'"');
            }
        }
        if s.chance(1, 4) {
            v.push(b'\t');
            v.extend(text(s, P, 2, raw));
        }
        if !s.chance(1, 12) {
            v.push(b'\n');
        }
    }
    for i in 0..s.us(3) {
        match s.us(3) {
            0 => v.extend_from_slice(format!("@@ -{0} +{0} @@", i + 1).as_bytes()),
            1 => {
                v.extend_from_slice(format!("@@ -{0} +{0} @@", i + 1).as_bytes());
                v.extend(text(s, P, 2, raw));
            }
            _ => {
                v.extend_from_slice(b"@@ ");
                v.extend(text(s, H, 6, raw));
            }
        }
        v.extend_from_slice(b"\n-a\n+b\n");
    }
    let b = c09_bases(s);
    cx.input("text", &v);
    c09_exercise(&v, &b, cx)
}

fn c09_mutated(s: &mut Src, cx: &mut Cx) -> Res {
    let (v, _) = mutated(s);
    let b = c09_bases(s);
    cx.input("text", &v);
    c09_exercise(&v, &b, cx)
}

fn c09_sizes(i: u64, cx: &mut Cx) -> Res {
    let (o, a, b) = sized_triple(i);
    input_pair(cx, &o, &a, 3);
    cx.input("theirs", &b);
    cx.mark(o != a && o != b);
    for n in [[0, 3, usize::MAX][i as usize % 3]] {
        let p = opts(n).create_patch_bytes(&o, &a);
        let _ = apply_bytes(&b, &p).map(|v| v.len());
        let _ = apply_bytes(&b, &p.reverse()).map(|v| v.len());
        let t = p.to_bytes();
        let _ = Patch::from_bytes(&t).map(|p| p.hunks().len());
    }
    let _ = diffy::merge_bytes(&o, &a, &b).map(|v| v.len());
    if let (true, Some(o), Some(a), Some(b)) = (o.len() < 40_000, st(&o), st(&a), st(&b)) {
        let p = opts(3).create_patch(o, a);
        let _ = apply(b, &p).map(|v| v.len());
        let _ = p.to_string().len();
        let _ = diffy::merge(o, a, b).map(|v| v.len());
    }
    Ok(())
}

fn c09_parsed_sizes(i: u64, cx: &mut Cx) -> Res {
    let t = write_plain(&sized_model(i));
    cx.input("text", &t);
    cx.mark(true);
    let base = vec![b"x\n".to_vec(); 40].concat();
    // also cut short
    for t in [&t[..], &t[..t.len().saturating_sub(1)], &t[..t.len() * 2 / 3]] {
        if let Ok(p) = Patch::from_bytes(t) {
            let _ = apply_bytes(&base, &p).map(|v| v.len());
            let _ = apply_bytes(&base, &p.reverse()).map(|v| v.len());
            let _ = p.to_bytes().len();
        }
        if let Some(Ok(p)) = st(t).map(Patch::from_str) {
            let _ = apply(st(&base).unwrap_or(""), &p).map(|v| v.len());
            let _ = PatchFormatter::new().with_color().fmt_patch(&p).to_string().len();
        }
    }
    Ok(())
}

fn c09_texts(s: &mut Src, cx: &mut Cx) -> Res {
    let t = gen::triple(s);
    let n = gen::context_len(s);
    let len = match s.us(5) {
        0 => 7,
        1 => 0,
        2 => 1,
        3 => s.us(40),
        _ => 70_000,
    };
    input_pair(cx, &t.o, &t.a, n);
    cx.input("theirs", &t.b);
    cx.input_n("marker length", len as u64);
    cx.mark(t.o != t.a && t.o != t.b);
    let p = opts(n).create_patch_bytes(&t.o, &t.a);
    let _ = apply_bytes(&t.b, &p).map(|v| v.len());
    let _ = apply_bytes(&t.b, &p.reverse()).map(|v| v.len());
    let _ = p.to_bytes();
    let mut m = MergeOptions::new();
    m.set_conflict_marker_length(len);
    if s.chance(1, 2) {
        m.set_conflict_style(ConflictStyle::Merge);
    }
    let _ = m.merge_bytes(&t.o, &t.a, &t.b).map(|v| v.len());
    if let (Some(o), Some(a), Some(b)) = (st(&t.o), st(&t.a), st(&t.b)) {
        let p = opts(n).create_patch(o, a);
        let _ = apply(b, &p).map(|v| v.len());
        let _ = m.merge(o, a, b).map(|v| v.len());
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

fn sound(p: &RPatch) -> Res {
    for (k, h) in p.hunks.iter().enumerate() {
        let (o, n) = h.counts();
        check(h.ol == o, || format!("hunk {}: old range has {} lines, the body {o}", k + 1, h.ol))?;
        check(h.nl == n, || format!("hunk {}: new range has {} lines, the body {n}", k + 1, h.nl))?;
        if k > 0 {
            let g = &p.hunks[k - 1];
            check(g.os + g.ol <= h.os && g.ns + g.nl <= h.ns, || format!("hunks {k} and {} overlap or are out of order", k + 1))?;
        }
        for (_, l) in &h.lines {
            let nl = l.iter().filter(|b| **b == b'\n').count();
            check(nl == 0 || (nl == 1 && l.ends_with(b"\n")), || format!("hunk {} holds a line with a newline inside", k + 1))?;
        }
    }
    Ok(())
}

macro_rules! ranges_agree {
    ($p:expr) => {
        for (k, h) in $p.hunks().iter().enumerate() {
            for (n, x) in [("old", h.old_range()), ("new", h.new_range())] {
                check(
                    x.end() == x.start() + x.len() && x.range() == (x.start()..x.end()) && x.is_empty() == (x.len() == 0),
                    || {
                        format!(
                            "hunk {}: {n} range start {}, end {}, len {}, empty {}, range {:?}",
                            k + 1,
                            x.start(),
                            x.end(),
                            x.len(),
                            x.is_empty(),
                            x.range()
                        )
                    },
                )?;
                let want = if x.len() == 1 { format!("{}", x.start()) } else { format!("{},{}", x.start(), x.len()) };
                check(x.to_string() == want, || format!("hunk {}: {n} range shows as {x}", k + 1))?;
            }
        }
    };
}

fn sound_b(p: &Patch<'_, [u8]>) -> Res {
    sound(&observe_b(p))?;
    ranges_agree!(p);
    let r = p.reverse();
    sound(&observe_b(&r)).map_err(|e| format!("reversed: {e}"))?;
    ranges_agree!(r);
    check(r.original() == p.modified() && r.modified() == p.original(), || "reversing does not exchange the names".into())?;
    Ok(())
}

fn sound_s(p: &Patch<'_, str>) -> Res {
    sound(&observe_s(p))?;
    ranges_agree!(p);
    let r = p.reverse();
    sound(&observe_s(&r)).map_err(|e| format!("reversed: {e}"))?;
    ranges_agree!(r);
    check(r.original() == p.modified() && r.modified() == p.original(), || "reversing does not exchange the names".into())?;
    Ok(())
}

fn c21_pair(a: &[u8], b: &[u8], n: usize, names: Option<(String, String)>, cx: &mut Cx) -> Res {
    let mut o = opts(n);
    let (na, nb) = match &names {
        Some((x, y)) => {
            o.set_original_filename(x.clone()).set_modified_filename(y.clone());
            (x.as_str(), y.as_str())
        }
        None => ("original", "modified"),
    };
    let p = o.create_patch_bytes(a, b);
    cx.mark(!p.hunks().is_empty());
    check(p.original() == Some(na.as_bytes()) && p.modified() == Some(nb.as_bytes()), || {
        format!("the patch is named {:?} and {:?}, not {na:?} and {nb:?}", p.original(), p.modified())
    })?;
    sound_b(&p)?;
    if let (Some(a), Some(b)) = (st(a), st(b)) {
        let p = o.create_patch(a, b);
        check(p.original() == Some(na) && p.modified() == Some(nb), || {
            format!("the str patch is named {:?} and {:?}, not {na:?} and {nb:?}", p.original(), p.modified())
        })?;
        sound_s(&p)?;
        let d = diffy::create_patch(a, b);
        check(d.original() == Some("original") && d.modified() == Some("modified"), || "create_patch has other default names".into())?;
    }
    let d = diffy::create_patch_bytes(a, b);
    check(d.original() == Some(b"original") && d.modified() == Some(b"modified"), || {
        "create_patch_bytes has other default names".into()
    })?;
    sound_b(&d)
}

fn c21_created(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::pair(s);
    let n = gen::context_len(s);
    let names = if s.chance(1, 2) { Some((gen::filename(s), gen::filename(s))) } else { None };
    input_pair(cx, &p.a, &p.b, n);
    if let Some((x, y)) = &names {
        cx.input("original name", x.as_bytes());
        cx.input("modified name", y.as_bytes());
    }
    c21_pair(&p.a, &p.b, n, names, cx)
}

fn c21_huge(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::huge(s);
    let n = gen::context_len(s);
    input_pair(cx, &p.a, &p.b, n);
    c21_pair(&p.a, &p.b, n, None, cx)
}

fn c21_sizes(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = sized_pair(i);
    input_pair(cx, &a, &b, n);
    c21_pair(&a, &b, n, None, cx)
}

fn c21_small(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = small_pair(i);
    input_pair(cx, a, b, n);
    c21_pair(a, b, n, None, cx)
}

fn c21_text(text: &[u8], cx: &mut Cx) -> Res {
    cx.input("text", text);
    if let Ok(p) = Patch::from_bytes(text) {
        cx.mark(!p.hunks().is_empty());
        cx.class("accepted");
        sound_b(&p)?;
    } else {
        cx.class("rejected");
    }
    if let Some(t) = st(text) {
        if let Ok(p) = Patch::from_str(t) {
            sound_s(&p)?;
        }
    }
    Ok(())
}

fn c21_parsed(s: &mut Src, cx: &mut Cx) -> Res {
    let utf8 = gen::utf8(s);
    let m = model_odd(s, utf8);
    let t = write_any(s, &m, utf8);
    c21_text(&t, cx)
}

fn c21_parsed_sizes(i: u64, cx: &mut Cx) -> Res {
    c21_text(&write_plain(&sized_model(i)), cx)
}

fn c21_mutated(s: &mut Src, cx: &mut Cx) -> Res {
    let (t, _) = mutated(s);
    c21_text(&t, cx)
}

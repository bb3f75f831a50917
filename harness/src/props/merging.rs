//! Properties of three-way merges: C13 to C17.

use super::*;
use crate::refm::*;
use diffy::{merge, merge_bytes, ConflictStyle, MergeOptions, Patch};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            rule: "an ancestor and one version (pairs as in C01), merged with the ancestor or with itself on the other side, under default and random options. Non-trivial: the version differs from the ancestor",
            parts: vec![
                rnd("pairs", 150_000, 6_000_000, c13_random),
                rnd("huge", 32, 1_280, c13_huge),
                enm("small", pairs_quick, pairs_thorough, c13_small),
                enm("sizes and bytes", sized_pairs, sized_pairs, c13_sizes),
            ],
        },
        Prop {
            id: "C14",
            rule: "an ancestor built of regions separated by one or more lines that occur once and stay unchanged; each region is edited by one side, by both in the same way, or by none; the result is known by construction; and regions and separators of every size of a grid, with every byte and word of a list. Non-trivial: both sides have an edit the other has not, or share one",
            parts: vec![rnd("regions", 1_000_000, 40_000_000, c14), rnd("many", 5_000, 200_000, c14_many), enm("sizes and bytes", c14_sizes_n, c14_sizes_n, c14_sizes)],
        },
        Prop {
            id: "C15",
            rule: "an ancestor and two versions (random small-alphabet texts, edited copies, versions sharing edits, long texts, every triple of small texts), compared with an independent three-way merge of the two line diffs; and triples of texts with unique lines, where the alignment is known without any diff. Non-trivial: the two versions differ from the ancestor and from each other",
            parts: vec![
                rnd("triples", 350_000, 14_000_000, c15_random),
                rnd("unique", 500_000, 20_000_000, c15_unique),
                rnd("git merge-file", 4_000, 160_000, tools::c15_tools),
                rnd("huge", 48, 1_920, c15_huge),
                enm("small", triples_quick, triples_thorough, c15_small),
                enm("sizes and bytes", sized_triples, sized_triples, c15_sizes),
            ],
        },
        Prop {
            id: "C16",
            rule: "triples as in C15. Non-trivial: the versions differ from the ancestor and from each other",
            parts: vec![
                rnd("triples", 300_000, 12_000_000, c16_random),
                rnd("huge", 40, 1_600, c16_huge),
                enm("small", triples_quick, triples_thorough, c16_small),
                enm("sizes and bytes", sized_triples, sized_triples, c16_sizes),
            ],
        },
        Prop {
            id: "C17",
            rule: "triples as in C15 merged with two marker lengths (0 to 12, 70000) and both styles. Non-trivial: the merge conflicts",
            parts: vec![
                rnd("triples", 200_000, 8_000_000, c17_random),
                enm("small", triples_quick, triples_thorough, c17_small),
                enm("sizes and bytes", sized_triples, sized_triples, c17_sizes),
                enm("lengths", c17_lengths_n, c17_lengths_n, c17_lengths),
            ],
        },
        Prop {
            id: "C29",
            rule: "histories of a trunk and up to four branches: a branch rewrites regions of its own, is merged into the trunk or takes the trunk in, each merge with the version both sides share as its ancestor and either side as ours; in the end all branches are merged in two orders, and the stored patches of the trunk are undone. The expected text is the model's newest content of every region. Non-trivial: at least two branches with edits were merged into the trunk",
            parts: vec![rnd("histories", 500_000, 20_000_000, c29), rnd("long histories", 6_000, 240_000, c29_long)],
        },
    ]
}

pub fn mo(len: usize, diff3: bool) -> MergeOptions {
    let mut m = MergeOptions::new();
    m.set_conflict_marker_length(len)
        .set_conflict_style(if diff3 { ConflictStyle::Diff3 } else { ConflictStyle::Merge });
    m
}

pub fn flat<T: Into<Vec<u8>>>(r: Result<T, T>) -> Result<Vec<u8>, Vec<u8>> {
    match r {
        Ok(v) => Ok(v.into()),
        Err(v) => Err(v.into()),
    }
}

fn show_merge(r: &Result<Vec<u8>, Vec<u8>>) -> String {
    match r {
        Ok(v) => format!("Ok {}", clip(v)),
        Err(v) => format!("conflict {}", clip(v)),
    }
}

pub fn same_merge(what: &str, got: &Result<Vec<u8>, Vec<u8>>, want: &Result<Vec<u8>, Vec<u8>>) -> Res {
    check(got == want, || format!("{what}:\n  got:  {}\n  want: {}", show_merge(got), show_merge(want)))
}

fn clean(what: &str, got: Result<Vec<u8>, Vec<u8>>, want: &[u8]) -> Res {
    match got {
        Ok(v) => same(what, &v, want),
        Err(v) => Err(format!("{what}: conflict\n  got:  {}\n  want: {}", clip(&v), clip(want))),
    }
}

pub fn input_triple(cx: &mut Cx, o: &[u8], a: &[u8], b: &[u8]) {
    cx.input("ancestor", o);
    cx.input("ours", a);
    cx.input("theirs", b);
    let raw = [o, a, b].iter().filter(|t| !t.is_empty() && !t.ends_with(b"\n")).count();
    cx.class_if(raw > 0, "a text lacks its final newline");
    cx.class_if([o, a, b].iter().any(|t| t.is_empty()), "an empty text");
    cx.class_if([o, a, b].iter().any(|t| st(t).is_none()), "not UTF-8");
    cx.class_if(o.len() > 5_000, "large");
}

// ---------------------------------------------------------------- C13

fn c13_check(o: &[u8], v: &[u8], n: usize, cx: &mut Cx) -> Res {
    cx.mark(o != v);
    cx.class_if(o == v, "version equals ancestor");
    let all = [("ours changed", o, v, o), ("theirs changed", o, o, v), ("both changed alike", o, v, v)];
    for (what, o, a, b) in all {
        clean(what, merge_bytes(o, a, b), v)?;
        clean(what, mo(n % 13, n % 2 == 0).merge_bytes(o, a, b), v)?;
        if let (Some(o), Some(a), Some(b)) = (st(o), st(a), st(b)) {
            clean(&format!("str: {what}"), flat(merge(o, a, b)), v)?;
            clean(&format!("str: {what}"), flat(mo(n % 13, n % 2 == 0).merge(o, a, b)), v)?;
        }
    }
    Ok(())
}

fn c13_random(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::pair(s);
    let n = s.us(40);
    cx.input("ancestor", &p.a);
    cx.input("version", &p.b);
    c13_check(&p.a, &p.b, n, cx)
}

fn c13_huge(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::huge(s);
    cx.input("ancestor", &p.a);
    cx.input("version", &p.b);
    c13_check(&p.a, &p.b, 7, cx)
}

fn c13_sizes(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = sized_pair(i);
    cx.input("ancestor", &a);
    cx.input("version", &b);
    c13_check(&a, &b, n, cx)
}

fn c13_small(i: u64, cx: &mut Cx) -> Res {
    let (a, b, n) = small_pair(i);
    cx.input("ancestor", a);
    cx.input("version", b);
    c13_check(a, b, n, cx)
}

// ---------------------------------------------------------------- C14

const SPECIAL: &[&[u8]] = &[
    b"", b" ", b"\t", b"\r", b"}", b"{", b"*/", b"#", b"//", b"--", b"=======", b"<<<<<<< ours", b"||||||| original",
    b">>>>>>> theirs", b"\\ No newline at end of file", b"@@ -1 +1 @@", b"+", b"-", b"end", b"\xef\xbb\xbf",
];

fn c14(s: &mut Src, cx: &mut Cx) -> Res {
    let k = 1 + s.us(6);
    c14_regions(s, cx, k)
}
fn c14_many(s: &mut Src, cx: &mut Cx) -> Res {
    let k = 40 + s.us(300);
    c14_regions(s, cx, k)
}

fn c14_regions(s: &mut Src, cx: &mut Cx, regions: usize) -> Res {
    let utf8 = gen::utf8(s);
    // each region has its own line contents, so that nothing can be aligned across regions
    let style = s.us(3);
    // lines that a careless merge may see as no line, or as a marker: either as separators, each of
    // them at most once, or as the lines of one region
    let mut special: Vec<&[u8]> = SPECIAL.to_vec();
    let special_region = if s.chance(1, 3) { Some(s.us(regions)) } else { None };
    let special_anchors = special_region.is_none() && s.chance(1, 2);
    let own = |s: &mut Src, r: usize, utf8: bool| -> gen::Line {
        if Some(r) == special_region {
            return s.pick(SPECIAL).to_vec();
        }
        let mut l = format!("r{r} ").into_bytes();
        match style {
            0 => l.push(b'a' + s.n(2) as u8),
            1 => l.push(b'a' + s.n(6) as u8),
            _ => l.extend(gen::content(s, utf8)),
        }
        l
    };
    let mut anchors = 0;
    let mut anchor = |s: &mut Src, out: [&mut Vec<gen::Line>; 4]| {
        let n = 1 + if s.chance(1, 3) { s.us(5) } else { 0 };
        let [o, a, b, w] = out;
        for _ in 0..n {
            anchors += 1;
            let l = if special_anchors && !special.is_empty() && s.chance(1, 2) {
                special.remove(s.us(special.len())).to_vec()
            } else {
                format!("anchor {anchors}").into_bytes()
            };
            for t in [&mut *o, &mut *a, &mut *b, &mut *w] {
                t.push(l.clone());
            }
        }
    };
    let (mut o, mut a, mut b, mut w) = (vec![], vec![], vec![], vec![]);
    let (mut ours, mut theirs, mut both) = (0, 0, 0);
    if s.chance(2, 3) {
        anchor(s, [&mut o, &mut a, &mut b, &mut w]);
    }
    for r in 0..regions {
        let kind = s.weighted(&[3, 3, 2, 1]);
        let shared = kind == 2;
        let (base, new) = if shared {
            // both sides make the same edit: distinct lines, whose order is kept, so that there is
            // only one shortest line diff of the region and both sides' diffs must agree on it
            let base: Vec<gen::Line> = (0..s.us(5)).map(|i| format!("r{r} {i}").into_bytes()).collect();
            let mut new = vec![];
            for i in 0..=base.len() {
                while s.chance(1, 4) {
                    new.push(format!("r{r} new {}", new.len()).into_bytes());
                }
                if i < base.len() && !s.chance(1, 3) {
                    new.push(base[i].clone());
                }
            }
            (base, new)
        } else {
            let base: Vec<gen::Line> = (0..s.us(5)).map(|_| own(s, r, utf8)).collect();
            let mut new: Vec<gen::Line> = match s.us(4) {
                0 => vec![],
                1 => {
                    let mut v = base.clone();
                    let at = s.us(v.len() + 1);
                    v.insert(at, own(s, r, utf8));
                    v
                }
                _ => (0..s.us(5)).map(|_| own(s, r, utf8)).collect(),
            };
            if new == base && s.chance(3, 4) {
                new.push(own(s, r, utf8));
            }
            (base, new)
        };
        let (va, vb) = match kind {
            0 => (&new, &base),
            1 => (&base, &new),
            2 => (&new, &new),
            _ => (&base, &base),
        };
        let (ca, cb) = (*va != base, *vb != base);
        ours += usize::from(ca && !cb);
        theirs += usize::from(cb && !ca);
        both += usize::from(ca && cb);
        o.extend(base.clone());
        a.extend(va.clone());
        b.extend(vb.clone());
        w.extend(if ca { va.clone() } else { vb.clone() });
        if r + 1 < regions || s.chance(2, 3) {
            anchor(s, [&mut o, &mut a, &mut b, &mut w]);
        }
    }
    // one side may change the final newline of a last line that only it touches: keep it simple
    // and let all texts agree on it when they end in the same line
    let same_end = o.last() == a.last() && o.last() == b.last() && o.last().is_some() && w.last() == o.last();
    let unique_end = o.last().map_or(false, |l| l.starts_with(b"anchor"));
    let nl = !(same_end && unique_end && s.chance(1, 3));
    let (o, a, b, w) = (gen::join(&o, nl), gen::join(&a, nl), gen::join(&b, nl), gen::join(&w, nl));
    input_triple(cx, &o, &a, &b);
    cx.class_if(ours > 0 && theirs > 0, "both sides edit");
    cx.class_if(both > 0, "a shared edit");
    cx.mark((ours > 0 && theirs > 0) || both > 0);
    clean("merge_bytes", merge_bytes(&o, &a, &b), &w)?;
    clean("merge style", mo(3, false).merge_bytes(&o, &a, &b), &w)?;
    if let (Some(o), Some(a), Some(b)) = (st(&o), st(&a), st(&b)) {
        clean("merge", flat(merge(o, a, b)), &w)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C29

type Region = Vec<gen::Line>;

/// Merge with either side as ours, through either interface and under some options.
fn merged(s: &mut Src, what: &str, o: &[u8], x: &[u8], y: &[u8], want: &[u8]) -> Res {
    let (a, b) = if s.chance(1, 2) { (x, y) } else { (y, x) };
    let m = mo(s.us(10), s.chance(1, 2));
    match (s.us(4), st(o), st(a), st(b)) {
        (0, Some(o), Some(a), Some(b)) => clean(what, flat(merge(o, a, b)), want),
        (1, Some(o), Some(a), Some(b)) => clean(what, flat(m.merge(o, a, b)), want),
        (2, ..) => clean(what, m.merge_bytes(o, a, b), want),
        _ => clean(what, merge_bytes(o, a, b), want),
    }
}

fn c29(s: &mut Src, cx: &mut Cx) -> Res {
    let steps = 1 + s.us(12);
    let regions = 2 + s.us(6);
    c29_history(s, cx, steps, regions, 4)
}
fn c29_long(s: &mut Src, cx: &mut Cx) -> Res {
    let steps = 30 + s.us(60);
    let regions = 4 + s.us(60);
    c29_history(s, cx, steps, regions, 9)
}

fn c29_history(s: &mut Src, cx: &mut Cx, steps: usize, regions: usize, most: usize) -> Res {
    let utf8 = gen::utf8(s);
    let style = s.us(3);
    let line = |s: &mut Src, r: usize| -> gen::Line {
        let mut l = format!("r{r} ").into_bytes();
        match style {
            0 => l.push(b'a' + s.n(2) as u8),
            1 => l.push(b'a' + s.n(6) as u8),
            _ => l.extend(gen::content(s, utf8)),
        }
        l
    };
    // separators: before the first region and behind the last one only sometimes
    let (head, tail) = (s.chance(1, 2), s.chance(1, 2));
    let gaps: Vec<usize> = (0..=regions).map(|_| 1 + if s.chance(1, 4) { s.us(8) } else { 0 }).collect();
    let final_nl = !tail || s.chance(3, 4);
    let text = |v: &[Region]| -> Vec<u8> {
        let mut out = vec![];
        for (r, region) in v.iter().enumerate() {
            if r > 0 || head {
                out.extend((0..gaps[r]).map(|k| format!("separator {r} {k}").into_bytes()));
            }
            out.extend(region.iter().cloned());
        }
        if tail {
            out.extend((0..gaps[regions]).map(|k| format!("separator {regions} {k}").into_bytes()));
        }
        gen::join(&out, final_nl)
    };
    let branches = 2 + s.us(most - 1);
    let owner: Vec<usize> = (0..regions).map(|_| s.us(branches)).collect();
    let fresh = |s: &mut Src, r: usize| -> Region { (0..s.us(5)).map(|_| line(s, r)).collect() };
    let first: Vec<Region> = (0..regions).map(|r| fresh(s, r)).collect();
    let mut trunk = first.clone();
    let mut branch = vec![first.clone(); branches];
    // what trunk and each branch share
    let mut base = vec![text(&first); branches];
    let mut edited = vec![false; branches];
    let mut published = vec![false; branches];
    let (mut updates, mut publishes) = (0, 0);
    let mut store: Vec<Vec<u8>> = vec![];
    cx.input("first version", &text(&first));
    cx.input_n("branches", branches as u64);
    for k in 0..steps {
        let b = s.us(branches);
        match s.us(4) {
            0 => {
                let (t, v) = (text(&trunk), text(&branch[b]));
                let mut next = trunk.clone();
                for r in (0..regions).filter(|r| owner[*r] == b) {
                    next[r] = branch[b][r].clone();
                }
                let want = text(&next);
                cx.note("step", || format!("trunk takes in branch {b}"));
                merged(s, &format!("step {k}: trunk takes in branch {b}"), &base[b], &t, &v, &want)?;
                if want != t {
                    store.push(diffy::create_patch_bytes(&t, &want).to_bytes());
                }
                trunk = next;
                base[b] = v;
                published[b] |= edited[b];
                publishes += 1;
            }
            1 => {
                let (t, v) = (text(&trunk), text(&branch[b]));
                let mut next = branch[b].clone();
                for r in (0..regions).filter(|r| owner[*r] != b) {
                    next[r] = trunk[r].clone();
                }
                cx.note("step", || format!("branch {b} takes in trunk"));
                merged(s, &format!("step {k}: branch {b} takes in trunk"), &base[b], &v, &t, &text(&next))?;
                branch[b] = next;
                base[b] = t;
                updates += 1;
            }
            _ => {
                for r in 0..regions {
                    if owner[r] == b && s.chance(1, 2) {
                        branch[b][r] = match s.us(3) {
                            // a line more or less
                            0 => {
                                let mut v = branch[b][r].clone();
                                let at = s.us(v.len() + 1);
                                v.insert(at, line(s, r));
                                v
                            }
                            1 if !branch[b][r].is_empty() => {
                                let mut v = branch[b][r].clone();
                                v.remove(s.us(v.len()));
                                v
                            }
                            _ => fresh(s, r),
                        };
                        edited[b] = true;
                    }
                }
                let v = text(&branch[b]);
                cx.input("branch rewritten", &v);
                cx.input_n("branch", b as u64);
            }
        }
    }
    // everything in, one after the other, in two orders
    let mut all = trunk.clone();
    for r in 0..regions {
        all[r] = branch[owner[r]][r].clone();
    }
    let want = text(&all);
    for round in 0..2 {
        let mut order: Vec<usize> = (0..branches).collect();
        for i in (1..branches).rev() {
            order.swap(i, s.us(i + 1));
        }
        let (mut now, mut at) = (trunk.clone(), text(&trunk));
        for b in &order {
            for r in (0..regions).filter(|r| owner[*r] == *b) {
                now[r] = branch[*b][r].clone();
            }
            let next = text(&now);
            merged(s, &format!("branches into trunk in the order {order:?}, branch {b}"), &base[*b], &at, &text(&branch[*b]), &next)?;
            if round == 0 && next != at {
                store.push(diffy::create_patch_bytes(&at, &next).to_bytes());
            }
            at = next;
        }
        assert!(at == want, "the harness's model of the trunk");
    }
    // the trunk's history undone
    let mut at = want;
    for p in store.iter().rev() {
        let p = Patch::from_bytes(p).map_err(|e| format!("a stored patch of the trunk: {e}"))?;
        at = diffy::apply_bytes(&at, &p.reverse()).map_err(|e| format!("a stored patch of the trunk, undone: {e}"))?;
    }
    same("the first version, after undoing the trunk's patches", &at, &text(&first))?;
    cx.class_if(updates > 0 && publishes > 0, "merges in both directions");
    cx.class_if(publishes + updates > 3, "more than three merges before the last ones");
    cx.mark((0..branches).filter(|b| edited[*b] || published[*b]).count() >= 2);
    Ok(())
}

fn c14_sizes_of() -> &'static [usize] {
    static C: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    C.get_or_init(|| gen::sizes(65_537).into_iter().filter(|n| *n > 0).collect())
}
const REGIONS: u64 = 8;
const REGION_UNITS: u64 = 6;
fn c14_sizes_n() -> u64 {
    c14_sizes_of().len() as u64 * REGIONS + gen::units().len() as u64 * REGION_UNITS
}

/// Regions, or what lies between them, of every size of a list, or with one byte or word in their lines.
fn c14_sizes(i: u64, cx: &mut Cx) -> Res {
    type Texts = [Vec<gen::Line>; 4];
    let units = gen::units().len() as u64 * REGION_UNITS;
    let mut t: Texts = Default::default();
    // what stands in the ancestor, our, their and the merged text
    fn put(t: &mut Texts, parts: [&[gen::Line]; 4]) {
        for (t, p) in t.iter_mut().zip(parts) {
            t.extend_from_slice(p);
        }
    }
    fn all(t: &mut Texts, l: &[gen::Line]) {
        put(t, [l, l, l, l]);
    }
    fn ours(t: &mut Texts, base: &[gen::Line], new: &[gen::Line]) {
        put(t, [base, new, base, new]);
    }
    fn theirs(t: &mut Texts, base: &[gen::Line], new: &[gen::Line]) {
        put(t, [base, base, new, new]);
    }
    let one = |l: &str| vec![l.as_bytes().to_vec()];
    if i < units {
        let u = &gen::units()[(i / REGION_UNITS) as usize];
        let l = |pre: &[u8], post: &[u8]| vec![[pre, u, post].concat()];
        cx.input("unit", u);
        match i % REGION_UNITS {
            // between the regions
            0 => {
                ours(&mut t, &one("p#"), &one("q#"));
                all(&mut t, &l(b"", b""));
                theirs(&mut t, &one("r#"), &one("s#"));
            }
            1 => {
                ours(&mut t, &one("p#"), &[]);
                all(&mut t, &l(b"x#", b""));
                theirs(&mut t, &[], &one("s#"));
            }
            // in them
            2 => {
                all(&mut t, &one("a#"));
                ours(&mut t, &l(b"", b""), &l(b"y#", b""));
                all(&mut t, &one("b#"));
                theirs(&mut t, &l(b"z#", b"w#"), &l(b"z#", b""));
            }
            3 => {
                theirs(&mut t, &[], &l(b"", b""));
                all(&mut t, &one("b#"));
                ours(&mut t, &l(b"z#", b"w#"), &[]);
                all(&mut t, &one("c#"));
            }
            // on both sides
            4 => {
                all(&mut t, &one("a#"));
                let (o, n) = (one("o#"), l(b"", b""));
                put(&mut t, [&o, &n, &n, &n]);
                all(&mut t, &one("b#"));
                ours(&mut t, &[], &one("c#"));
            }
            _ => {
                let o = l(b"x#", b"x#");
                put(&mut t, [&o, &[], &[], &[]]);
                all(&mut t, &one("b#"));
                theirs(&mut t, &one("c#"), &one("d#"));
            }
        }
    } else {
        let n = c14_sizes_of()[((i - units) / REGIONS) as usize];
        let many = |k: usize, n: usize| -> Vec<gen::Line> { (0..n).map(|i| format!("{k} line {i}").into_bytes()).collect() };
        cx.input_n("size", n as u64);
        match (i - units) % REGIONS {
            // between the regions
            0 => {
                ours(&mut t, &one("p"), &one("q"));
                all(&mut t, &many(1, n));
                theirs(&mut t, &one("r"), &one("s"));
            }
            1 => {
                theirs(&mut t, &[], &one("q"));
                all(&mut t, &many(1, n));
                ours(&mut t, &one("r"), &[]);
                all(&mut t, &one("end"));
            }
            // n lines put in or taken out by one side
            2 => {
                all(&mut t, &one("a"));
                ours(&mut t, &[], &many(1, n));
                all(&mut t, &one("b"));
                theirs(&mut t, &many(2, n), &[]);
            }
            // (the search for the shortest edit takes the square of the lines that differ)
            3 => {
                let n = n.min(9000 + n % 100);
                theirs(&mut t, &many(1, n), &one("x"));
                all(&mut t, &one("b"));
                ours(&mut t, &one("c"), &many(2, n));
            }
            // n lines replaced by n others
            4 => {
                let n = n.min(600 + n % 100);
                all(&mut t, &one("a"));
                ours(&mut t, &many(1, n), &many(2, n));
                all(&mut t, &one("b"));
                theirs(&mut t, &many(3, n), &many(4, n));
                all(&mut t, &one("c"));
            }
            // n lines put in or taken out by both
            5 => {
                let n = n.min(4200 + n % 100);
                all(&mut t, &one("a"));
                let l = many(1, n);
                put(&mut t, [&[], &l, &l, &l]);
                all(&mut t, &one("b"));
                let l = many(2, n);
                put(&mut t, [&l, &[], &[], &[]]);
                all(&mut t, &one("c"));
                ours(&mut t, &one("d"), &one("e"));
                all(&mut t, &one("f"));
                theirs(&mut t, &[], &one("g"));
            }
            // n regions
            6 => {
                let n = n.min(2000 + n % 100);
                for k in 0..n {
                    let (old, new) = (many(2 * k, 1), many(2 * k + 1, 1));
                    match k % 3 {
                        0 => ours(&mut t, &old, &new),
                        1 => theirs(&mut t, &old, &new),
                        _ => put(&mut t, [&old, &new, &new, &new]),
                    }
                    all(&mut t, &[format!("between {k}").into_bytes()]);
                }
            }
            // lines of n bytes
            _ => {
                let long = |c: u8, d: u8| vec![[vec![c; n], vec![d]].concat()];
                ours(&mut t, &long(b'p', b'1'), &long(b'p', b'2'));
                all(&mut t, &long(b'q', b'1'));
                theirs(&mut t, &long(b'q', b'2'), &long(b'q', b'3'));
            }
        }
    }
    let end = i % 3 != 0;
    if !end {
        // the same line last in all of them: it alone lacks the newline
        all(&mut t, &one("last#"));
    }
    let [o, a, b, w] = t.map(|l| gen::join(&l, end));
    let (a, b) = if i / 2 % 2 == 0 { (a, b) } else { (b, a) };
    input_triple(cx, &o, &a, &b);
    cx.class("both sides edit");
    cx.mark(true);
    clean("merge_bytes", merge_bytes(&o, &a, &b), &w)?;
    if let (Some(o), Some(a), Some(b)) = (st(&o), st(&a), st(&b)) {
        clean("merge", flat(merge(o, a, b)), &w)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

fn c15_compare(o: &[u8], a: &[u8], b: &[u8], ea: &[Edit], eb: &[Edit], cx: &mut Cx) -> Res {
    let (lo, la, lb) = (split(o), split(a), split(b));
    let chunks = diff3(&lo, &la, &lb, ea, eb);
    let conflicts = chunks.iter().filter(|c| matches!(c, Chunk::Conflict { .. })).count();
    cx.class(match conflicts {
        0 => "clean",
        1 => "one conflict",
        _ => "several conflicts",
    });
    cx.mark(o != a && o != b && a != b);
    let want = render(&chunks, 7, true);
    same_merge("merge_bytes", &merge_bytes(o, a, b), &want)?;
    let want_m = render(&chunks, 11, false);
    same_merge("merge_bytes, merge style, length 11", &mo(11, false).merge_bytes(o, a, b), &want_m)?;
    if let (Some(o), Some(a), Some(b)) = (st(o), st(a), st(b)) {
        same_merge("merge", &flat(merge(o, a, b)), &want)?;
        same_merge("merge, merge style, length 11", &flat(mo(11, false).merge(o, a, b)), &want_m)?;
    }
    Ok(())
}

/// The line diff of two texts, as edits, taken from a patch that covers both texts.
fn line_diff(o: &[u8], v: &[u8]) -> Result<Vec<Edit>, String> {
    let p = observe_b(&opts(usize::MAX).create_patch_bytes(o, v));
    match p.hunks.len() {
        0 => check(o == v, || "no hunk between different texts".into()).map(|_| vec![]),
        1 => {
            let h = &p.hunks[0];
            let l = split(o);
            check(h.pre() == l && h.post() == split(v), || "the full diff does not cover both texts".into())?;
            Ok(edits_of_lines(&h.lines))
        }
        n => Err(format!("{n} hunks in a full diff")),
    }
}

fn c15_check(o: &[u8], a: &[u8], b: &[u8], cx: &mut Cx) -> Res {
    let (ea, eb) = (line_diff(o, a)?, line_diff(o, b)?);
    c15_compare(o, a, b, &ea, &eb, cx)
}

fn c15_random(s: &mut Src, cx: &mut Cx) -> Res {
    let t = gen::triple(s);
    input_triple(cx, &t.o, &t.a, &t.b);
    c15_check(&t.o, &t.a, &t.b, cx)
}

fn c15_sizes(i: u64, cx: &mut Cx) -> Res {
    let (o, a, b) = sized_triple(i);
    input_triple(cx, &o, &a, &b);
    c15_check(&o, &a, &b, cx)
}

fn c15_small(i: u64, cx: &mut Cx) -> Res {
    let (o, a, b) = small_triple(i);
    input_triple(cx, o, a, b);
    c15_check(o, a, b, cx)
}

fn huge_triple(s: &mut Src) -> gen::Triple {
    let p = gen::huge(s);
    let l: Vec<gen::Line> = split(&p.a).iter().map(|l| l.strip_suffix(b"\n").unwrap_or(l).to_vec()).collect();
    let alpha: Vec<gen::Line> = l.iter().take(3).cloned().chain([b"z".to_vec()]).collect();
    let b = gen::edit(s, &l, &alpha, 5);
    gen::Triple { b: gen::join(&b, gen::final_nl(s)), o: p.a, a: p.b, utf8: p.utf8 }
}

fn c15_huge(s: &mut Src, cx: &mut Cx) -> Res {
    let t = huge_triple(s);
    input_triple(cx, &t.o, &t.a, &t.b);
    c15_check(&t.o, &t.a, &t.b, cx)
}

/// All lines of the ancestor are distinct and each version keeps some of them in order and adds
/// lines of its own or lines shared between the versions: only one alignment makes sense.
fn c15_unique(s: &mut Src, cx: &mut Cx) -> Res {
    let [o, a, b] = unique_triple(s);
    input_triple(cx, &o, &a, &b);
    let (lo, la, lb) = (split(&o), split(&a), split(&b));
    let (ea, eb) = (edits_of_unique(&lo, &la), edits_of_unique(&lo, &lb));
    c15_compare(&o, &a, &b, &ea, &eb, cx)
}

pub fn unique_triple(s: &mut Src) -> [Vec<u8>; 3] {
    let n = 1 + s.us(16);
    let o: Vec<gen::Line> = (0..n).map(|i| format!("o{i}").into_bytes()).collect();
    let keep = 1 + s.n(8);
    let version = |s: &mut Src, who: &str| -> Vec<gen::Line> {
        let mut v: Vec<gen::Line> = Vec::new();
        for i in 0..=n {
            while s.chance(1, 6) {
                // a line both versions may add at this place, or a private one
                let l = if s.chance(1, 2) { format!("s{i}.{}", v.len() % 2) } else { format!("{who}{i}.{}", v.len()) };
                let l = l.into_bytes();
                if !v.contains(&l) {
                    v.push(l);
                } else {
                    break;
                }
            }
            if i < n && !s.chance(1, 1 + keep) {
                v.push(o[i].clone());
            }
        }
        v
    };
    let a = version(s, "a");
    let b = version(s, "b");
    // ends: a last line without newline is another line
    [gen::join(&o, gen::final_nl(s)), gen::join(&a, gen::final_nl(s)), gen::join(&b, gen::final_nl(s))]
}

// ---------------------------------------------------------------- C16

const ODD: usize = 23;

fn chunks_of(r: &Result<Vec<u8>, Vec<u8>>) -> Result<Vec<Chunk>, String> {
    match r {
        Ok(v) => Ok(vec![Chunk::Stable(v.clone())]),
        Err(v) => {
            let c = read_conflicts(v, ODD).map_err(|e| format!("conflict text cannot be read: {e}\n  text: {}", clip(v)))?;
            check(c.iter().any(|c| matches!(c, Chunk::Conflict { .. })), || "an error without a conflict block".into())?;
            Ok(c)
        }
    }
}

fn swapped(c: &[Chunk]) -> Vec<Chunk> {
    c.iter()
        .map(|c| match c {
            Chunk::Conflict { ours, orig, theirs } => {
                Chunk::Conflict { ours: theirs.clone(), orig: orig.clone(), theirs: ours.clone() }
            }
            c => c.clone(),
        })
        .collect()
}

fn c16_check(o: &[u8], a: &[u8], b: &[u8], cx: &mut Cx) -> Res {
    cx.mark(o != a && o != b && a != b);
    let m = mo(ODD, true);
    let (x, y) = (m.merge_bytes(o, a, b), m.merge_bytes(o, b, a));
    cx.class(if x.is_ok() { "clean" } else { "conflict" });
    let mirror = |x: &Result<Vec<u8>, Vec<u8>>, y: &Result<Vec<u8>, Vec<u8>>| -> Res {
        check(x.is_ok() == y.is_ok() && chunks_of(x)? == swapped(&chunks_of(y)?), || {
            format!("merging the other way round is not the mirror image\n  one way: {}\n  other:   {}", show_merge(x), show_merge(y))
        })
    };
    mirror(&x, &y)?;
    if let (Some(o), Some(a), Some(b)) = (st(o), st(a), st(b)) {
        mirror(&flat(m.merge(o, a, b)), &flat(m.merge(o, b, a))).map_err(|e| format!("str: {e}"))?;
    }
    Ok(())
}

fn c16_random(s: &mut Src, cx: &mut Cx) -> Res {
    let t = gen::triple(s);
    input_triple(cx, &t.o, &t.a, &t.b);
    c16_check(&t.o, &t.a, &t.b, cx)
}

fn c16_huge(s: &mut Src, cx: &mut Cx) -> Res {
    let t = huge_triple(s);
    input_triple(cx, &t.o, &t.a, &t.b);
    c16_check(&t.o, &t.a, &t.b, cx)
}

fn c16_sizes(i: u64, cx: &mut Cx) -> Res {
    let (o, a, b) = sized_triple(i);
    input_triple(cx, &o, &a, &b);
    c16_check(&o, &a, &b, cx)
}

fn c16_small(i: u64, cx: &mut Cx) -> Res {
    let (o, a, b) = small_triple(i);
    input_triple(cx, o, a, b);
    c16_check(o, a, b, cx)
}

// ---------------------------------------------------------------- C17

fn c17_check(o: &[u8], a: &[u8], b: &[u8], len: usize, cx: &mut Cx) -> Res {
    let base = mo(ODD, true).merge_bytes(o, a, b);
    cx.mark(base.is_err());
    cx.class(if base.is_ok() { "clean" } else { "conflict" });
    cx.class_if(len == 0, "marker length 0");
    let chunks = chunks_of(&base)?;
    // stable text and regions as drawn with the odd length; drawing them differently must give
    // what the library draws with those options
    for (l, d3) in [(len, true), (len, false), (ODD, false), (7, true)] {
        let want = render(&chunks, l, d3);
        same_merge(&format!("merge_bytes, length {l}, {}", if d3 { "diff3" } else { "merge" }), &mo(l, d3).merge_bytes(o, a, b), &want)?;
    }
    let want = render(&chunks, 7, true);
    same_merge("merge_bytes with default options", &merge_bytes(o, a, b), &want)?;
    same_merge("MergeOptions::default", &MergeOptions::default().merge_bytes(o, a, b), &want)?;
    // one option alone keeps the other's default
    let mut m = MergeOptions::new();
    m.set_conflict_marker_length(len);
    same_merge("only the length set", &m.merge_bytes(o, a, b), &render(&chunks, len, true))?;
    let mut m = MergeOptions::new();
    m.set_conflict_style(ConflictStyle::Merge);
    same_merge("only the style set", &m.merge_bytes(o, a, b), &render(&chunks, 7, false))?;
    if let (Some(o), Some(a), Some(b)) = (st(o), st(a), st(b)) {
        for (l, d3) in [(len, true), (len, false)] {
            let want = render(&chunks, l, d3);
            same_merge(&format!("merge, length {l}, {}", if d3 { "diff3" } else { "merge" }), &flat(mo(l, d3).merge(o, a, b)), &want)?;
        }
        same_merge("merge with default options", &flat(merge(o, a, b)), &want)?;
    }
    Ok(())
}

fn c17_random(s: &mut Src, cx: &mut Cx) -> Res {
    let t = gen::triple(s);
    let len = match s.weighted(&[10, 60, 4, 1]) {
        0 => 0,
        1 => s.us(13),
        2 => gen::named_number(s).min(140_000),
        _ => 70_000,
    };
    input_triple(cx, &t.o, &t.a, &t.b);
    cx.input_n("marker length", len as u64);
    c17_check(&t.o, &t.a, &t.b, len, cx)
}

fn c17_sizes(i: u64, cx: &mut Cx) -> Res {
    let (o, a, b) = sized_triple(i);
    input_triple(cx, &o, &a, &b);
    c17_check(&o, &a, &b, 1 + (i % 9) as usize, cx)
}

fn c17_lengths_n() -> u64 {
    gen::sizes(131_073).len() as u64
}

/// A conflict drawn with markers of every size of a list.
fn c17_lengths(i: u64, cx: &mut Cx) -> Res {
    let len = gen::sizes(131_073)[i as usize];
    let (o, a, b) = (b"1\nx\n2\n", b"1\ny\n2\n", b"1\nz\n2\n");
    input_triple(cx, o, a, b);
    cx.input_n("marker length", len as u64);
    c17_check(o, a, b, len, cx)
}

fn c17_small(i: u64, cx: &mut Cx) -> Res {
    let (o, a, b) = small_triple(i);
    input_triple(cx, o, a, b);
    c17_check(o, a, b, (i % 9) as usize, cx)
}

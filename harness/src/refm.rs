//! Reference models, written against the unified diff format and the documented behaviour,
//! independent of the library's code.

use diffy::{Line, Patch};
use std::collections::{BTreeSet, HashMap};

/// Lines including their newline.
pub fn split(t: &[u8]) -> Vec<&[u8]> {
    t.split_inclusive(|b| *b == b'\n').collect()
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct RHunk {
    pub os: usize,
    pub ol: usize,
    pub ns: usize,
    pub nl: usize,
    pub heading: Option<Vec<u8>>,
    /// (tag, content with its newline if it has one); tags are b' ', b'-', b'+'
    pub lines: Vec<(u8, Vec<u8>)>,
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct RPatch {
    pub old: Option<Vec<u8>>,
    pub new: Option<Vec<u8>>,
    pub hunks: Vec<RHunk>,
}

impl RHunk {
    pub fn pre(&self) -> Vec<&[u8]> {
        self.lines.iter().filter(|l| l.0 != b'+').map(|l| &l.1[..]).collect()
    }
    pub fn post(&self) -> Vec<&[u8]> {
        self.lines.iter().filter(|l| l.0 != b'-').map(|l| &l.1[..]).collect()
    }
    pub fn counts(&self) -> (usize, usize) {
        (self.pre().len(), self.post().len())
    }
    pub fn reversed(&self) -> RHunk {
        RHunk {
            os: self.ns,
            ol: self.nl,
            ns: self.os,
            nl: self.ol,
            heading: self.heading.clone(),
            lines: self
                .lines
                .iter()
                .map(|(t, l)| {
                    (
                        match t {
                            b'-' => b'+',
                            b'+' => b'-',
                            t => *t,
                        },
                        l.clone(),
                    )
                })
                .collect(),
        }
    }
}

impl RPatch {
    pub fn reversed(&self) -> RPatch {
        RPatch {
            old: self.new.clone(),
            new: self.old.clone(),
            hunks: self.hunks.iter().map(RHunk::reversed).collect(),
        }
    }
}

/// What the accessors of a library patch report.
pub fn observe_b(p: &Patch<'_, [u8]>) -> RPatch {
    RPatch {
        old: p.original().map(<[u8]>::to_vec),
        new: p.modified().map(<[u8]>::to_vec),
        hunks: p
            .hunks()
            .iter()
            .map(|h| RHunk {
                os: h.old_range().start(),
                ol: h.old_range().len(),
                ns: h.new_range().start(),
                nl: h.new_range().len(),
                heading: h.function_context().map(<[u8]>::to_vec),
                lines: h
                    .lines()
                    .iter()
                    .map(|l| match l {
                        Line::Context(x) => (b' ', x.to_vec()),
                        Line::Delete(x) => (b'-', x.to_vec()),
                        Line::Insert(x) => (b'+', x.to_vec()),
                    })
                    .collect(),
            })
            .collect(),
    }
}

pub fn observe_s(p: &Patch<'_, str>) -> RPatch {
    RPatch {
        old: p.original().map(|x| x.as_bytes().to_vec()),
        new: p.modified().map(|x| x.as_bytes().to_vec()),
        hunks: p
            .hunks()
            .iter()
            .map(|h| RHunk {
                os: h.old_range().start(),
                ol: h.old_range().len(),
                ns: h.new_range().start(),
                nl: h.new_range().len(),
                heading: h.function_context().map(|x| x.as_bytes().to_vec()),
                lines: h
                    .lines()
                    .iter()
                    .map(|l| match l {
                        Line::Context(x) => (b' ', x.as_bytes().to_vec()),
                        Line::Delete(x) => (b'-', x.as_bytes().to_vec()),
                        Line::Insert(x) => (b'+', x.as_bytes().to_vec()),
                    })
                    .collect(),
            })
            .collect(),
    }
}

const MARK: &[u8] = b"\\ No newline at end of file\n";

fn number(t: &[u8]) -> Result<usize, String> {
    if t.is_empty() || !t.iter().all(u8::is_ascii_digit) {
        return Err(format!("bad number {:?}", String::from_utf8_lossy(t)));
    }
    std::str::from_utf8(t).unwrap().parse().map_err(|e| format!("{e}"))
}

fn parse_range(t: &[u8], sign: u8) -> Result<(usize, usize), String> {
    let t = match t.split_first() {
        Some((s, r)) if *s == sign => r,
        _ => return Err("range without sign".into()),
    };
    match t.iter().position(|b| *b == b',') {
        Some(i) => Ok((number(&t[..i])?, number(&t[i + 1..])?)),
        None => Ok((number(t)?, 1)),
    }
}

/// Undo the quoting of a file name in a header.
pub fn unquote(t: &[u8]) -> Result<Vec<u8>, String> {
    if t.len() >= 2 && t[0] == b'"' && t[t.len() - 1] == b'"' {
        let mut out = Vec::new();
        let mut i = 1;
        while i < t.len() - 1 {
            match t[i] {
                b'\\' => {
                    i += 1;
                    if i >= t.len() - 1 {
                        return Err("dangling escape".into());
                    }
                    out.push(match t[i] {
                        b'n' => b'\n',
                        b't' => b'\t',
                        b'r' => b'\r',
                        b'0' => 0,
                        b'"' => b'"',
                        b'\\' => b'\\',
                        c => return Err(format!("unknown escape {}", c as char)),
                    });
                }
                b'"' => return Err("unescaped quote".into()),
                c => out.push(c),
            }
            i += 1;
        }
        Ok(out)
    } else if t.iter().any(|b| b"\n\t\0\r\"\\".contains(b)) {
        Err("special character in unquoted name".into())
    } else {
        Ok(t.to_vec())
    }
}

/// A strict reader of unified diffs: file headers, then hunks, nothing else. Bodies are read by
/// the counts in their header.
pub fn parse_strict(t: &[u8]) -> Result<RPatch, String> {
    let ls = split(t);
    let mut i = 0;
    let mut p = RPatch::default();
    let name = |l: &[u8], pre: &[u8]| -> Result<Option<Vec<u8>>, String> {
        match l.strip_prefix(pre) {
            Some(r) => {
                let r = r.strip_suffix(b"\n").ok_or("header without newline")?;
                Ok(Some(unquote(r)?))
            }
            None => Ok(None),
        }
    };
    if i < ls.len() {
        if let Some(n) = name(ls[i], b"--- ")? {
            p.old = Some(n);
            i += 1;
        }
    }
    if i < ls.len() {
        if let Some(n) = name(ls[i], b"+++ ")? {
            p.new = Some(n);
            i += 1;
        }
    }
    while i < ls.len() {
        let h = ls[i].strip_prefix(b"@@ ").ok_or_else(|| format!("line {}: expected a hunk header", i + 1))?;
        let h = h.strip_suffix(b"\n").ok_or("hunk header without newline")?;
        let end = h.windows(3).position(|w| w == b" @@").ok_or("unterminated hunk header")?;
        let (ranges, tail) = (&h[..end], &h[end + 3..]);
        let sp = ranges.iter().position(|b| *b == b' ').ok_or("one range only")?;
        let (os, ol) = parse_range(&ranges[..sp], b'-')?;
        let (ns, nl) = parse_range(&ranges[sp + 1..], b'+')?;
        let heading = match tail.split_first() {
            None => None,
            Some((b' ', r)) => Some(r.to_vec()),
            Some(_) => return Err("garbage after hunk header".into()),
        };
        let mut hk = RHunk { os, ol, ns, nl, heading, lines: vec![] };
        i += 1;
        let (mut o, mut n) = (0, 0);
        while o < ol || n < nl || (i < ls.len() && ls[i].starts_with(b"\\")) {
            let l = *ls.get(i).ok_or("hunk body ends early")?;
            i += 1;
            if l == MARK {
                let last = hk.lines.last_mut().ok_or("marker before any line")?;
                if last.1.pop() != Some(b'\n') {
                    return Err("marker after a line without newline".into());
                }
                continue;
            }
            if !l.ends_with(b"\n") {
                return Err("body line without newline".into());
            }
            let (tag, c) = match l[0] {
                b'\n' => (b' ', l.to_vec()),
                t @ (b' ' | b'-' | b'+') => (t, l[1..].to_vec()),
                c => return Err(format!("line {}: bad tag {:?}", i, c as char)),
            };
            if tag != b'+' {
                o += 1;
            }
            if tag != b'-' {
                n += 1;
            }
            hk.lines.push((tag, c));
        }
        if o != ol || n != nl {
            return Err("counts do not match the body".into());
        }
        p.hunks.push(hk);
    }
    Ok(p)
}

/// Index of the first line of a range: an empty range names the line before it.
fn index_of(start: usize, len: usize) -> Result<usize, String> {
    if len == 0 {
        Ok(start)
    } else {
        start.checked_sub(1).ok_or_else(|| "non-empty range starting at 0".into())
    }
}

/// Apply at exactly the stated lines, checking every line and both line numberings.
pub fn apply_strict(base: &[u8], hunks: &[RHunk]) -> Result<Vec<u8>, String> {
    let ls = split(base);
    let mut out: Vec<&[u8]> = Vec::new();
    let mut at = 0;
    for (k, h) in hunks.iter().enumerate() {
        let k = k + 1;
        let o = index_of(h.os, h.ol)?;
        let n = index_of(h.ns, h.nl)?;
        if o < at {
            return Err(format!("hunk {k} overlaps the one before or is out of order"));
        }
        if o > ls.len() {
            return Err(format!("hunk {k} starts past the end"));
        }
        out.extend(&ls[at..o]);
        at = o;
        if out.len() != n {
            return Err(format!("hunk {k}: new start says index {n}, but {} lines precede it", out.len()));
        }
        let (ol, nl) = h.counts();
        if (ol, nl) != (h.ol, h.nl) {
            return Err(format!("hunk {k}: counts {:?} but header says {:?}", (ol, nl), (h.ol, h.nl)));
        }
        for (t, l) in &h.lines {
            if *t != b'+' {
                match ls.get(at) {
                    Some(x) if *x == &l[..] => at += 1,
                    x => {
                        return Err(format!(
                            "hunk {k}: line {} is {:?}, patch says {:?}",
                            at + 1,
                            x.map(|x| String::from_utf8_lossy(x)),
                            String::from_utf8_lossy(l)
                        ))
                    }
                }
            }
            if *t != b'-' {
                out.push(l);
            }
        }
    }
    out.extend(&ls[at..]);
    Ok(out.concat())
}

/// Lines as small numbers, equal exactly when the lines are.
pub fn number_lines<'a>(texts: &[&'a [u8]]) -> Vec<Vec<u32>> {
    let mut ids: HashMap<&'a [u8], u32> = HashMap::new();
    texts
        .iter()
        .map(|t| {
            split(t)
                .into_iter()
                .map(|l| {
                    let n = ids.len() as u32;
                    *ids.entry(l).or_insert(n)
                })
                .collect()
        })
        .collect()
}

/// Length of the longest common subsequence. Elements that occur in only one of the two, and common
/// ends, are set aside first, as often as that removes any; the rest goes through the table.
pub fn lcs(a: &[u32], b: &[u32]) -> usize {
    use std::collections::HashSet;
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    let mut sure = 0;
    loop {
        let before = a.len() + b.len();
        let pre = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
        a.drain(..pre);
        b.drain(..pre);
        let suf = a.iter().rev().zip(b.iter().rev()).take_while(|(x, y)| x == y).count();
        a.truncate(a.len() - suf);
        b.truncate(b.len() - suf);
        sure += pre + suf;
        let (ina, inb): (HashSet<u32>, HashSet<u32>) = (a.iter().copied().collect(), b.iter().copied().collect());
        a.retain(|x| inb.contains(x));
        b.retain(|x| ina.contains(x));
        if a.len() + b.len() == before {
            break;
        }
    }
    let distinct = |v: &[u32]| v.iter().collect::<HashSet<_>>().len() == v.len();
    if distinct(&a) && distinct(&b) {
        return sure + lcs_distinct(&a, &b);
    }
    sure + lcs_table(&a, &b)
}

/// For two orders of the same distinct elements: the longest increasing sequence of places.
fn lcs_distinct(a: &[u32], b: &[u32]) -> usize {
    let at: std::collections::HashMap<u32, usize> = b.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    // the least last place of the sequences of each length
    let mut least: Vec<usize> = vec![];
    for x in a {
        let Some(&i) = at.get(x) else { continue };
        let k = least.partition_point(|l| *l < i);
        if k == least.len() {
            least.push(i);
        } else {
            least[k] = i;
        }
    }
    least.len()
}

/// The textbook table.
pub fn lcs_table(a: &[u32], b: &[u32]) -> usize {
    let mut prev = vec![0u32; b.len() + 1];
    let mut cur = vec![0u32; b.len() + 1];
    for x in a {
        for (j, y) in b.iter().enumerate() {
            cur[j + 1] = if x == y { prev[j] + 1 } else { prev[j + 1].max(cur[j]) };
        }
        std::mem::swap(&mut prev, &mut cur);
    }
    prev[b.len()] as usize
}

/// Outcome of applying a patch: the text, or the 1-based number of the failing hunk.
pub type Applied = Result<Vec<u8>, usize>;

/// Every position where a hunk fits exactly on unfrozen lines.
fn fits(image: &[(&[u8], bool)], pre: &[&[u8]]) -> Vec<usize> {
    if pre.len() > image.len() {
        return vec![];
    }
    (0..=image.len() - pre.len())
        .filter(|p| image[*p..*p + pre.len()].iter().zip(pre).all(|(x, y)| !x.1 && x.0 == *y))
        .collect()
}

/// All acceptable outcomes: hunks in sequence, each at a fitting position nearest to its stated
/// one (both neighbours are acceptable on a tie). The second value says whether some hunk was
/// placed away from its stated line; `None` when there are too many ties to follow.
pub fn apply_model(base: &[u8], hunks: &[RHunk]) -> Option<(BTreeSet<Applied>, bool)> {
    let mut moved = false;
    let mut out = BTreeSet::new();
    let mut states: Vec<Vec<(&[u8], bool)>> = vec![split(base).into_iter().map(|l| (l, false)).collect()];
    for (k, h) in hunks.iter().enumerate() {
        let mut next = Vec::new();
        for image in states {
            let pre = h.pre();
            let stated = if h.nl == 0 { h.ns } else { h.ns.saturating_sub(1) };
            let stated = stated.min(image.len());
            let f = fits(&image, &pre);
            let best = f.iter().map(|p| p.abs_diff(stated)).min();
            match best {
                None => {
                    out.insert(Err(k + 1));
                }
                Some(d) => {
                    moved |= d > 0;
                    for p in f.into_iter().filter(|p| p.abs_diff(stated) == d) {
                        let mut im = image.clone();
                        im.splice(p..p + pre.len(), h.post().into_iter().map(|l| (l, true)));
                        next.push(im);
                    }
                }
            }
        }
        next.sort();
        next.dedup();
        if next.len() > 64 {
            return None;
        }
        states = next;
    }
    for s in states {
        out.insert(Ok(s.into_iter().map(|x| x.0).collect::<Vec<_>>().concat()));
    }
    Some((out, moved))
}

/// An edit: the ancestor lines `os..oe` became the version's lines `vs..ve`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Edit {
    pub os: usize,
    pub oe: usize,
    pub vs: usize,
    pub ve: usize,
}

/// The edits a list of tagged lines covering whole texts describes.
pub fn edits_of_lines(lines: &[(u8, Vec<u8>)]) -> Vec<Edit> {
    let mut v: Vec<Edit> = Vec::new();
    let (mut o, mut n) = (0, 0);
    let mut open = false;
    for (t, _) in lines {
        if *t == b' ' {
            o += 1;
            n += 1;
            open = false;
            continue;
        }
        if !open {
            v.push(Edit { os: o, oe: o, vs: n, ve: n });
            open = true;
        }
        let e = v.last_mut().unwrap();
        if *t == b'-' {
            o += 1;
            e.oe = o;
        } else {
            n += 1;
            e.ve = n;
        }
    }
    v
}

/// The edits between two texts whose lines are all distinct within each text and whose common
/// lines come in the same order: there is only one sensible alignment.
pub fn edits_of_unique(o: &[&[u8]], v: &[&[u8]]) -> Vec<Edit> {
    let pos: HashMap<&[u8], usize> = v.iter().enumerate().map(|(i, l)| (*l, i)).collect();
    let mut out = Vec::new();
    let (mut i, mut j) = (0, 0);
    for (k, l) in o.iter().enumerate() {
        if let Some(p) = pos.get(l) {
            if k > i || *p > j {
                out.push(Edit { os: i, oe: k, vs: j, ve: *p });
            }
            i = k + 1;
            j = *p + 1;
        }
    }
    if i < o.len() || j < v.len() {
        out.push(Edit { os: i, oe: o.len(), vs: j, ve: v.len() });
    }
    out
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Chunk {
    Stable(Vec<u8>),
    Conflict { ours: Vec<u8>, orig: Vec<u8>, theirs: Vec<u8> },
}

/// Three-way merge of two edit lists: edits that overlap or touch form one region.
pub fn diff3(o: &[&[u8]], a: &[&[u8]], b: &[&[u8]], ea: &[Edit], eb: &[Edit]) -> Vec<Chunk> {
    let mut out = Vec::new();
    let (mut ia, mut ib) = (0, 0);
    let (mut at_o, mut at_a, mut at_b) = (0usize, 0usize, 0usize);
    loop {
        let start = match (ea.get(ia), eb.get(ib)) {
            (None, None) => break,
            (Some(x), None) => x.os,
            (None, Some(y)) => y.os,
            (Some(x), Some(y)) => x.os.min(y.os),
        };
        let mut end = start;
        let (ja, jb) = (ia, ib);
        loop {
            let mut grew = false;
            if let Some(x) = ea.get(ia) {
                if x.os <= end {
                    end = end.max(x.oe);
                    ia += 1;
                    grew = true;
                }
            }
            if let Some(y) = eb.get(ib) {
                if y.os <= end {
                    end = end.max(y.oe);
                    ib += 1;
                    grew = true;
                }
            }
            if !grew {
                break;
            }
        }
        let same = start - at_o;
        out.push(Chunk::Stable(o[at_o..start].concat()));
        let (sa, sb) = (at_a + same, at_b + same);
        // region of a version: its edits inside, plus the unedited lines of the region
        let region = |es: &[Edit], from: usize, s: usize| -> usize {
            let ins: usize = es.iter().map(|e| e.ve - e.vs).sum();
            let del: usize = es.iter().map(|e| e.oe - e.os).sum();
            let _ = from;
            s + (end - start) - del + ins
        };
        let fa = region(&ea[ja..ia], at_a, sa);
        let fb = region(&eb[jb..ib], at_b, sb);
        let (ro, ra, rb) = (&o[start..end], &a[sa..fa], &b[sb..fb]);
        out.push(if ra == rb {
            Chunk::Stable(ra.concat())
        } else if ro == ra {
            Chunk::Stable(rb.concat())
        } else if ro == rb {
            Chunk::Stable(ra.concat())
        } else {
            Chunk::Conflict { ours: ra.concat(), orig: ro.concat(), theirs: rb.concat() }
        });
        at_o = end;
        at_a = fa;
        at_b = fb;
    }
    out.push(Chunk::Stable(o[at_o..].concat()));
    out
}

fn end_line(out: &mut Vec<u8>) {
    if !out.is_empty() && !out.ends_with(b"\n") {
        out.push(b'\n');
    }
}

fn marker(out: &mut Vec<u8>, c: u8, len: usize, label: Option<&str>) {
    end_line(out);
    out.extend(std::iter::repeat(c).take(len));
    if let Some(l) = label {
        out.push(b' ');
        out.extend_from_slice(l.as_bytes());
    }
    out.push(b'\n');
}

/// Draw merge chunks. Ok when there is no conflict.
pub fn render(chunks: &[Chunk], len: usize, diff3: bool) -> Result<Vec<u8>, Vec<u8>> {
    let mut out = Vec::new();
    let mut conflict = false;
    for c in chunks {
        match c {
            Chunk::Stable(t) => out.extend_from_slice(t),
            Chunk::Conflict { ours, orig, theirs } => {
                conflict = true;
                marker(&mut out, b'<', len, Some("ours"));
                out.extend_from_slice(ours);
                if diff3 {
                    marker(&mut out, b'|', len, Some("original"));
                    out.extend_from_slice(orig);
                }
                marker(&mut out, b'=', len, None);
                out.extend_from_slice(theirs);
                marker(&mut out, b'>', len, Some("theirs"));
            }
        }
    }
    if conflict {
        Err(out)
    } else {
        Ok(out)
    }
}

/// Read a diff3-style conflict text drawn with markers no text line can be confused with.
pub fn read_conflicts(t: &[u8], len: usize) -> Result<Vec<Chunk>, String> {
    let mk = |c: u8, label: &str| -> Vec<u8> {
        let mut v = vec![c; len];
        v.extend_from_slice(label.as_bytes());
        v.push(b'\n');
        v
    };
    let (m1, m2, m3, m4) = (mk(b'<', " ours"), mk(b'|', " original"), mk(b'=', ""), mk(b'>', " theirs"));
    let mut out = Vec::new();
    let mut cur = Vec::new();
    let mut st = 0;
    let (mut ours, mut orig) = (vec![], vec![]);
    for l in split(t) {
        let step = if l == &m1[..] {
            1
        } else if l == &m2[..] {
            2
        } else if l == &m3[..] {
            3
        } else if l == &m4[..] {
            4
        } else {
            cur.extend_from_slice(l);
            continue;
        };
        if step != st + 1 {
            return Err(format!("marker {step} where {} was expected", st + 1));
        }
        let c = std::mem::take(&mut cur);
        match step {
            1 => out.push(Chunk::Stable(c)),
            2 => ours = c,
            3 => orig = c,
            _ => out.push(Chunk::Conflict {
                ours: std::mem::take(&mut ours),
                orig: std::mem::take(&mut orig),
                theirs: c,
            }),
        }
        st = step % 4;
    }
    if st != 0 {
        return Err("unfinished conflict block".into());
    }
    out.push(Chunk::Stable(cur));
    Ok(out)
}

/// Remove `ESC [ ... m` sequences.
pub fn strip_ansi(t: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(t.len());
    let mut i = 0;
    while i < t.len() {
        if t[i] == 0x1b && t.get(i + 1) == Some(&b'[') {
            let mut j = i + 2;
            while j < t.len() && (t[j].is_ascii_digit() || t[j] == b';') {
                j += 1;
            }
            if t.get(j) == Some(&b'm') {
                i = j + 1;
                continue;
            }
        }
        out.push(t[i]);
        i += 1;
    }
    out
}

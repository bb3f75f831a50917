//! Generators: texts made of lines, pairs and triples of related texts, file names, options.

use crate::engine::Src;

pub type Line = Vec<u8>;

/// Line contents (without the newline) that look like patch or merge syntax, differ only
/// slightly from each other, or are otherwise awkward.
const NASTY: &[&str] = &[
    "",
    " ",
    "-",
    "+",
    "\\",
    "@",
    "@@",
    "--- a",
    "+++ b",
    "-- a",
    "++ b",
    "@@ -1 +1 @@",
    "@@ -1,2 +1,2 @@ x",
    "\\ No newline at end of file",
    "-a",
    "+a",
    " a",
    "a ",
    "a\r",
    "\r",
    "a\t",
    "\ta",
    "A",
    "aa",
    "ab",
    "a b",
    "\u{2028}",
    "a\u{2029}b",
    "\u{85}",
    "\u{b}",
    "\u{c}",
    "é",
    "e\u{301}",
    "\u{1F600}",
    "\u{2603}",
    "\u{2604}",
    "\u{feff}",
    "\0",
    "a\0",
    "<<<<<<< ours",
    "||||||| original",
    "=======",
    ">>>>>>> theirs",
    "<<<<<<<",
    "diff --git a/x b/x",
    "index 0000000..1111111 100644",
    "\"a\"",
    "\"",
    "'",
    "0",
    "1,1",
    "}",
    "    return 0;",
    "{",
    "\t\t",
    "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx1",
    "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx2",
    "xxxxxxxxxxxxxxxx",
    "xxxxxxxxxxxxxxxxy",
];

/// Awkward contents that are not UTF-8.
const NASTY_BYTES: &[&[u8]] = &[
    b"\xff", b"\xfe", b"\xc3", b"\xc3\x28", b"a\xff", b"\xffa", b"\x80", b"\xe2\x98", b"\xf0\x9f\x98", b"\xed\xa0\x80",
    b"-\xff", b"+\xff", b" \xff", b"@\xff",
];

const CHARS: &[&str] = &["a", "b", " ", "-", "+", "@", "\\", "\t", "\r", "\"", "é", "\u{1F600}", "0", "\0", "N", "\x7f"];

/// One line content.
pub fn content(s: &mut Src, utf8: bool) -> Line {
    match s.weighted(&[6, 5, 2, if utf8 { 0 } else { 2 }]) {
        0 => vec![b'a' + s.n(26) as u8],
        1 => s.pick(NASTY).as_bytes().to_vec(),
        2 => {
            let mut v = Vec::new();
            while s.more(4) {
                if s.chance(1, 5) {
                    let u = s.pick(units());
                    if !utf8 || std::str::from_utf8(u).is_ok() {
                        v.extend_from_slice(u);
                    }
                } else if !utf8 && s.chance(1, 6) {
                    let b = s.n(256) as u8;
                    v.push(if b == b'\n' { b'\r' } else { b });
                } else {
                    v.extend_from_slice(s.pick(CHARS).as_bytes());
                }
            }
            v
        }
        _ => s.pick(NASTY_BYTES).to_vec(),
    }
}

/// Lines of one length that agree but for a small difference somewhere in each: at the start, in
/// the middle, at the end, or in one byte of a longer character.
fn near(s: &mut Src, utf8: bool) -> Vec<Line> {
    let len = match s.weighted(&[10, 10, 6, 3, 1]) {
        0 => 3 + s.us(20),
        1 => 60 + s.us(90),
        2 => 250 + s.us(300),
        3 => 1000 + s.us(100),
        _ => 4080 + s.us(200),
    };
    let unit: (&[u8], &[u8]) = *s.pick(&[
        (&b"x"[..], &b"y"[..]),
        (b"x", b"X"),
        (b" ", b"\t"),
        (b"a", b" "),
        ("\u{e9}".as_bytes(), "\u{e8}".as_bytes()),
        ("\u{2603}".as_bytes(), "\u{2604}".as_bytes()),
        ("\u{1F600}".as_bytes(), "\u{1F601}".as_bytes()),
    ]);
    let unit = if !utf8 && s.chance(1, 3) { (&b"\xff"[..], &b"\xfe"[..]) } else { unit };
    let n = (len / unit.0.len()).max(2);
    let mut out: Vec<Line> = Vec::new();
    for _ in 0..2 + s.us(4) {
        let at = match s.us(5) {
            0 => n,
            1 => n / 2,
            2 => n - 1,
            3 => 0,
            _ => s.us(n),
        };
        let l: Line = (0..n).flat_map(|i| if i == at { unit.1 } else { unit.0 }.iter().copied()).collect();
        if !out.contains(&l) {
            out.push(l);
        }
    }
    out
}

/// A set of line contents to build texts from.
/// Different lines for which weak hashes agree: sums, exclusive ors and polynomials over their bytes.
fn colliding(s: &mut Src) -> Vec<Line> {
    // bytes that may stand anywhere in ASCII and leave room for a change by 70
    let word = |s: &mut Src, n: usize| -> Line { (0..n).map(|_| b'*' + s.us(60) as u8).collect() };
    let at = match s.weighted(&[8, 3, 3, 1]) {
        0 => s.us(5),
        1 => 7 + s.us(20),
        2 => 60 + s.us(80),
        _ => 240 + s.us(100),
    };
    let (pre, post) = (word(s, at), {
        let n = s.us(4);
        word(s, n)
    });
    let around = |mid: Line| [pre.clone(), mid, post.clone()].concat();
    let m = 2 + s.us(5);
    let mid = word(s, m);
    let mut out = vec![around(mid.clone())];
    match s.us(6) {
        // the same characters in another order: turned around, rotated, two exchanged
        0 => {
            out.push(around(mid.iter().rev().copied().collect()));
            out.push(around([&mid[1..], &mid[..1]].concat()));
            let mut x = mid.clone();
            x.swap(0, 1);
            out.push(around(x));
        }
        // the same sum
        1 => {
            let mut x = mid.clone();
            x[0] += 1;
            x[m - 1] -= 1;
            out.push(around(x));
            let mut x = mid.clone();
            x[0] -= 2;
            x[1] += 2;
            out.push(around(x));
        }
        // the same exclusive or
        2 => {
            let mut x = mid.clone();
            x[0] ^= 1;
            x[m - 1] ^= 1;
            out.push(around(x));
            out.push(around([mid.clone(), mid.clone(), mid].concat()));
        }
        // h * 31 + c, h * 33 + c, h * 37 + c: one more in front is as much as 31, 33, 37 behind
        3 | 4 => {
            for k in [31, 33, 37] {
                let mut x = mid.clone();
                x[0] -= 1;
                x[1] += k;
                if x[1] < 127 {
                    out.push(around(x));
                }
            }
            // and two such in one line
            let mut x = mid.clone();
            x[0] -= 1;
            x[1] += 31;
            if m > 3 && x[1] < 127 && x[3] > 31 + 31 {
                x[2] += 1;
                x[3] -= 31;
                out.push(around(x));
            }
        }
        // c + 31 h from the other end, and the same with NUL characters around
        _ => {
            for k in [31, 33, 37] {
                let mut x = mid.clone();
                x[1] -= 1;
                x[0] += k;
                if x[0] < 127 {
                    out.push(around(x));
                }
            }
            out.push([&b"\0"[..], &pre, &mid, &post].concat());
            out.push([&pre[..], &mid, &post, b"\0"].concat());
        }
    }
    out.dedup();
    out
}

pub fn alphabet(s: &mut Src, utf8: bool) -> Vec<Line> {
    if s.chance(1, 25) {
        return colliding(s);
    }
    if s.chance(1, 12) {
        return near(s, utf8);
    }
    let k = match s.weighted(&[4, 4, 3, 2]) {
        0 => 2,
        1 => 3,
        2 => 1 + s.us(3),
        _ => 4 + s.us(8),
    };
    let plain = s.chance(2, 5);
    (0..k)
        .map(|i| {
            if plain {
                vec![b'a' + i as u8]
            } else {
                content(s, utf8)
            }
        })
        .collect()
}

pub fn join(lines: &[Line], final_nl: bool) -> Vec<u8> {
    let mut v = Vec::with_capacity(lines.iter().map(|l| l.len() + 1).sum());
    for (i, l) in lines.iter().enumerate() {
        v.extend_from_slice(l);
        if final_nl || i + 1 < lines.len() {
            v.push(b'\n');
        }
    }
    v
}

pub fn uniq(i: u64) -> Line {
    format!("l{i}").into_bytes()
}

/// Lines drawn from an alphabet, with runs of unique lines and repeated blocks.
pub fn lines(s: &mut Src, alpha: &[Line], avg: u64, runs: u64) -> Vec<Line> {
    let mut v: Vec<Line> = Vec::new();
    while s.more(avg) {
        match s.weighted(&[10, 1, 1, runs]) {
            0 => v.push(s.pick(alpha).clone()),
            1 => {
                let l = s.pick(alpha).clone();
                for _ in 0..2 + s.n(6) {
                    v.push(l.clone());
                }
            }
            2 => {
                // repeat an earlier block
                if !v.is_empty() {
                    let i = s.us(v.len());
                    let n = 1 + s.us((v.len() - i).min(12));
                    let b: Vec<Line> = v[i..i + n].to_vec();
                    v.extend(b);
                }
            }
            _ => {
                let start = s.n(8) * 10;
                for i in 0..1 + s.n(14) {
                    v.push(uniq(start + i));
                }
            }
        }
    }
    v
}

/// Apply a few random line edits.
pub fn edit(s: &mut Src, base: &[Line], alpha: &[Line], avg: u64) -> Vec<Line> {
    let mut v = base.to_vec();
    while s.more(avg) {
        let at = s.us(v.len() + 1);
        let room = v.len() - at;
        match s.weighted(&[4, 4, 4, 1, 1, 1]) {
            // insert
            0 => {
                let l = s.pick(alpha).clone();
                v.insert(at, l);
            }
            // delete
            1 => {
                let n = (1 + s.us(3)).min(room);
                v.drain(at..at + n);
            }
            // replace
            2 => {
                let n = (1 + s.us(3)).min(room);
                let m = 1 + s.us(3);
                let new: Vec<Line> = (0..m).map(|_| s.pick(alpha).clone()).collect();
                v.splice(at..at + n, new);
            }
            // insert new lines
            3 => {
                let start = 200 + s.n(5) * 10;
                let n = 1 + s.n(6);
                let new: Vec<Line> = (0..n).map(|i| uniq(start + i)).collect();
                v.splice(at..at, new);
            }
            // duplicate a block
            4 => {
                let n = (1 + s.us(5)).min(room);
                let b: Vec<Line> = v[at..at + n].to_vec();
                let to = s.us(v.len() + 1);
                v.splice(to..to, b);
            }
            // move a block
            _ => {
                let n = (1 + s.us(5)).min(room);
                let b: Vec<Line> = v.drain(at..at + n).collect();
                let to = s.us(v.len() + 1);
                v.splice(to..to, b);
            }
        }
    }
    v
}

/// A long base text: mostly unique lines with repeated ones sprinkled in.
pub fn long(s: &mut Src, alpha: &[Line]) -> Vec<Line> {
    let n = match s.weighted(&[5, 3, 1]) {
        0 => 20 + s.n(80),
        1 => 100 + s.n(400),
        _ => 900 + s.n(1500),
    };
    let every = 1 + s.n(6);
    let phase = s.n(every);
    let mut k = s.n(1000);
    (0..n)
        .map(|i| {
            if i % every == phase && every > 1 {
                k = (k * 7 + 3) % 1009;
                alpha[(k as usize) % alpha.len()].clone()
            } else {
                uniq(1000 + i)
            }
        })
        .collect()
}

pub fn final_nl(s: &mut Src) -> bool {
    !s.chance(1, 4)
}

pub struct Pair {
    pub a: Vec<u8>,
    pub b: Vec<u8>,
    pub utf8: bool,
}

pub fn utf8(s: &mut Src) -> bool {
    !s.chance(1, 4)
}

/// Two texts, usually related. `long_weight` of 100 cases are long ones.
pub fn pair_sized(s: &mut Src, long_weight: u64) -> Pair {
    let utf8 = utf8(s);
    let alpha = alphabet(s, utf8);
    let (la, lb) = if s.chance(long_weight, 100) {
        let base = long(s, &alpha);
        let b = edit(s, &base, &alpha, 6);
        (base, b)
    } else {
        match s.weighted(&[4, 5, 3, 1]) {
            0 => (lines(s, &alpha, 5, 0), lines(s, &alpha, 5, 0)),
            1 => {
                let a = lines(s, &alpha, 14, 2);
                let b = edit(s, &a, &alpha, 3);
                (a, b)
            }
            2 => {
                let o = lines(s, &alpha, 24, 3);
                let a = edit(s, &o, &alpha, 4);
                let b = edit(s, &o, &alpha, 4);
                (a, b)
            }
            _ => {
                let a = lines(s, &alpha, 20, 1);
                let b = lines(s, &alpha, 20, 1);
                (a, b)
            }
        }
    };
    let a = join(&la, final_nl(s));
    let b = join(&lb, final_nl(s));
    // half of the pairs are taken in the other direction, so that deletions are as common as insertions
    if s.chance(1, 2) {
        Pair { a: b, b: a, utf8 }
    } else {
        Pair { a, b, utf8 }
    }
}

pub fn pair(s: &mut Src) -> Pair {
    pair_sized(s, 3)
}

pub struct Triple {
    pub o: Vec<u8>,
    pub a: Vec<u8>,
    pub b: Vec<u8>,
    pub utf8: bool,
}

/// An ancestor and two versions.
pub fn triple_sized(s: &mut Src, long_weight: u64) -> Triple {
    let utf8 = utf8(s);
    let alpha = alphabet(s, utf8);
    let (o, a, b) = if s.chance(long_weight, 100) {
        let o = long(s, &alpha);
        let a = edit(s, &o, &alpha, 4);
        let b = edit(s, &o, &alpha, 4);
        (o, a, b)
    } else {
        match s.weighted(&[3, 4, 4, 1]) {
            0 => (lines(s, &alpha, 4, 0), lines(s, &alpha, 4, 0), lines(s, &alpha, 4, 0)),
            1 => {
                let o = lines(s, &alpha, 10, 2);
                let a = edit(s, &o, &alpha, 2);
                let b = edit(s, &o, &alpha, 2);
                (o, a, b)
            }
            2 => {
                let o = lines(s, &alpha, 20, 4);
                let a = edit(s, &o, &alpha, 3);
                let b = edit(s, &o, &alpha, 3);
                (o, a, b)
            }
            // the two versions share edits
            _ => {
                let o = lines(s, &alpha, 12, 3);
                let m = edit(s, &o, &alpha, 2);
                let a = edit(s, &m, &alpha, 2);
                let b = edit(s, &m, &alpha, 2);
                (o, a, b)
            }
        }
    };
    Triple { o: join(&o, final_nl(s)), a: join(&a, final_nl(s)), b: join(&b, final_nl(s)), utf8 }
}

pub fn triple(s: &mut Src) -> Triple {
    triple_sized(s, 2)
}

pub fn context_len(s: &mut Src) -> usize {
    match s.weighted(&[5, 4, 4, 3, 3, 3, 1, 1, 1, 1]) {
        0 => 3,
        1 => 0,
        2 => 1,
        3 => 2,
        4 => 4,
        5 => 5 + s.us(12),
        6 => 1000,
        7 => usize::MAX - s.us(6),
        8 => named_number(s),
        // where twice the length, or a length in fewer bits, wraps
        _ => {
            let top = 1usize << (7 + s.us(57));
            top.wrapping_sub(2).wrapping_add(s.us(5))
        }
    }
}

/// A file name, possibly needing quotes.
pub fn filename(s: &mut Src) -> String {
    const NAMES: &[&str] = &[
        "a", "original", "modified", "a/b.txt", "a b", " a", "a ", "", "-", "--- a", "/dev/null", "é\u{1F600}", "a\tb",
        "a\nb", "a\rb", "a\0b", "a\"b", "\"", "\"a\"", "\\", "a\\b", "a\\", "\\n", "\\\"", "a\n", "\n", "\t", "n", "0", "a'b",
        "@@ -1 +1 @@", "+++ b", "2020-01-01\t00:00", "\u{2028}", "\x1b", "\"a", "a\"",
    ];
    match s.weighted(&[3, 5, 3]) {
        0 => format!("{}.txt", (b'a' + s.n(4) as u8) as char),
        1 => (*s.pick(NAMES)).to_string(),
        _ => {
            const C: &[&str] = &["a", "n", "t", "r", "0", "\\", "\"", "\t", "\n", "\r", "\0", " ", "/", "é", "b", "\x1b", "'"];
            let mut v = String::new();
            while s.more(4) {
                if s.chance(1, 4) {
                    let u = std::str::from_utf8(s.pick(units())).unwrap_or("\u{7}");
                    v.push_str(u);
                } else {
                    v.push_str(s.pick(C));
                }
            }
            v
        }
    }
}

/// Every byte but the newline, characters that some function may treat specially, and the words
/// that the code under test names.
pub fn units() -> &'static [Vec<u8>] {
    static C: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v: Vec<Vec<u8>> = (0..=255u8).filter(|b| *b != b'\n').map(|b| vec![b]).collect();
        let mut chars: Vec<char> = (0x80..0x100u32).filter_map(char::from_u32).collect();
        chars.extend([
            '\u{100}', '\u{130}', '\u{131}', '\u{10a}', '\u{10d}', '\u{17f}', '\u{300}', '\u{3c2}', '\u{60a}', '\u{7ff}', '\u{800}', '\u{a0a}',
            '\u{1680}', '\u{180e}', '\u{2000}', '\u{2009}', '\u{200b}', '\u{200d}', '\u{200e}', '\u{2028}', '\u{2029}', '\u{202e}', '\u{202f}',
            '\u{205f}', '\u{2060}', '\u{240a}', '\u{3000}', '\u{d7ff}', '\u{e000}', '\u{fb01}', '\u{fe0f}', '\u{feff}', '\u{ff0a}', '\u{ffff}',
            '\u{fffd}', '\u{10000}', '\u{1000a}', '\u{1F600}', '\u{10ffff}',
        ]);
        v.extend(chars.into_iter().map(|c| c.to_string().into_bytes()));
        v.extend_from_slice(crate::dict::words());
        v
    })
}

/// A pair of texts around one of the units, which stands in a line after some other bytes.
/// There are `UNIT_PAIRS` of them for each unit.
pub const UNIT_PAIRS: u64 = 9 * 4;
pub fn unit_pair(u: &[u8], i: u64) -> Pair {
    let (off, kind) = ((i / 4) as usize, i % 4);
    let l = |pre: usize, u: &[u8], post: &[u8]| -> Line { [&vec![b'x'; pre][..], u, post].concat() };
    let lines = |v: &[Line], nl: bool| join(v, nl);
    let (f, e) = (b"first".to_vec(), b"last".to_vec());
    let (a, b) = match kind {
        // the line is replaced
        0 => (lines(&[f.clone(), l(off, u, b""), e.clone()], true), lines(&[f, l(off, b"y", b""), e], true)),
        // the line is kept, and has something after the unit
        1 => (lines(&[l(off, u, b"z"), b"p".to_vec()], true), lines(&[l(off, u, b"z"), b"q".to_vec()], false)),
        // the line is there with and without the unit
        2 => (lines(&[l(off, u, b""), l(off, b"", b"")], off % 2 == 0), lines(&[l(off, b"", b""), l(off, u, b"")], true)),
        // lines that are only there on one side
        _ => (lines(&[f.clone(), e.clone()], true), lines(&[f, l(off, u, u), l(0, u, b""), e, l(0, u, &vec![b'x'; off])], false)),
    };
    let utf8 = std::str::from_utf8(u).is_ok();
    if off % 2 == 0 {
        Pair { a, b, utf8 }
    } else {
        Pair { a: b, b: a, utf8 }
    }
}

/// All texts over the first `k` letters with at most `max` lines, shortest first. Each comes
/// once with and once without its final newline when `nl` is set.
pub fn small_texts(k: usize, max: usize, nl: bool) -> Vec<Vec<u8>> {
    let mut out = vec![Vec::new()];
    let mut cur: Vec<Vec<u8>> = vec![Vec::new()];
    for _ in 0..max {
        let mut next = Vec::new();
        for t in &cur {
            for c in 0..k {
                let mut t2 = t.clone();
                t2.push(b'a' + c as u8);
                t2.push(b'\n');
                next.push(t2);
            }
        }
        for t in &next {
            out.push(t.clone());
            if nl {
                out.push(t[..t.len() - 1].to_vec());
            }
        }
        cur = next;
    }
    out
}

/// Texts past the sizes small cases reach: many lines, many hunks, long lines.
pub fn huge(s: &mut Src) -> Pair {
    let utf8 = utf8(s);
    match s.us(7) {
        // many unique lines, a few edits anywhere, among them past line 65536
        0 => {
            let n = 65_000 + s.us(4000);
            let a: Vec<Line> = (0..n).map(|i| uniq(i as u64)).collect();
            let mut b = a.clone();
            for k in 0..1 + s.us(5) {
                let at = if k == 0 { b.len() - s.us(1500) } else { s.us(b.len() + 1) };
                let del = s.us(4).min(b.len() - at);
                let ins: Vec<Line> = (0..s.us(4)).map(|i| uniq(1_000_000 + (k * 10 + i) as u64)).collect();
                b.splice(at..at + del, ins);
            }
            finish_pair(s, a, b, utf8)
        }
        // very many hunks
        1 => {
            let n = 3000 + s.us(3000);
            let every = 2 + s.us(12);
            let a: Vec<Line> = (0..n).map(|i| uniq(i as u64)).collect();
            let mut b = Vec::new();
            for (i, l) in a.iter().enumerate() {
                if i % every == 1 {
                    match (i / every) % 3 {
                        0 => {}
                        1 => b.extend([l.clone(), uniq(2_000_000 + i as u64)]),
                        _ => b.push(uniq(3_000_000 + i as u64)),
                    }
                } else {
                    b.push(l.clone());
                }
            }
            finish_pair(s, a, b, utf8)
        }
        // wholly or mostly different, repeated lines
        2 => {
            let k = 2 + s.n(40);
            let n = 300 + s.us(900);
            let m = 300 + s.us(900);
            let mut r = crate::engine::Rng::new(s.n(1 << 32));
            let a: Vec<Line> = (0..n).map(|_| uniq(r.next() % k)).collect();
            let b: Vec<Line> = (0..m).map(|_| uniq(r.next() % (2 * k))).collect();
            finish_pair(s, a, b, utf8)
        }
        // the modified text holds, where an old line was, the line that is 2^k-th in order of first
        // appearance after it, so that line numbers kept in too few bits mix the two up
        4 => {
            let k = *s.pick(&[16usize, 16, 16, 8, 10, 12, 15, 17]);
            let n = 1 << k;
            let d = s.us(6);
            let extra = s.us(6);
            let a: Vec<Line> = (0..n + extra).map(|i| uniq(i as u64)).collect();
            let mut b = a.clone();
            for j in 0..1 + s.us(4) {
                // a fresh line is the (n + extra + j)-th to appear
                let at = (d + extra + j).min(b.len() - 1);
                b[at] = uniq(5_000_000 + j as u64);
            }
            if s.chance(1, 2) {
                b.truncate(b.len() - s.us(3));
            }
            finish_pair(s, a, b, utf8)
        }
        // long runs of a few lines repeated, with periods put in or taken out
        5 => {
            let period: Vec<Line> = (0..1 + s.us(3)).map(|i| uniq(i as u64)).collect();
            let times = match s.us(3) {
                0 => 20 + s.us(300),
                1 => 300 + s.us(1500),
                _ => 1500 + s.us(4000),
            };
            let run: Vec<Line> = (0..times * period.len()).map(|i| period[i % period.len()].clone()).collect();
            let mut a: Vec<Line> = (0..s.us(4)).map(|i| uniq(100 + i as u64)).collect();
            let first = a.len();
            a.extend(run);
            let end = a.len();
            a.extend((0..s.us(4)).map(|i| uniq(200 + i as u64)));
            let mut b = a.clone();
            for _ in 0..1 + s.us(2) {
                let at = match s.us(3) {
                    0 => first,
                    1 => end,
                    _ => first + s.us(end - first + 1),
                };
                let m = period.len() * (1 + s.us(3));
                match s.us(3) {
                    0 => {
                        let ins: Vec<Line> = (0..m).map(|i| period[i % period.len()].clone()).collect();
                        b.splice(at.min(b.len())..at.min(b.len()), ins);
                    }
                    1 => {
                        let at = at.min(b.len());
                        let m = m.min(b.len() - at);
                        b.drain(at..at + m);
                    }
                    _ => {
                        let at = at.min(b.len());
                        b.insert(at, uniq(300));
                    }
                }
            }
            finish_pair(s, a, b, utf8)
        }
        6 => many(s),
        // long lines
        _ => {
            let alpha: Vec<Line> = (0..4u8)
                .map(|i| {
                    let mut l = vec![if utf8 { b'x' } else { 0xff }; 65_530 + s.us(20)];
                    if s.chance(1, 2) {
                        l.push(b'0' + i);
                    } else {
                        l.insert(0, b'0' + i);
                    }
                    l
                })
                .collect();
            let n = 3 + s.us(12);
            let a: Vec<Line> = (0..n).map(|_| s.pick(&alpha).clone()).collect();
            let b = edit(s, &a, &alpha, 3);
            finish_pair(s, a, b, utf8)
        }
    }
}

/// Texts with thousands of differences.
pub fn many(s: &mut Src) -> Pair {
    let n = match s.us(4) {
        0 => 200 + s.us(1500),
        1 => 1000 + s.us(3000),
        2 => (1usize << (8 + s.us(5))) - 2 + s.us(5),
        _ => match named_number(s) {
            n @ 50..=9000 => n,
            _ => 4000 + s.us(4000),
        },
    };
    let mut r = crate::engine::Rng::new(s.n(1 << 32));
    let a: Vec<Line> = (0..n as u64).map(uniq).collect();
    let fresh = |i: usize| uniq(1_000_000 + i as u64);
    let b: Vec<Line> = match s.us(5) {
        // some or all lines replaced
        0 => {
            let p = *s.pick(&[2u64, 10, 30, 50, 80, 98, 100]);
            (0..n).map(|i| if r.next() % 100 < p { fresh(i) } else { a[i].clone() }).collect()
        }
        // blocks moved
        1 => {
            let len = 1 + s.us(n);
            let mut v: Vec<&[Line]> = a.chunks(len.min(n)).collect();
            for i in (1..v.len()).rev() {
                v.swap(i, (r.next() % (i as u64 + 1)) as usize);
            }
            v.concat()
        }
        // lines taken out and put in, at their own rates
        2 => {
            let (del, ins) = (1 + s.n(60), 1 + s.n(60));
            let mut v = vec![];
            for l in &a {
                while r.next() % 100 < ins {
                    v.push(fresh(v.len()));
                }
                if r.next() % 100 >= del {
                    v.push(l.clone());
                }
            }
            v
        }
        // neighbours swapped
        3 => {
            let mut v = a.clone();
            let p = 1 + s.n(100);
            let mut i = 0;
            while i + 1 < v.len() {
                if r.next() % 100 < p {
                    v.swap(i, i + 1);
                    i += 1;
                }
                i += 1;
            }
            v
        }
        // repeated lines
        _ => {
            let k = 2 + s.n(n as u64);
            let n = n.min(2500);
            let text = |r: &mut crate::engine::Rng| -> Vec<Line> { (0..n).map(|_| uniq(r.next() % k)).collect() };
            let (a, b) = (text(&mut r), text(&mut r));
            return finish_pair(s, a, b, true);
        }
    };
    finish_pair(s, a, b, true)
}

fn finish_pair(s: &mut Src, la: Vec<Line>, lb: Vec<Line>, utf8: bool) -> Pair {
    let a = join(&la, final_nl(s));
    let b = join(&lb, final_nl(s));
    if s.chance(1, 2) {
        Pair { a: b, b: a, utf8 }
    } else {
        Pair { a, b, utf8 }
    }
}

/// The numbers that the code under test names, and their neighbours.
pub fn named_numbers() -> impl Iterator<Item = usize> {
    crate::dict::numbers().iter().flat_map(|n| [n.saturating_sub(1), *n, n.saturating_add(1)])
}

/// One of them, or one near it.
pub fn named_number(s: &mut Src) -> usize {
    match crate::dict::numbers() {
        [] => s.us(8),
        v => s.pick(v).saturating_add(s.us(3)).saturating_sub(1),
    }
}

/// Sizes around which counters, buffers and limits tend to change what they do.
pub fn sizes(most: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=260).collect();
    for k in 9..=17 {
        let n = 1usize << k;
        v.extend([n - 1, n, n + 1]);
    }
    for n in [500usize, 1000, 2000, 3000, 5000, 10_000, 50_000, 100_000] {
        v.extend([n - 1, n, n + 1]);
    }
    v.extend(named_numbers());
    v.sort_unstable();
    v.dedup();
    v.retain(|n| *n <= most);
    v
}

type Shape = (usize, fn(usize) -> (Vec<Line>, Vec<Line>));

/// Pairs of texts with one dimension of a given size: (largest size, texts).
pub const PAIR_SHAPES: &[Shape] = &[
    // a change at the end of n lines
    (131_073, |n| {
        let a: Vec<Line> = (0..n as u64).map(uniq).collect();
        let mut b = a.clone();
        b.push(b"new".to_vec());
        (a, b)
    }),
    // one line more in a run of n equal ones
    (20_000, |n| {
        let a = vec![b"a".to_vec(); n];
        (a, vec![b"a".to_vec(); n + 1])
    }),
    // n changes far apart
    (4_097, |n| {
        let (mut a, mut b) = (vec![], vec![]);
        for i in 0..n as u64 {
            for j in 0..4 {
                a.push(uniq(i * 10 + j));
                b.push(uniq(i * 10 + j));
            }
            match i % 3 {
                0 => a.push(uniq(i * 10 + 5)),
                1 => b.push(uniq(i * 10 + 6)),
                _ => {
                    a.push(uniq(i * 10 + 5));
                    b.push(uniq(i * 10 + 6));
                }
            }
        }
        (a, b)
    }),
    // lines of n bytes that differ in the last one
    (131_073, |n| {
        let l = vec![b'x'; n];
        let end = |c: u8| [&l[..], &[c]].concat();
        (vec![b"k".to_vec(), end(b'a'), end(b'b')], vec![b"k".to_vec(), end(b'b'), end(b'a'), l.clone()])
    }),
    // n lines that are only there on one side
    (4_097, |n| {
        let a: Vec<Line> = [b"first".to_vec(), b"last".to_vec()].to_vec();
        let mut b = a.clone();
        b.splice(1..1, (0..n as u64).map(uniq));
        (a, b)
    }),
    // n lines replaced by n others
    (600, |n| {
        let wrap = |k: u64| -> Vec<Line> {
            let mut v = vec![b"first".to_vec()];
            v.extend((0..n as u64).map(|i| uniq(k + i)));
            v.push(b"last".to_vec());
            v
        };
        (wrap(0), wrap(1_000_000))
    }),
    // two changes n lines apart
    (131_073, |n| {
        let mid: Vec<Line> = (0..n as u64).map(uniq).collect();
        let wrap = |x: &str, y: &str| -> Vec<Line> {
            let mut v = vec![b"first".to_vec(), x.as_bytes().to_vec()];
            v.extend(mid.clone());
            v.extend([y.as_bytes().to_vec(), b"last".to_vec()]);
            v
        };
        (wrap("p", "q"), wrap("r", "s"))
    }),
    // n lines of which one in the middle differs
    (131_073, |n| {
        let a: Vec<Line> = (0..n as u64 + 1).map(uniq).collect();
        let mut b = a.clone();
        b[n / 2] = b"new".to_vec();
        (a, b)
    }),
    // n lines of which two in the middle have changed places
    (131_073, |n| {
        let a: Vec<Line> = (0..n as u64 + 2).map(uniq).collect();
        let mut b = a.clone();
        b.swap(n / 2, n / 2 + 1);
        (a, b)
    }),
    // n lines replaced by n others but for one in the middle
    (600, |n| {
        let wrap = |k: u64| -> Vec<Line> {
            let mut v: Vec<Line> = (0..n as u64 + 1).map(|i| uniq(k + i)).collect();
            v[n / 2] = b"kept".to_vec();
            v
        };
        (wrap(0), wrap(1_000_000))
    }),
    // n changes of neighbouring lines, with one line between them
    (1_025, |n| {
        let wrap = |k: u64| -> Vec<Line> { (0..2 * n as u64 + 1).map(|i| uniq(if i % 2 == 0 { i } else { k + i })).collect() };
        (wrap(1_000_000), wrap(2_000_000))
    }),
];

type Shape3 = (usize, fn(usize) -> [Vec<Line>; 3]);

fn separated(n: usize, f: impl Fn(u64) -> [Vec<Line>; 3]) -> [Vec<Line>; 3] {
    let mut t = [vec![], vec![], vec![]];
    for i in 0..n as u64 {
        for (t, x) in t.iter_mut().zip(f(i)) {
            t.extend(x);
            t.push(uniq(i));
        }
    }
    t
}

/// Ancestors and two versions with one dimension of a given size: (largest size, texts).
pub const TRIPLE_SHAPES: &[Shape3] = &[
    // n conflicts
    (2_049, |n| separated(n, |i| [vec![uniq(i * 3 + 1_000_000)], vec![uniq(i * 3 + 1_000_001)], vec![uniq(i * 3 + 1_000_002)]])),
    // n conflicts of insertions
    (2_049, |n| separated(n, |i| [vec![], vec![uniq(i * 2 + 1_000_000)], vec![uniq(i * 2 + 1_000_001)]])),
    // n changes of which the sides make every other
    (2_049, |n| {
        separated(n, |i| {
            let (o, v) = (uniq(i * 2 + 1_000_000), uniq(i * 2 + 1_000_001));
            match i % 3 {
                0 => [vec![o.clone()], vec![v], vec![o]],
                1 => [vec![o.clone()], vec![o], vec![v]],
                _ => [vec![o], vec![v.clone()], vec![v]],
            }
        })
    }),
    // a conflict whose versions have n lines
    (500, |n| {
        let l = |k: u64| -> Vec<Line> {
            let mut v = vec![b"first".to_vec()];
            v.extend((0..n as u64).map(|i| uniq(k + i)));
            v.push(b"last".to_vec());
            v
        };
        [l(0), l(1_000_000), l(2_000_000)]
    }),
    // changes n lines apart
    (65_537, |n| {
        let mid: Vec<Line> = (0..n as u64).map(uniq).collect();
        let l = |x: &str, y: &str| -> Vec<Line> {
            let mut v = vec![x.as_bytes().to_vec()];
            v.extend(mid.clone());
            v.push(y.as_bytes().to_vec());
            v
        };
        [l("p", "q"), l("r", "q"), l("p", "s")]
    }),
    // a conflict after n lines
    (65_537, |n| {
        let l = |x: &str| -> Vec<Line> {
            let mut v: Vec<Line> = (0..n as u64).map(uniq).collect();
            v.push(x.as_bytes().to_vec());
            v
        };
        [l("o"), l("a"), l("b")]
    }),
    // conflicting lines of n bytes
    (65_537, |n| {
        let l = |x: u8| -> Vec<Line> {
            let mut v = vec![b'x'; n];
            v.push(x);
            vec![b"first".to_vec(), v, b"last".to_vec()]
        };
        [l(b'o'), l(b'a'), l(b'b')]
    }),
    // sides that insert the same n lines but for one in the middle
    (4_097, |n| {
        let l = |x: &str| -> Vec<Line> {
            let mut v: Vec<Line> = (0..n as u64 + 1).map(|i| uniq(1_000_000 + i)).collect();
            v[n / 2] = x.as_bytes().to_vec();
            v.insert(0, b"first".to_vec());
            v.push(b"last".to_vec());
            v
        };
        [vec![b"first".to_vec(), b"last".to_vec()], l("a"), l("b")]
    }),
    // sides that replace n lines by the same n but for two that have changed places
    (500, |n| {
        let l = |k: u64| -> Vec<Line> {
            let mut v: Vec<Line> = (0..n as u64 + 2).map(|i| uniq(k + i)).collect();
            v.push(b"last".to_vec());
            v
        };
        let mut b = l(1_000_000);
        b.swap(n / 2, n / 2 + 1);
        [l(0), l(1_000_000), b]
    }),
    // one side deletes n lines, the other changes one in the middle of them
    (4_097, |n| {
        let l = |x: &str| -> Vec<Line> {
            let mut v: Vec<Line> = (0..n as u64 + 1).map(uniq).collect();
            v[n / 2] = x.as_bytes().to_vec();
            v.insert(0, b"first".to_vec());
            v.push(b"last".to_vec());
            v
        };
        [l("o"), vec![b"first".to_vec(), b"last".to_vec()], l("b")]
    }),
    // one side deletes n lines, the other adds one before, after or within them
    (4_097, |n| {
        let o: Vec<Line> = [b"first".to_vec()].into_iter().chain((0..n as u64).map(uniq)).chain([b"last".to_vec()]).collect();
        let mut b = o.clone();
        b.insert([1, n + 1, 1 + n / 2][n % 3], b"new".to_vec());
        [o, vec![b"first".to_vec(), b"last".to_vec()], b]
    }),
    // one side changes the first, the other the last of n lines, with the same line n times between
    (2_049, |n| {
        let l = |x: &str, y: &str| -> Vec<Line> {
            let mut v = vec![x.as_bytes().to_vec()];
            v.extend(vec![b"same".to_vec(); n]);
            v.push(y.as_bytes().to_vec());
            v
        };
        [l("p", "q"), l("r", "q"), l("p", "s")]
    }),
    // both sides make the same n changes, and one of them another at the end
    (2_049, |n| {
        let mut t = separated(n, |i| [vec![uniq(i * 2 + 1_000_000)], vec![uniq(i * 2 + 1_000_001)], vec![uniq(i * 2 + 1_000_001)]]);
        t[1 + n % 2].push(b"more".to_vec());
        t
    }),
];

/// An ancestor and two versions around one of the units. There are `UNIT_TRIPLES` for each unit.
pub const UNIT_TRIPLES: u64 = 9 * 4;
pub fn unit_triple(u: &[u8], i: u64) -> [Vec<u8>; 3] {
    let (off, kind) = ((i / 4) as usize, i % 4);
    let l = |u: &[u8], post: &[u8]| -> Line { [&vec![b'x'; off][..], u, post].concat() };
    let f = b"first".to_vec();
    match kind {
        // a conflict whose sides differ by the unit
        0 => [join(&[f.clone(), l(b"o", b"")], true), join(&[f.clone(), l(u, b"")], true), join(&[f, l(b"", b"")], true)],
        // a conflict with the unit in all three versions
        1 => [
            join(&[l(u, b"o"), f.clone()], true),
            join(&[l(u, b"a"), f.clone()], true),
            join(&[l(u, b"b"), f], true),
        ],
        // one side changes the line, the other one next to another line
        2 => [
            join(&[l(u, b""), f.clone(), l(b"", b"")], true),
            join(&[l(b"", b""), f.clone(), l(b"", b"")], true),
            join(&[l(u, b""), f, l(u, b"")], off % 2 == 0),
        ],
        // a conflict at the end of a text without a final newline
        _ => [join(&[f.clone(), l(b"o", u)], false), join(&[f.clone(), l(b"a", u)], off % 2 == 0), join(&[f, l(b"b", u)], false)],
    }
}

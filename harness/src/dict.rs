//! Words and numbers that stand in the source of the code under test, without its tests.
//!
//! A change that acts on one particular word or number has to name it. They only steer the
//! generators: when nothing can be read, the lists are empty and every check works as before.

use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default)]
struct Dict {
    words: Vec<Vec<u8>>,
    numbers: Vec<usize>,
}

const MOST_WORDS: usize = 300;
const MOST_NUMBERS: usize = 48;

fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        let Some(root) = source() else { return d };
        let mut files = vec![];
        find(&root, &mut files, 0);
        files.sort();
        for f in files {
            if let Ok(t) = std::fs::read(&f) {
                read(&t, &mut d);
            }
        }
        d.words.sort();
        d.words.dedup();
        d.words.truncate(MOST_WORDS);
        d.numbers.sort_unstable();
        d.numbers.dedup();
        d.numbers.truncate(MOST_NUMBERS);
        d
    })
}

/// Pieces of lines.
pub fn words() -> &'static [Vec<u8>] {
    &dict().words
}

pub fn numbers() -> &'static [usize] {
    &dict().numbers
}

/// The source folder of the crate that this one depends on.
fn source() -> Option<PathBuf> {
    let t = std::fs::read_to_string(Path::new(env!("CARGO_MANIFEST_DIR")).join("Cargo.toml")).ok()?;
    let l = t.lines().find(|l| l.starts_with("diffy"))?;
    let p = l.split('"').nth(1)?;
    Some(Path::new(p).join("src"))
}

fn find(dir: &Path, files: &mut Vec<PathBuf>, depth: usize) {
    let Ok(it) = std::fs::read_dir(dir) else { return };
    for e in it.flatten() {
        let p = e.path();
        let Ok(t) = e.file_type() else { continue };
        let name = e.file_name();
        let name = name.to_string_lossy();
        if t.is_dir() && depth < 6 && name != "tests" {
            find(&p, files, depth + 1);
        } else if t.is_file() && name.ends_with(".rs") && name != "tests.rs" && files.len() < 200 {
            files.push(p);
        }
    }
}

/// The literals of a source text, up to the first inline test module.
fn read(t: &[u8], d: &mut Dict) {
    const TESTS: &[u8] = b"#[cfg(test)]\nmod test";
    let inline = t.windows(TESTS.len()).position(|w| w == TESTS);
    let end = inline.filter(|i| t[*i..].iter().find(|b| b"{;".contains(b)) == Some(&b'{')).unwrap_or(t.len());
    let t = &t[..end];
    let at = |i: usize| t.get(i).copied().unwrap_or(0);
    let ident = |b: u8| b.is_ascii_alphanumeric() || b == b'_';
    let mut i = 0;
    // the last number, and an operator after it that may join it to the next
    let mut last: Option<(usize, u8)> = None;
    while i < t.len() {
        let c = t[i];
        if c == b'/' && at(i + 1) == b'/' {
            while i < t.len() && t[i] != b'\n' {
                i += 1;
            }
        } else if c == b'/' && at(i + 1) == b'*' {
            i += 2;
            while i < t.len() && !(t[i] == b'*' && at(i + 1) == b'/') {
                i += 1;
            }
            i += 2;
        } else if c == b'r' && (at(i + 1) == b'"' || at(i + 1) == b'#') && (i == 0 || !ident(t[i - 1]) || t[i - 1] == b'b') {
            let mut h = 0;
            while at(i + 1 + h) == b'#' {
                h += 1;
            }
            if at(i + 1 + h) != b'"' {
                i += 1;
                continue;
            }
            let from = i + 2 + h;
            let mut to = from;
            while to < t.len() && !(t[to] == b'"' && (0..h).all(|k| at(to + 1 + k) == b'#')) {
                to += 1;
            }
            word(&t[from..to], d);
            i = to + 1 + h;
            last = None;
        } else if c == b'"' {
            let (w, to) = text(t, i + 1, b'"');
            word(&w, d);
            i = to + 1;
            last = None;
        } else if c == b'\'' {
            // a character, unless it is a lifetime
            if at(i + 1) != b'\\' && ident(at(i + 1)) && at(i + 2) != b'\'' {
                i += 2;
            } else {
                let (w, to) = text(t, i + 1, b'\'');
                if w.len() <= 4 {
                    word(&w, d);
                }
                i = to + 1;
            }
            last = None;
        } else if ident(c) {
            let from = i;
            while i < t.len() && ident(t[i]) {
                i += 1;
            }
            if !c.is_ascii_digit() {
                last = None;
                continue;
            }
            let Some(n) = number(&t[from..i]) else {
                last = None;
                continue;
            };
            d.numbers.push(n);
            let joined = match last {
                Some((m, b'*')) => m.checked_mul(n),
                Some((m, b'<')) => u32::try_from(n).ok().and_then(|n| m.checked_shl(n)),
                Some((m, b'-')) => m.checked_sub(n),
                Some((m, b'+')) => m.checked_add(n),
                _ => None,
            };
            d.numbers.extend(joined);
            last = Some((joined.unwrap_or(n), 0));
        } else {
            if !c.is_ascii_whitespace() {
                last = match last {
                    Some((n, 0)) if b"*<-+".contains(&c) => Some((n, c)),
                    Some((n, b'<')) if c == b'<' => Some((n, c)),
                    _ => None,
                };
            }
            i += 1;
        }
    }
}

fn number(w: &[u8]) -> Option<usize> {
    let w: String = w.iter().filter(|b| **b != b'_').map(|b| *b as char).collect();
    let w = ["usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64"]
        .iter()
        .find_map(|s| w.strip_suffix(s))
        .unwrap_or(&w);
    if let Some(h) = w.strip_prefix("0x") {
        usize::from_str_radix(h, 16).ok()
    } else if let Some(h) = w.strip_prefix("0b") {
        usize::from_str_radix(h, 2).ok()
    } else {
        w.parse().ok()
    }
}

/// The bytes of a literal up to its end mark, and where that is.
fn text(t: &[u8], from: usize, end: u8) -> (Vec<u8>, usize) {
    let mut v = vec![];
    let mut i = from;
    while i < t.len() && t[i] != end {
        if t[i] != b'\\' {
            v.push(t[i]);
            i += 1;
            continue;
        }
        i += 1;
        let e = t.get(i).copied().unwrap_or(0);
        i += 1;
        match e {
            b'n' => v.push(b'\n'),
            b't' => v.push(b'\t'),
            b'r' => v.push(b'\r'),
            b'0' => v.push(0),
            b'x' => {
                let h = t.get(i..i + 2).and_then(|h| std::str::from_utf8(h).ok());
                v.extend(h.and_then(|h| u8::from_str_radix(h, 16).ok()));
                i += 2;
            }
            b'u' => {
                let to = t[i.min(t.len())..].iter().position(|b| *b == b'}').map_or(t.len(), |k| i + k);
                let h = t.get(i + 1..to).and_then(|h| std::str::from_utf8(h).ok());
                let c = h.and_then(|h| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32);
                v.extend(c.map(|c| c.to_string().into_bytes()).unwrap_or_default());
                i = to + 1;
            }
            b'\n' => {
                while i < t.len() && t[i].is_ascii_whitespace() {
                    i += 1;
                }
            }
            _ => v.push(e),
        }
    }
    (v, i.min(t.len()))
}

/// Keep the lines of a literal, and the fixed parts of a format.
fn word(w: &[u8], d: &mut Dict) {
    for l in w.split(|b| *b == b'\n') {
        let mut rest = l;
        loop {
            let (part, next) = match rest.iter().position(|b| *b == b'{') {
                Some(k) => {
                    let to = rest[k..].iter().position(|b| *b == b'}').map_or(rest.len(), |e| k + e + 1);
                    (&rest[..k], Some(&rest[to..]))
                }
                None => (rest, None),
            };
            // single bytes are all there in any case
            if (2..=120).contains(&part.len()) {
                d.words.push(part.to_vec());
            }
            match next {
                Some(n) => rest = n,
                None => break,
            }
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn literals() {
        let mut d = Dict::default();
        read(
            br####"// "no"
fn f<'a>(x: &'a str) -> u8 { /* "neither" */ if x == "--- " || x == r#"q"r"# { b"\x41\u{e9}b"; '\''; 'ab } write!(f, "<<{} >>{x}"); 1 << 16; 64 * 1_024usize - 1; 0xff; '\u{2028}'; v2 }
#[cfg(test)]
mod tests { "hidden" }
"####,
            &mut d,
        );
        let w: Vec<_> = d.words.iter().map(|w| String::from_utf8_lossy(w).into_owned()).collect();
        assert_eq!(w, ["--- ", "q\"r", "A\u{e9}b", "<<", " >>", "\u{2028}"]);
        assert_eq!(d.numbers, [1, 16, 65536, 64, 1024, 65536, 1, 65535, 255]);
    }

    #[test]
    fn show() {
        for w in words() {
            eprintln!("{:?}", String::from_utf8_lossy(w));
        }
        eprintln!("{:?}", numbers());
    }
}

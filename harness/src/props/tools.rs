//! Parts that let other programs be the oracle: git, GNU diff and GNU patch read what the library
//! writes, and write what it reads. They work in a scratch directory which is removed after each
//! case. Where a tool is missing or cannot do its work here, the case counts as not decided.

use super::*;
use crate::refm::*;
use diffy::{apply_bytes, Patch};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Scratch(PathBuf);

impl Scratch {
    pub fn new() -> Option<Scratch> {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let d = base.join(format!("diffy-check-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).ok()?;
        Some(Scratch(d))
    }
    pub fn write(&self, name: &str, data: &[u8]) -> Option<()> {
        std::fs::write(self.0.join(name), data).ok()
    }
    pub fn read(&self, name: &str) -> Option<Vec<u8>> {
        std::fs::read(self.0.join(name)).ok()
    }
    /// The exit code and output of a program run in the directory, if it could be run at all.
    pub fn run(&self, program: &str, args: &[&str]) -> Option<(i32, Vec<u8>, Vec<u8>)> {
        let o = Command::new(program)
            .args(args)
            .current_dir(&self.0)
            .env_clear()
            .env("PATH", "/usr/local/bin:/usr/bin:/bin")
            .env("HOME", &self.0)
            .env("TMPDIR", &self.0)
            .env("LC_ALL", "C")
            .env("GIT_CONFIG_NOSYSTEM", "1")
            .env("GIT_CONFIG_GLOBAL", "/dev/null")
            .env("GIT_CEILING_DIRECTORIES", self.0.parent()?)
            .stdin(Stdio::null())
            .output()
            .ok()?;
        Some((o.status.code()?, o.stdout, o.stderr))
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// A diff that replaces the whole text, written here.
fn whole(a: &[u8], b: &[u8]) -> Vec<u8> {
    let (la, lb) = (split(a), split(b));
    let start = |n: usize| usize::from(n > 0);
    let mut t = format!("--- a/f\n+++ b/f\n@@ -{},{} +{},{} @@\n", start(la.len()), la.len(), start(lb.len()), lb.len()).into_bytes();
    for (tag, ls) in [(b'-', la), (b'+', lb)] {
        for l in ls {
            t.push(tag);
            t.extend(l);
            if !l.ends_with(b"\n") {
                t.extend(b"\n\\ No newline at end of file\n");
            }
        }
    }
    t
}

#[derive(Clone, Copy)]
enum Tool {
    Git,
    Patch,
}

/// What the tool makes of `from` with the diff `text`: the text, or what it says. None if it could not be asked.
fn applied(tool: Tool, back: bool, from: &[u8], text: &[u8]) -> Option<Result<Vec<u8>, String>> {
    let d = Scratch::new()?;
    d.write("f", from)?;
    d.write("p", text)?;
    let (code, out, err) = match (tool, back) {
        (Tool::Git, false) => d.run("git", &["apply", "--whitespace=nowarn", "-v", "p"])?,
        (Tool::Git, true) => d.run("git", &["apply", "--whitespace=nowarn", "-v", "-R", "p"])?,
        (Tool::Patch, false) => d.run("patch", &["--binary", "--fuzz=0", "-p1", "-f", "-u", "-i", "p", "f"])?,
        (Tool::Patch, true) => d.run("patch", &["--binary", "--fuzz=0", "-p1", "-f", "-u", "-R", "-i", "p", "f"])?,
    };
    let said = format!("{}{}", String::from_utf8_lossy(&out), String::from_utf8_lossy(&err));
    if code != 0 {
        return Some(Err(format!("exit {code}: {said}")));
    }
    if said.contains("offset") || said.contains("fuzz") {
        return Some(Err(format!("did not find a hunk where it says: {said}")));
    }
    Some(Ok(d.read("f").unwrap_or_default()))
}

pub fn c03_tools(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::pair(s);
    let n = gen::context_len(s);
    input_pair(cx, &p.a, &p.b, n);
    let mut o = opts(n);
    o.set_original_filename("a/f").set_modified_filename("b/f");
    let patch = o.create_patch_bytes(&p.a, &p.b);
    if patch.hunks().is_empty() {
        // "no valid patches in input" is an error of both tools
        return Ok(());
    }
    let text = patch.to_bytes();
    let control = whole(&p.a, &p.b);
    let mut asked = 0;
    for (tool, name) in [(Tool::Git, "git apply"), (Tool::Patch, "patch")] {
        if matches!(tool, Tool::Git) && n == 0 {
            // git apply does not place hunks without context exactly
            continue;
        }
        for (back, from, to) in [(false, &p.a, &p.b), (true, &p.b, &p.a)] {
            let Some(got) = applied(tool, back, from, &text) else { continue };
            if got.as_ref() == Ok(to) {
                asked += 1;
                continue;
            }
            // only if the tool can do with a diff written here what it could not with the library's
            if applied(tool, back, from, &control) != Some(Ok(to.clone())) {
                cx.class("a tool cannot work on these texts at all");
                continue;
            }
            let what = if back { "backwards" } else { "forwards" };
            return Err(match got {
                Ok(v) => format!("{name} {what}: gives\n  {}\n  instead of\n  {}\n  with\n{}", clip(&v), clip(to), clip(&text)),
                Err(e) => format!("{name} {what}: {e}\n  with\n{}", clip(&text)),
            });
        }
    }
    cx.class(if asked == 4 { "both tools, both ways" } else { "not every tool" });
    cx.mark(asked > 0);
    Ok(())
}

const HEADS: &[&str] = &["", "^[[:alpha:]$_]", "."];

pub fn c07_tools(s: &mut Src, cx: &mut Cx) -> Res {
    let p = gen::pair(s);
    let n = if s.chance(1, 8) { 1000 } else { s.us(7) };
    input_pair(cx, &p.a, &p.b, n);
    const NAMES: &[&str] = &["f", "a b", "x.rs", "two  blanks", "end ", "q\"q", "back\\slash", "tab\tname", "new\nline", "--- f", "+++", "@@ -1 +1 @@", ".."];
    let (na, nb) = (*s.pick(NAMES), *s.pick(NAMES));
    let (na, nb) = (format!("{na}1"), format!("{nb}2"));
    cx.input("old name", na.as_bytes());
    cx.input("new name", nb.as_bytes());
    let git = s.chance(1, 2);
    let blank = s.chance(1, 2);
    let how = s.us(4);
    let head = *s.pick(HEADS);
    cx.input_n("git", u64::from(git));
    cx.input_n("how", (how * 2 + usize::from(blank)) as u64);
    let Some(d) = Scratch::new() else { return Ok(()) };
    if d.write(&na, &p.a).is_none() || d.write(&nb, &p.b).is_none() {
        return Ok(());
    }
    let unified = format!("-U{n}");
    let out = if git {
        let suppress = format!("diff.suppressBlankEmpty={blank}");
        let algo = ["--minimal", "--patience", "--histogram", "--diff-algorithm=myers"][how];
        d.run("git", &["-c", &suppress, "-c", "core.quotePath=false", "diff", "--no-index", "--no-color", "--text", "--no-ext-diff", &unified, algo, "--", &na, &nb])
    } else {
        let mut v = vec!["--text", "--unified=X"];
        v[1] = &unified;
        if blank {
            v.push("--suppress-blank-empty");
        }
        if how & 1 == 1 {
            v.push("--minimal");
        }
        if !head.is_empty() {
            v.extend(["-F", head]);
        }
        v.extend(["--", &na, &nb]);
        d.run("diff", &v)
    };
    let Some((code, text, _)) = out else { return Ok(()) };
    if code != 1 || text.is_empty() {
        return Ok(());
    }
    cx.class(if git { "written by git" } else { "written by diff" });
    cx.input("text", &text);
    cx.mark(true);
    // the lines, as the tool counts them: read by the strict reader, from the first hunk on
    let ls = split(&text);
    let first = ls.iter().position(|l| l.starts_with(b"@@ ")).unwrap_or(ls.len());
    let body = ls[first..].concat();
    let Ok(mut want) = parse_strict(&body) else {
        cx.class("not read by the strict reader");
        return Ok(());
    };
    match apply_strict(&p.a, &want.hunks) {
        Ok(v) if v == p.b => {}
        _ => {
            cx.class("not understood by the strict reader");
            return Ok(());
        }
    }
    let pre = |side: &str, n: &str| Some(if git { format!("{side}/{n}") } else { n.to_string() }.into_bytes());
    (want.old, want.new) = (pre("a", &na), pre("b", &nb));
    let got = Patch::from_bytes(&text).map_err(|e| format!("from_bytes rejects what the tool wrote: {e}\n{}", clip(&text)))?;
    let seen = observe_b(&got);
    check(seen == want, || format!("from_bytes reads\n  {seen:?}\nbut what was written is\n  {want:?}\n  in\n{}", clip(&text)))?;
    let r = apply_bytes(&p.a, &got).map_err(|e| format!("the diff a tool wrote does not apply: {e}\n{}", clip(&text)))?;
    same("applying a diff written by a tool", &r, &p.b)?;
    if let Some(t) = st(&text) {
        let got = Patch::from_str(t).map_err(|e| format!("from_str rejects what the tool wrote: {e}\n{t}"))?;
        let seen = observe_s(&got);
        check(seen == want, || format!("from_str reads\n  {seen:?}\nbut what was written is\n  {want:?}"))?;
    }
    Ok(())
}

/// `git merge-file` on triples in which only one alignment makes sense.
pub fn c15_tools(s: &mut Src, cx: &mut Cx) -> Res {
    let [o, a, b] = super::merging::unique_triple(s);
    super::merging::input_triple(cx, &o, &a, &b);
    let len = if s.chance(1, 3) { 1 + s.us(40) } else { 7 };
    cx.input_n("marker length", len as u64);
    cx.mark(o != a && o != b && a != b);
    c15_git(&o, &a, &b, len, cx)
}

fn c15_git(o: &[u8], a: &[u8], b: &[u8], len: usize, cx: &mut Cx) -> Res {
    let size = format!("--marker-size={len}");
    let opts = super::merging::mo(len, true);
    let Some(d) = Scratch::new() else { return Ok(()) };
    if d.write("o", o).is_none() || d.write("ours", a).is_none() || d.write("theirs", b).is_none() {
        return Ok(());
    }
    let Some((code, out, _)) = d.run("git", &["merge-file", "-p", "--diff3", &size, "-L", "ours", "-L", "original", "-L", "theirs", "ours", "o", "theirs"]) else {
        return Ok(());
    };
    if !(0..=127).contains(&code) {
        return Ok(());
    }
    cx.class(if code == 0 { "git merges it" } else { "git has conflicts" });
    let want = if code == 0 { Ok(out) } else { Err(out) };
    super::merging::same_merge("merge_bytes against git merge-file", &opts.merge_bytes(o, a, b), &want)?;
    if let (Some(o), Some(a), Some(b)) = (st(o), st(a), st(b)) {
        super::merging::same_merge("merge against git merge-file", &super::merging::flat(opts.merge(o, a, b)), &want)?;
    }
    Ok(())
}

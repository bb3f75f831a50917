//! `run ID [TIER]` decides one property; `replay FILE` re-runs a recorded failure; `list`.

use harness::engine::*;
use harness::props;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const BLOCK: u64 = 64;
const STACK: usize = 8 << 20;

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}

fn prop_hash(id: &str) -> u64 {
    id.bytes().fold(7, |h, b| mix(&[h, u64::from(b)]))
}

fn case_seed(id: &str, part: usize, i: u64) -> u64 {
    mix(&[seed(), prop_hash(id), part as u64, i])
}

fn find(id: &str) -> Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

fn size(k: &Kind, thorough: bool) -> u64 {
    match k {
        Kind::Random { quick, thorough: t, .. } => {
            if thorough {
                *t
            } else {
                *quick
            }
        }
        Kind::Enum { quick, thorough: t, .. } => {
            if thorough {
                t()
            } else {
                quick()
            }
        }
    }
}

/// What identifies a failing case.
enum Found {
    Choices(Vec<u64>),
    Index(u64),
    Seed(u64),
}

fn write_replay(id: &str, part: &str, found: &Found, msg: &str, notes: &[(String, String)]) -> PathBuf {
    let how = match found {
        Found::Choices(c) => format!("choices={}", c.iter().map(u64::to_string).collect::<Vec<_>>().join(",")),
        Found::Index(i) => format!("index={i}"),
        Found::Seed(s) => format!("seed={s}"),
    };
    let body = format!(
        "property={id}\npart={part}\n{how}\n\n# what failed\n{msg}\n\n# the case\n{}\n# replay: ./check.sh replay <this file>\n",
        notes_text(notes)
    );
    let h = body.bytes().fold(0u64, |h, b| mix(&[h, u64::from(b)]));
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{h:016x}.txt"));
    if let Err(e) = std::fs::write(&path, body) {
        eprintln!("cannot write {}: {e}", path.display());
    }
    path
}

struct PartOut {
    name: &'static str,
    size: u64,
    done: u64,
    enumerated: bool,
    failure: Option<(u64, String)>,
    took: f64,
}

fn child(id: &str, tier: &str, journal: &Path) -> i32 {
    install_panic_hook();
    let start = Instant::now();
    let thorough = tier == "thorough";
    let prop = find(id);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);

    let mut outs: Vec<PartOut> = Vec::new();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut evals = 0u64;
    let mut samples: Vec<(usize, u64)> = Vec::new();

    for (pi, part) in prop.parts.iter().enumerate() {
        let total = size(&part.kind, thorough);
        let began = Instant::now();
        // small parts hold the expensive cases
        let block = (total / 4096).clamp(1, BLOCK);
        let next = AtomicU64::new(0);
        let first_bad = AtomicU64::new(u64::MAX);
        let failure: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let cxs: Vec<(Cx, Vec<u64>)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..workers)
                .map(|w| {
                    let (next, first_bad, failure, kind) = (&next, &first_bad, &failure, &part.kind);
                    let jf = std::fs::OpenOptions::new()
                        .create(true)
                        .truncate(false)
                        .write(true)
                        .open(journal.join(format!("w{w}")))
                        .ok();
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(s, move || {
                            let mut cx = Cx::default();
                            let mut sm = Vec::new();
                            'outer: loop {
                                let lo = next.fetch_add(block, Ordering::SeqCst);
                                if lo >= total {
                                    break;
                                }
                                for i in lo..(lo + block).min(total) {
                                    if i > first_bad.load(Ordering::SeqCst) {
                                        break 'outer;
                                    }
                                    if let Some(j) = &jf {
                                        let mut b = [0u8; 16];
                                        b[..8].copy_from_slice(&(pi as u64).to_le_bytes());
                                        b[8..].copy_from_slice(&i.to_le_bytes());
                                        let _ = j.write_at(&b, 0);
                                    }
                                    let r = match kind {
                                        Kind::Random { f, .. } => {
                                            run_random(*f, &mut Src::random(case_seed(id, pi, i)), &mut cx)
                                        }
                                        Kind::Enum { f, .. } => run_enum(*f, i, &mut cx),
                                    };
                                    if cx.end() {
                                        sm.push(i);
                                    }
                                    if let Err(m) = r {
                                        let mut g = failure.lock().unwrap();
                                        if g.as_ref().map_or(true, |(j, _)| i < *j) {
                                            *g = Some((i, m));
                                        }
                                        first_bad.fetch_min(i, Ordering::SeqCst);
                                        break 'outer;
                                    }
                                }
                            }
                            if let Some(j) = &jf {
                                let _ = j.write_at(&[0xff; 16], 0);
                            }
                            (cx, sm)
                        })
                        .expect("spawn")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        let mut done = 0;
        for (cx, sm) in cxs {
            done += cx.evals;
            keys.extend(cx.keys.iter().map(|k| mix(&[*k, pi as u64])));
            for (k, v) in cx.classes {
                *classes.entry(k).or_insert(0) += v;
            }
            samples.extend(sm.into_iter().map(|i| (pi, i)));
        }
        evals += done;
        let bad = failure.into_inner().unwrap();
        let stop = bad.is_some();
        outs.push(PartOut {
            name: part.name,
            size: total,
            done,
            enumerated: matches!(part.kind, Kind::Enum { .. }),
            failure: bad,
            took: began.elapsed().as_secs_f64(),
        });
        if stop {
            break;
        }
    }

    // samples: a few from every part
    samples.sort_unstable();
    let mut shown: Vec<String> = Vec::new();
    for pi in 0..prop.parts.len() {
        let mine: Vec<u64> = samples.iter().filter(|s| s.0 == pi).map(|s| s.1).collect();
        let step = (mine.len() / 3).max(1);
        for i in mine.iter().step_by(step).take(3) {
            let notes = match &prop.parts[pi].kind {
                Kind::Random { f, .. } => {
                    let mut cx = Cx { verbose: true, ..Cx::default() };
                    let _ = run_random(*f, &mut Src::random(case_seed(id, pi, *i)), &mut cx);
                    cx.notes
                }
                Kind::Enum { f, .. } => describe_enum(*f, *i).1,
            };
            let mut t = format!("[{} #{}] ", prop.parts[pi].name, i);
            for (k, v) in notes {
                let v: String = if v.len() > 300 {
                    format!("{}... ({} chars)", v.chars().take(300).collect::<String>(), v.len())
                } else {
                    v
                };
                t.push_str(&format!("{k}={v}; "));
            }
            shown.push(t);
        }
    }

    let mut violations = 0;
    for (pi, o) in outs.iter().enumerate() {
        println!(
            "{id} part {}: {} of {} cases, {:.1}s{}",
            o.name,
            o.done,
            o.size,
            o.took,
            if o.failure.is_some() { ", FAILED" } else { "" }
        );
        if let Some((i, m)) = &o.failure {
            violations += 1;
            // should shrinking not come to an end, the case itself is the replay
            let early = match &prop.parts[pi].kind {
                Kind::Random { .. } => Found::Seed(case_seed(id, pi, *i)),
                Kind::Enum { .. } => Found::Index(*i),
            };
            let early = write_replay(id, o.name, &early, m, &[]);
            let _ = std::fs::write(journal.join("failed"), format!("{}\n{m}", early.display()));
            let (found, msg, notes) = match &prop.parts[pi].kind {
                Kind::Random { f, .. } => {
                    let mut s = Src::random(case_seed(id, pi, *i));
                    let mut cx = Cx::default();
                    let again = run_random(*f, &mut s, &mut cx);
                    if again.is_err() {
                        let (c, _) = shrink(*f, s.rec, 6000);
                        let (r, notes) = describe_random(*f, &c);
                        match r {
                            Err(m2) => (Found::Choices(c), m2, notes),
                            Ok(()) => (Found::Seed(case_seed(id, pi, *i)), m.clone(), notes),
                        }
                    } else {
                        // depends on more than the case: keep what was seen
                        (Found::Seed(case_seed(id, pi, *i)), format!("(not reproduced on its own) {m}"), vec![])
                    }
                }
                Kind::Enum { f, .. } => {
                    let (r, notes) = describe_enum(*f, *i);
                    (Found::Index(*i), r.err().unwrap_or_else(|| m.clone()), notes)
                }
            };
            let path = write_replay(id, o.name, &found, &msg, &notes);
            if path != early {
                let _ = std::fs::remove_file(&early);
            }
            println!("{msg}");
            for (k, v) in &notes {
                let v: String = v.chars().take(1000).collect();
                println!("  {k} = {v}");
            }
            println!("VIOLATION property={id} replay={}", path.display());
        }
    }

    evidence(id, tier, evals, keys.len() as u64, prop.rule, &shown, &classes, &outs, violations, start);
    if violations > 0 {
        1
    } else {
        println!("{id}: held on {evals} cases, {} distinct non-trivial, {:.1}s", keys.len(), start.elapsed().as_secs_f64());
        0
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    id: &str,
    tier: &str,
    evals: u64,
    distinct: u64,
    rule: &str,
    samples: &[String],
    classes: &BTreeMap<&'static str, u64>,
    outs: &[PartOut],
    violations: u64,
    start: Instant,
) {
    let cls = classes.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", ");
    let parts = outs
        .iter()
        .map(|o| {
            format!(
                "{{\"name\": {}, \"cases\": {}, \"enumerated_completely\": {}}}",
                json_str(o.name),
                o.done,
                o.enumerated && o.done == o.size
            )
        })
        .collect::<Vec<_>>()
        .join(", ");
    let sm = samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n   ");
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {distinct},\n  \"rule\": {},\n  \"classes\": {{{cls}}},\n  \"parts\": [{parts}],\n  \"samples\": [\n   {sm}\n  ]\n }},\n \"assumptions\": [\"the harness's reference models and oracles (harness/src/refm.rs)\", \"the library is built with debug assertions and overflow checks\"],\n \"violations\": {violations},\n \"wall_s\": {:.2}\n}}\n",
        json_str(id),
        json_str(tier),
        seed(),
        json_str(rule),
        start.elapsed().as_secs_f64(),
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), text) {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(2);
    }
}

/// How a child process ended.
enum End {
    Code(i32),
    Signal(i32),
    /// One of its workers stayed on the same case for too long, or the limit was reached.
    Stalled,
}

/// The longest a single case may take. Cases take milliseconds, the largest a few seconds.
const STALL: Duration = Duration::from_secs(100);

fn positions(journal: &Path) -> Vec<[u8; 16]> {
    (0..8)
        .map(|w| match std::fs::read(journal.join(format!("w{w}"))) {
            Ok(b) if b.len() == 16 => b.try_into().unwrap(),
            _ => [0xff; 16],
        })
        .collect()
}

fn supervise(args: &[&str], limit: Duration, cpu: Option<Duration>, journal: Option<&Path>) -> Result<End, String> {
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut cmd = match cpu {
        None => std::process::Command::new(me),
        Some(t) => {
            let mut c = std::process::Command::new("bash");
            c.arg("-c").arg(format!("ulimit -S -t {}; exec \"$0\" \"$@\"", t.as_secs())).arg(me);
            c
        }
    };
    let mut c = cmd.args(args).spawn().map_err(|e| e.to_string())?;
    let start = Instant::now();
    let mut seen: Vec<([u8; 16], Instant)> = vec![([0xff; 16], start); 8];
    let mut looked = start;
    loop {
        if let Some(s) = c.try_wait().map_err(|e| e.to_string())? {
            return Ok(match (s.code(), s.signal()) {
                (Some(c), _) => End::Code(c),
                (_, sig) => End::Signal(sig.unwrap_or(0)),
            });
        }
        let mut stalled = start.elapsed() > limit;
        if let (Some(j), true) = (journal, looked.elapsed() > Duration::from_secs(1)) {
            looked = Instant::now();
            for (s, now) in seen.iter_mut().zip(positions(j)) {
                if s.0 != now || now == [0xff; 16] {
                    *s = (now, Instant::now());
                } else {
                    stalled |= s.1.elapsed() > STALL;
                }
            }
        }
        if stalled {
            let _ = c.kill();
            let _ = c.wait();
            return Ok(End::Stalled);
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

/// SIGSEGV, SIGBUS, SIGABRT: the library brought the process down (stack overflow, out of memory).
fn fatal(sig: i32) -> bool {
    matches!(sig, 11 | 7 | 6)
}

fn run(id: &str, tier: &str) -> i32 {
    let prop = find(id);
    let journal = std::env::temp_dir().join(format!("vcheck-diffy-{}", std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&journal) {
        eprintln!("cannot create {}: {e}", journal.display());
        return 2;
    }
    let limit = Duration::from_secs(if tier == "thorough" { 8 * 3600 } else { 600 });
    let code = match supervise(&["child", id, tier, &journal.to_string_lossy()], limit, None, Some(&journal)) {
        Err(e) => {
            eprintln!("{id}: {e}");
            2
        }
        Ok(End::Code(c @ (0 | 1))) => c,
        Ok(End::Code(c)) => {
            eprintln!("{id}: worker ended with code {c}");
            2
        }
        Ok(End::Signal(sig)) if !fatal(sig) => {
            eprintln!("{id}: worker ended by signal {sig}");
            2
        }
        Ok(_) => crash(&prop, &journal, tier),
    };
    let _ = std::fs::remove_dir_all(&journal);
    code
}

/// The workers did not come to an end. Report the failure that was being shrunk, or find, among
/// the cases the workers were on, one that crashes or does not come to an end by itself.
fn crash(prop: &Prop, journal: &Path, tier: &str) -> i32 {
    let id = prop.id;
    let start = Instant::now();
    let report = |path: &Path, msg: &str, evals: u64| {
        evidence(id, tier, evals, 0, prop.rule, &[msg.to_string()], &BTreeMap::new(), &[], 1, start);
        println!("{msg}");
        println!("VIOLATION property={id} replay={}", path.display());
        1
    };
    if let Ok(t) = std::fs::read_to_string(journal.join("failed")) {
        let (path, msg) = t.split_once('\n').unwrap_or((&t, ""));
        return report(Path::new(path), msg, 1);
    }
    let mut cands: Vec<(usize, u64)> = positions(journal)
        .iter()
        .filter(|b| **b != [0xff; 16])
        .map(|b| {
            let at = |r: std::ops::Range<usize>| u64::from_le_bytes(b[r].try_into().unwrap());
            (at(0..8) as usize, at(8..16))
        })
        .collect();
    cands.sort_unstable();
    cands.dedup();
    let ends: Vec<Option<End>> = std::thread::scope(|s| {
        let hs: Vec<_> = cands
            .iter()
            .map(|(p, i)| s.spawn(move || supervise(&["case", id, &p.to_string(), &i.to_string()], 2 * STALL, Some(STALL), None).ok()))
            .collect();
        hs.into_iter().map(|h| h.join().expect("supervisor")).collect()
    });
    for ((p, i), end) in cands.into_iter().zip(ends) {
        let msg = match end {
            Some(End::Signal(sig)) if fatal(sig) => {
                format!("the process running this case is ended by signal {sig} (stack overflow, or out of memory)")
            }
            // SIGXCPU
            Some(End::Signal(24)) => format!("this case does not come to an end within {} s of processor time", STALL.as_secs()),
            // slow, but it came to an end, and the property does not hold of it
            Some(End::Code(1)) => "this case fails, after a long time (replay it for details)".to_string(),
            _ => continue,
        };
        let found = match prop.parts[p].kind {
            Kind::Random { .. } => Found::Seed(case_seed(id, p, i)),
            Kind::Enum { .. } => Found::Index(i),
        };
        let path = write_replay(id, prop.parts[p].name, &found, &msg, &[]);
        return report(&path, &msg, i + 1);
    }
    eprintln!("{id}: the workers did not come to an end, and no single case reproduces it");
    2
}

fn on_worker_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, f)
            .expect("spawn")
            .join()
            .expect("worker")
    })
}

fn one_case(id: &str, part: usize, i: u64) -> i32 {
    install_panic_hook();
    let prop = find(id);
    let r = on_worker_stack(|| {
        let mut cx = Cx::default();
        match prop.parts[part].kind {
            Kind::Random { f, .. } => run_random(f, &mut Src::random(case_seed(id, part, i)), &mut cx),
            Kind::Enum { f, .. } => run_enum(f, i, &mut cx),
        }
    });
    i32::from(r.is_err())
}

fn replay(path: &str) -> i32 {
    install_panic_hook();
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let get = |k: &str| text.lines().take(3).find_map(|l| l.strip_prefix(k).map(str::to_string));
    let (Some(id), Some(part)) = (get("property="), get("part=")) else {
        eprintln!("{path}: not a replay file");
        return 2;
    };
    let prop = find(&id);
    let Some(p) = prop.parts.iter().find(|p| p.name == part) else {
        eprintln!("{id} has no part {part}");
        return 2;
    };
    let choices = get("choices=");
    let index = get("index=").and_then(|s| s.parse::<u64>().ok());
    let sd = get("seed=").and_then(|s| s.parse::<u64>().ok());
    let (r, notes) = on_worker_stack(|| match (&p.kind, choices, index, sd) {
        (Kind::Random { f, .. }, Some(c), _, _) => {
            let c: Vec<u64> = c.split(',').filter_map(|x| x.trim().parse().ok()).collect();
            describe_random(*f, &c)
        }
        (Kind::Random { f, .. }, _, _, Some(sd)) => {
            let mut cx = Cx { verbose: true, ..Cx::default() };
            let r = run_random(*f, &mut Src::random(sd), &mut cx);
            (r, cx.notes)
        }
        (Kind::Enum { f, .. }, _, Some(i), _) => describe_enum(*f, i),
        _ => (Err("replay file and part do not fit together".into()), vec![]),
    });
    print!("{}", notes_text(&notes));
    match r {
        Ok(()) => {
            println!("{id}: the case passes");
            0
        }
        Err(m) => {
            println!("{m}");
            println!("VIOLATION property={id} replay={path}");
            1
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let code = match a.as_slice() {
        ["run", id] => run(id, &std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into())),
        ["run", id, tier] => run(id, tier),
        ["child", id, tier, j] => child(id, tier, Path::new(j)),
        ["case", id, p, i] => one_case(id, p.parse().unwrap_or(0), i.parse().unwrap_or(0)),
        ["replay", f] => replay(f),
        ["digests"] => {
            install_panic_hook();
            let mut t = String::new();
            let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut t);
            let choices = t.split(',').filter_map(|x| x.trim().parse().ok()).collect();
            for d in on_worker_stack(|| props::digests(choices)) {
                println!("{}", d.replace('\n', " "));
            }
            0
        }
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: run ID [quick|thorough] | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}

//! Parent/worker machinery: fixed work split over processes, crash isolation, shrinking, replay, evidence.
use crate::case::{hex, unhex, Broken, Case, R};
use crate::iox::Hang;
use crate::tape::{case_seed, Src};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// generated cases
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Case) -> R,
    /// number of exhaustive blocks for the tier, and the block runner
    pub blocks: Option<(fn(bool) -> u64, fn(u64, &mut Case) -> R)>,
    pub blocks_note: &'static str,
    /// (key in known-findings.txt, probe: does the recorded finding still reproduce?)
    pub known: &'static [(&'static str, fn() -> bool)],
    pub assumptions: &'static [&'static str],
}

// ---------------------------------------------------------------- one case

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().downcast_ref::<Hang>().is_some() {
            "HANG".to_string()
        } else {
            "panic".to_string()
        };
        if let Ok(mut l) = LAST_PANIC.lock() {
            // keep the first of a cascade
            if l.is_none() {
                *l = Some((loc, msg));
            }
        }
    }));
}

pub enum Outcome {
    Ok,
    Violation(String),
    /// the harness itself is at fault
    Harness(String),
}

fn harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/harness/src/") || loc.contains("/harness/fuzz/")
}

pub fn guarded(c: &mut Case, f: impl FnOnce(&mut Case) -> R) -> Outcome {
    if let Ok(mut l) = LAST_PANIC.lock() {
        *l = None;
    }
    match catch_unwind(AssertUnwindSafe(|| f(c))) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(m)) => {
            if m.contains("HARNESS:") {
                Outcome::Harness(m)
            } else {
                Outcome::Violation(m)
            }
        }
        Err(p) => {
            if let Some(b) = p.downcast_ref::<Broken>() {
                return Outcome::Violation(b.0.clone());
            }
            if let Some(h) = p.downcast_ref::<Hang>() {
                return Outcome::Violation(format!("does not terminate: {}", h.0));
            }
            let (loc, msg) =
                LAST_PANIC.lock().ok().and_then(|mut l| l.take()).unwrap_or_else(|| ("?".into(), "panic".into()));
            if harness_location(&loc) {
                Outcome::Harness(format!("harness panicked at {}: {}", loc, msg))
            } else {
                Outcome::Violation(format!("panicked at {}: {}", loc, msg))
            }
        }
    }
}

/// Runs f with panics of the code under test turned into errors (for use inside a property).
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.downcast_ref::<Hang>().is_some() || p.downcast_ref::<Broken>().is_some() {
                std::panic::resume_unwind(p);
            }
            let l = LAST_PANIC.lock().ok().and_then(|mut l| l.take());
            let (loc, msg) = l.unwrap_or_default();
            if harness_location(&loc) {
                return Err(format!("HARNESS: panicked at {}: {}", loc, msg));
            }
            Err(format!("{} panicked at {}: {}", what, loc, msg))
        }
    }
}

fn nblocks(p: &Prop, thorough: bool) -> u64 {
    p.blocks.as_ref().map_or(0, |b| (b.0)(thorough))
}

pub fn run_index(p: &Prop, thorough: bool, seed: u64, i: u64, desc: bool) -> (Case, Outcome) {
    let nb = nblocks(p, thorough);
    let mut c = Case::new(Src::random(case_seed(seed, p.id, i)), desc, thorough);
    let o = if i < nb {
        let f = p.blocks.as_ref().unwrap().1;
        guarded(&mut c, |c| f(i, c))
    } else {
        guarded(&mut c, p.run)
    };
    (c, o)
}

pub fn run_tape(p: &Prop, thorough: bool, tape: &[u8], desc: bool) -> (Case, Outcome) {
    let mut c = Case::new(Src::replay(tape.to_vec()), desc, thorough);
    let o = guarded(&mut c, p.run);
    (c, o)
}

pub fn in_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    // The stack a spawned Rust thread has by default: stack overflows of the code under test must show.
    std::thread::Builder::new().stack_size(2 << 20).spawn(f).unwrap().join().expect("worker thread")
}

// ---------------------------------------------------------------- text files between processes

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- worker

pub fn worker(p: &'static Prop, thorough: bool, seed: u64, k: u64, n: u64, cases: u64, dir: PathBuf) -> i32 {
    install_hook();
    in_thread(move || {
        let journal = dir.join(format!("j{}", k));
        let jf = fs::OpenOptions::new().create(true).write(true).truncate(true).open(&journal).unwrap();
        use std::os::unix::fs::FileExt;
        let total = nblocks(p, thorough) + cases;
        let mut evals = 0u64;
        let mut ran = 0u64;
        let mut nt: HashSet<u64> = HashSet::new();
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut excluded: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut samples: Vec<String> = Vec::new();
        let mut code = 0;
        let mut out = String::new();
        let mut i = k;
        let mut next_sample = 0u64;
        // for tuning: report cases slower than this many milliseconds
        let slow: Option<u64> = std::env::var("DLHN_SLOW").ok().and_then(|s| s.parse().ok());
        while i < total {
            jf.write_all_at(&(i + 1).to_le_bytes(), 0).unwrap();
            let want = i >= next_sample && samples.len() < 3;
            let t0 = Instant::now();
            let (c, o) = run_index(p, thorough, seed, i, want || slow.is_some());
            if let Some(limit) = slow {
                if t0.elapsed().as_millis() as u64 > limit {
                    let d: String = c.desc.clone().unwrap_or_default().chars().take(300).collect();
                    let mut f = fs::OpenOptions::new().create(true).append(true).open("/tmp/dlhn-slow.log").unwrap();
                    let _ = writeln!(f, "{} case {} ({} ms, {} evaluations): {}", p.id, i, t0.elapsed().as_millis(), c.evals, d);
                }
            }
            ran += 1;
            evals += c.evals.max(1);
            for (l, x) in &c.labels {
                *labels.entry(l).or_insert(0) += x;
            }
            for (l, x) in &c.excluded {
                *excluded.entry(l).or_insert(0) += x;
            }
            if want && !c.nt.is_empty() {
                if let Some(d) = &c.desc {
                    samples.push(format!("case {}: {}", i, d));
                    next_sample = i + total / 3 + 1;
                }
            }
            if nt.len() < 20_000_000 {
                nt.extend(c.nt.iter());
            }
            match o {
                Outcome::Ok => {}
                Outcome::Violation(m) => {
                    out.push_str(&format!("violation {} {}\n", i, esc(&m)));
                    out.push_str(&format!("tape {}\n", hex(&c.src.tape)));
                    code = 1;
                }
                Outcome::Harness(m) => {
                    out.push_str(&format!("harness {} {}\n", i, esc(&m)));
                    code = 2;
                }
            }
            if code != 0 {
                break;
            }
            i += n;
        }
        out.push_str(&format!("ran {}\nevals {}\n", ran, evals));
        for (l, x) in &labels {
            out.push_str(&format!("label {} {}\n", x, l));
        }
        for (l, x) in &excluded {
            out.push_str(&format!("excluded {} {}\n", x, l));
        }
        for s in &samples {
            out.push_str(&format!("sample {}\n", esc(s)));
        }
        let mut b = Vec::with_capacity(nt.len() * 8);
        for h in &nt {
            b.extend_from_slice(&h.to_le_bytes());
        }
        fs::write(dir.join(format!("n{}", k)), b).unwrap();
        fs::write(dir.join(format!("r{}", k)), out).unwrap();
        code
    })
}

// ---------------------------------------------------------------- shrinking

/// Candidate smaller tapes, most aggressive first.
fn candidates(t: &[u8]) -> Vec<Vec<u8>> {
    let n = t.len();
    let mut v = Vec::new();
    if n == 0 {
        return v;
    }
    v.push(Vec::new());
    for d in [2usize, 4, 8, 16] {
        v.push(t[..n - n / d].to_vec());
    }
    v.push(t[..n - 1].to_vec());
    let mut size = n / 2;
    while size >= 1 {
        let mut at = 0;
        while at < n {
            let e = (at + size).min(n);
            let mut c = t[..at].to_vec();
            c.extend_from_slice(&t[e..]);
            v.push(c);
            if t[at..e].iter().any(|b| *b != 0) {
                let mut c = t.to_vec();
                for b in &mut c[at..e] {
                    *b = 0
                }
                v.push(c);
            }
            at += size;
            if v.len() > 4000 {
                return v;
            }
        }
        size /= 2;
    }
    for i in 0..n {
        if t[i] > 0 {
            for x in [t[i] / 2, t[i] - 1] {
                let mut c = t.to_vec();
                c[i] = x;
                v.push(c);
            }
        }
    }
    v
}

fn trim(mut t: Vec<u8>) -> Vec<u8> {
    while t.last() == Some(&0) {
        t.pop();
    }
    t
}

/// Greedy shrink; `fails` says whether a tape still fails. Improvements are reported through `best`.
pub fn shrink(start: Vec<u8>, mut fails: impl FnMut(&[u8]) -> bool, budget: usize, limit: Duration, mut best: impl FnMut(&[u8])) -> Vec<u8> {
    let t0 = Instant::now();
    let mut cur = start;
    let z = trim(cur.clone());
    let mut used = 0;
    if z.len() < cur.len() {
        used += 1;
        if fails(&z) {
            cur = z;
            best(&cur);
        }
    }
    'outer: loop {
        for c in candidates(&cur) {
            if used >= budget || t0.elapsed() > limit {
                break 'outer;
            }
            used += 1;
            if fails(&c) {
                cur = trim(c);
                best(&cur);
                continue 'outer;
            }
        }
        break;
    }
    cur
}

pub fn shrink_worker(p: &'static Prop, thorough: bool, tape: Vec<u8>, out: PathBuf) -> i32 {
    install_hook();
    in_thread(move || {
        shrink(
            tape,
            |t| matches!(run_tape(p, thorough, t, false).1, Outcome::Violation(_)),
            20_000,
            Duration::from_secs(40),
            |t| {
                let tmp = out.with_extension("tmp");
                let _ = fs::write(&tmp, hex(t));
                let _ = fs::rename(&tmp, &out);
            },
        );
        0
    })
}

// ---------------------------------------------------------------- replay

pub struct Replay {
    pub prop: String,
    pub tape: Option<Vec<u8>>,
    pub index: Option<u64>,
    pub seed: u64,
    pub thorough: bool,
}

pub fn parse_replay(s: &str) -> Replay {
    let get = |k: &str| -> Option<String> {
        let pat = format!("\"{}\":", k);
        let i = s.find(&pat)? + pat.len();
        let r = s[i..].trim_start();
        if let Some(r) = r.strip_prefix('"') {
            Some(r[..r.find('"')?].to_string())
        } else {
            Some(r.chars().take_while(|c| c.is_ascii_alphanumeric()).collect())
        }
    };
    Replay {
        prop: get("property").unwrap_or_default(),
        tape: get("tape").map(|t| unhex(&t)),
        index: get("index").and_then(|x| x.parse().ok()),
        seed: get("seed").and_then(|x| x.parse().ok()).unwrap_or(1),
        thorough: get("tier").as_deref() == Some("thorough"),
    }
}

pub fn replay(p: &'static Prop, r: Replay) -> i32 {
    install_hook();
    in_thread(move || {
        let (c, o) = match r.tape {
            Some(t) => run_tape(p, r.thorough, &t, true),
            None => run_index(p, r.thorough, r.seed, r.index.unwrap_or(0), true),
        };
        if let Some(d) = &c.desc {
            println!("case: {}", d);
        }
        match o {
            Outcome::Ok => {
                println!("no violation");
                0
            }
            Outcome::Violation(m) => {
                println!("violation: {}", m);
                1
            }
            Outcome::Harness(m) => {
                println!("harness error: {}", m);
                2
            }
        }
    })
}

// ---------------------------------------------------------------- parent

fn exe() -> PathBuf {
    std::env::current_exe().unwrap()
}

fn spawn(args: &[String]) -> Child {
    Command::new(exe()).args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().unwrap()
}

fn tier(t: bool) -> &'static str {
    if t {
        "thorough"
    } else {
        "quick"
    }
}

fn stderr_of(ch: &mut Child) -> String {
    use std::io::Read;
    let mut s = Vec::new();
    if let Some(mut e) = ch.stderr.take() {
        let _ = e.read_to_end(&mut s);
    }
    let s = String::from_utf8_lossy(&s).into_owned();
    let keep: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty()).collect();
    keep.iter().rev().take(6).rev().cloned().collect::<Vec<_>>().join(" / ")
}

/// Runs a tape in a child; Some(message) if it crashed or failed.
fn child_fails(p: &Prop, thorough: bool, tape: &[u8], dir: &Path) -> Option<String> {
    let f = dir.join("cand.json");
    fs::write(
        &f,
        format!("{{\"property\": \"{}\", \"tier\": \"{}\", \"tape\": \"{}\"}}", p.id, tier(thorough), hex(tape)),
    )
    .unwrap();
    let mut ch = spawn(&["replay".into(), f.display().to_string()]);
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            let e = stderr_of(&mut ch);
            return match st.code() {
                Some(0) | Some(2) => None,
                Some(_) => Some("violation".into()),
                None => Some(format!("process crashed ({}): {}", st, e)),
            };
        }
        if t0.elapsed() > Duration::from_secs(20) {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

pub struct Found {
    pub index: u64,
    pub msg: String,
    pub tape: Option<Vec<u8>>,
    pub crash: bool,
    pub hang: bool,
}

/// Processor seconds after which one case counts as never finishing.
const HANG_CPU: u64 = 120;

/// Processor time of a worker (user and system), in seconds.
fn cpu_seconds(pid: u32) -> u64 {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) / 100
}

pub struct Summary {
    pub ran: u64,
    pub evals: u64,
    pub nt: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub excluded: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub found: Option<Found>,
}

pub fn explore(p: &'static Prop, thorough: bool, seed: u64, cases: u64, dir: &Path, stall: u64) -> Result<Summary, String> {
    let n = std::env::var("VERIF_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or(8u64);
    fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    let mut chs: Vec<(u64, Child, Option<std::process::ExitStatus>, String)> = Vec::new();
    for k in 0..n {
        let args: Vec<String> = vec![
            "worker".into(),
            p.id.into(),
            tier(thorough).into(),
            seed.to_string(),
            k.to_string(),
            n.to_string(),
            cases.to_string(),
            dir.display().to_string(),
        ];
        chs.push((k, spawn(&args), None, String::new()));
    }
    let read_j = |k: u64| -> u64 {
        fs::read(dir.join(format!("j{}", k)))
            .ok()
            .and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())))
            .unwrap_or(0)
    };
    let mut last: Vec<(u64, Instant, u64)> = (0..n).map(|_| (0, Instant::now(), 0)).collect();
    let mut failed = false;
    let mut hung: Option<Found> = None;
    loop {
        let mut live = 0;
        for (k, ch, st, err) in chs.iter_mut() {
            if st.is_some() {
                continue;
            }
            match ch.try_wait().map_err(|e| e.to_string())? {
                Some(s) => {
                    *err = stderr_of(ch);
                    *st = Some(s);
                    if !s.success() {
                        failed = true;
                    }
                }
                None => {
                    live += 1;
                    let j = read_j(*k);
                    let l = &mut last[*k as usize];
                    if j != l.0 {
                        *l = (j, Instant::now(), cpu_seconds(ch.id()));
                    } else if l.1.elapsed() > Duration::from_secs(HANG_CPU) && cpu_seconds(ch.id()) >= l.2 + HANG_CPU {
                        // computing all the time and not getting anywhere: cases take milliseconds
                        let msg = format!("the operation does not finish: {} s of processor time on one case", HANG_CPU);
                        hung = Some(Found { index: j.saturating_sub(1), msg, tape: None, crash: true, hang: true });
                    } else if l.1.elapsed() > Duration::from_secs(stall) {
                        let at = j.saturating_sub(1);
                        for (_, c, s, _) in chs.iter_mut() {
                            if s.is_none() {
                                let _ = c.kill();
                                let _ = c.wait();
                            }
                        }
                        return Err(format!("watchdog: case {} made no progress for {} s (inconclusive)", at, stall));
                    }
                }
            }
        }
        if failed || hung.is_some() {
            for (_, c, s, e) in chs.iter_mut() {
                if s.is_none() {
                    let _ = c.kill();
                    let _ = c.wait();
                    *e = "stopped".into();
                }
            }
            break;
        }
        if live == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
    let mut sum = Summary {
        ran: 0,
        evals: 0,
        nt: HashSet::new(),
        labels: BTreeMap::new(),
        excluded: BTreeMap::new(),
        samples: Vec::new(),
        found: None,
    };
    let mut harness: Option<String> = None;
    for (k, _, st, err) in &chs {
        let r = fs::read_to_string(dir.join(format!("r{}", k))).unwrap_or_default();
        let mut tape = None;
        let mut viol: Option<(u64, String)> = None;
        for l in r.lines() {
            let (a, b) = l.split_once(' ').unwrap_or((l, ""));
            match a {
                "ran" => sum.ran += b.parse::<u64>().unwrap_or(0),
                "evals" => sum.evals += b.parse::<u64>().unwrap_or(0),
                "label" | "excluded" => {
                    if let Some((x, l)) = b.split_once(' ') {
                        let m = if a == "label" { &mut sum.labels } else { &mut sum.excluded };
                        *m.entry(l.to_string()).or_insert(0) += x.parse::<u64>().unwrap_or(0);
                    }
                }
                "sample" => sum.samples.push(unesc(b)),
                "violation" => {
                    let (i, m) = b.split_once(' ').unwrap_or((b, ""));
                    viol = Some((i.parse().unwrap_or(0), unesc(m)));
                }
                "tape" => tape = Some(unhex(b)),
                "harness" => harness = Some(unesc(b)),
                _ => {}
            }
        }
        if let Ok(b) = fs::read(dir.join(format!("n{}", k))) {
            for c in b.chunks_exact(8) {
                sum.nt.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        let better = |f: &Option<Found>, i: u64| f.as_ref().map_or(true, |f| i < f.index);
        if let Some((i, m)) = viol {
            if better(&sum.found, i) {
                sum.found = Some(Found { index: i, msg: m, tape, crash: false, hang: false });
            }
        } else if let Some(s) = st {
            if !s.success() && r.is_empty() {
                // died without a report: abort, stack overflow, failed allocation
                let i = read_j(*k).saturating_sub(1);
                let killed = s.code().is_none() && {
                    use std::os::unix::process::ExitStatusExt;
                    matches!(s.signal(), Some(9) | Some(15))
                };
                if killed {
                    harness = Some(format!("worker {} was killed by the system at case {}", k, i));
                } else if s.code().is_some() {
                    harness = Some(format!("worker {} ended with {} at case {}: {}", k, s, i, err));
                } else if better(&sum.found, i) {
                    sum.found = Some(Found {
                        index: i,
                        msg: format!("process crashed ({}): {}", s, err),
                        tape: None,
                        crash: true,
                        hang: false,
                    });
                }
            }
        }
    }
    if sum.found.is_none() && hung.is_some() {
        sum.found = hung;
        return Ok(sum);
    }
    if sum.found.is_none() {
        if let Some(h) = harness {
            return Err(h);
        }
    }
    Ok(sum)
}

/// Rebuilds the tape of a case that crashed the worker, by drawing bytes the same way.
fn stream(seed: u64, p: &Prop, i: u64, n: usize) -> Vec<u8> {
    let mut s = Src::random(case_seed(seed, p.id, i));
    for _ in 0..n {
        s.byte();
    }
    s.tape
}

/// One input of the coverage-guided search (fuzz/): the bytes are the tape. Anything but a quiet case
/// ends the process, which makes the engine keep the input.
pub fn fuzz_one(p: &'static Prop, thorough: bool, tape: &[u8]) {
    let (_, o) = run_tape(p, thorough, tape, false);
    match o {
        Outcome::Ok => {}
        Outcome::Violation(m) => {
            eprintln!("violation: {}", m);
            std::process::abort()
        }
        Outcome::Harness(m) => {
            eprintln!("harness error: {}", m);
            std::process::abort()
        }
    }
}

/// Tapes of the first random cases, for the coverage-guided search to start from.
pub fn tapes(p: &'static Prop, thorough: bool, seed: u64, n: u64, dir: PathBuf) -> i32 {
    install_hook();
    let nb = nblocks(p, thorough);
    fs::create_dir_all(&dir).unwrap();
    in_thread(move || {
        for i in nb..nb + n {
            let (c, _) = run_index(p, thorough, seed, i, false);
            let t = &c.src.tape[..c.src.tape.len().min(4096)];
            fs::write(dir.join(format!("{:06}", i)), t).unwrap();
        }
    });
    0
}

/// Judges an input the coverage-guided search kept: 1 with the verdict if the ordinary build fails on it too.
pub fn fuzzed(p: &'static Prop, thorough: bool, seed: u64, tape: Vec<u8>) -> i32 {
    install_hook();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let dir = verif.join("work").join(format!("{}-{}", p.id, std::process::id()));
    let _ = fs::create_dir_all(&dir);
    let r = child_fails(p, thorough, &tape, &dir);
    let code = match r {
        None => 0,
        Some(m) => {
            let crash = m.starts_with("process crashed");
            let mut f = Found { index: u64::MAX, msg: m, tape: Some(tape), crash, hang: false };
            report(p, thorough, seed, &mut f, &dir, &verif);
            1
        }
    };
    let _ = fs::remove_dir_all(&dir);
    code
}

pub fn minimize(p: &'static Prop, thorough: bool, seed: u64, f: &mut Found, dir: &Path) {
    let nb = nblocks(p, thorough);
    if f.index < nb || f.hang {
        f.tape = None;
        return;
    }
    if let (true, Some(t)) = (f.crash, f.tape.clone()) {
        let mut best = t.clone();
        shrink(t, |c| child_fails(p, thorough, c, dir).is_some(), 400, Duration::from_secs(30), |c| best = c.to_vec());
        f.tape = Some(best);
    } else if f.crash {
        // find a tape prefix that still crashes
        for n in [256usize, 4096, 65536] {
            let t = stream(seed, p, f.index, n);
            if child_fails(p, thorough, &t, dir).is_some() {
                let mut best = t.clone();
                shrink(
                    t,
                    |c| child_fails(p, thorough, c, dir).is_some(),
                    400,
                    Duration::from_secs(30),
                    |c| best = c.to_vec(),
                );
                f.tape = Some(best);
                break;
            }
        }
    } else if let Some(t) = f.tape.clone() {
        let inp = dir.join("shrink.in");
        let out = dir.join("shrink.out");
        fs::write(&inp, hex(&t)).unwrap();
        let _ = fs::remove_file(&out);
        let mut ch = spawn(&[
            "shrink".into(),
            p.id.into(),
            tier(thorough).into(),
            inp.display().to_string(),
            out.display().to_string(),
        ]);
        let t0 = Instant::now();
        while ch.try_wait().ok().flatten().is_none() {
            if t0.elapsed() > Duration::from_secs(60) {
                let _ = ch.kill();
                let _ = ch.wait();
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        if let Ok(s) = fs::read_to_string(&out) {
            f.tape = Some(unhex(&s));
        }
    }
}

pub fn known_entries(verif: &Path, id: &str) -> Vec<(String, String)> {
    // lines: KNOWN property=<id> key=<key> <what fails>
    let mut v = Vec::new();
    if let Ok(s) = fs::read_to_string(verif.join("known-findings.txt")) {
        for l in s.lines() {
            let pat = format!("KNOWN property={} key=", id);
            if let Some(r) = l.strip_prefix(&pat) {
                let (k, what) = r.split_once(' ').unwrap_or((r, ""));
                v.push((k.to_string(), what.to_string()));
            }
        }
    }
    v
}

/// Minimizes the case, writes the replay file and prints the verdict.
fn report(p: &'static Prop, thorough: bool, seed: u64, f: &mut Found, dir: &Path, verif: &Path) {
    minimize(p, thorough, seed, f, dir);
    let rep = verif.join("replays");
    let _ = fs::create_dir_all(&rep);
    let name = if f.index == u64::MAX { "guided".into() } else { f.index.to_string() };
    let path = rep.join(format!("{}-{}-{}.json", p.id, seed, name));
    let tape_line = match &f.tape {
        Some(t) => format!(",\n \"tape\": \"{}\"", hex(t)),
        None => String::new(),
    };
    let head = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"index\": {},\n \"literals\": {}{}",
        p.id,
        tier(thorough),
        seed,
        f.index,
        json_str(&crate::tape::dict_text()),
        tape_line
    );
    fs::write(&path, format!("{},\n \"message\": {}\n}}\n", head, json_str(&f.msg))).unwrap();
    // describe the minimal case
    let text = if f.hang {
        String::new()
    } else {
        let o = Command::new(exe()).arg("replay").arg(&path).output();
        o.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default()
    };
    let case = text.lines().find_map(|l| l.strip_prefix("case: ")).unwrap_or("");
    let msg = text.lines().find_map(|l| l.strip_prefix("violation: ")).unwrap_or(&f.msg);
    fs::write(
        &path,
        format!(
            "{},\n \"message\": {},\n \"case\": {},\n \"replay_cmd\": {}\n}}\n",
            head,
            json_str(msg),
            json_str(case),
            json_str(&format!("python3 /verif/check.py replay {}", path.display()))
        ),
    )
    .unwrap();
    println!("{}: {}", p.id, msg);
    if !case.is_empty() {
        println!("{}: minimal case: {}", p.id, case);
    }
    println!("VIOLATION property={} replay={}", p.id, path.display());
}

pub fn check(p: &'static Prop, thorough: bool, seed: u64, cases: Option<u64>) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let dir = verif.join("work").join(format!("{}-{}", p.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    let cases = cases.unwrap_or(if thorough { p.thorough } else { p.quick });
    let r = explore(p, thorough, seed, cases, &dir, if thorough { 800 } else { 500 });
    let mut sum = match r {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: no verdict: {}", p.id, e);
            let _ = fs::remove_dir_all(&dir);
            return 2;
        }
    };
    for (key, what) in known_entries(&verif, p.id) {
        if let Some((_, probe)) = p.known.iter().find(|k| k.0 == key) {
            let probe = *probe;
            if in_thread(move || catch_unwind(AssertUnwindSafe(probe)).unwrap_or(true)) {
                println!("KNOWN-FINDING: property={} [{}] {}", p.id, key, what);
            }
        }
    }
    let mut code = 0;
    if let Some(mut f) = sum.found.take() {
        report(p, thorough, seed, &mut f, &dir, &verif);
        code = 1;
    }
    sum.samples.sort();
    let mut ev = String::new();
    ev.push_str(&format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"cases\": {},\n",
        p.id,
        tier(thorough),
        seed,
        sum.evals,
        sum.nt.len(),
        json_str(p.rule),
        sum.ran
    ));
    let nb = nblocks(p, thorough);
    if nb > 0 {
        ev.push_str(&format!("  \"exhaustive_blocks\": {},\n  \"exhaustive_part\": {},\n", nb, json_str(p.blocks_note)));
    }
    let map = |m: &BTreeMap<String, u64>| {
        m.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ")
    };
    ev.push_str(&format!("  \"distribution\": {{{}}},\n", map(&sum.labels)));
    ev.push_str(&format!("  \"excluded_by_construction\": {{{}}},\n", map(&sum.excluded)));
    ev.push_str(&format!(
        "  \"samples\": [{}]\n }},\n",
        sum.samples.iter().take(8).map(|s| json_str(s)).collect::<Vec<_>>().join(",\n   ")
    ));
    ev.push_str(&format!(
        " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        code
    ));
    let evd = verif.join("evidence");
    let _ = fs::create_dir_all(&evd);
    let mut fh = fs::File::create(evd.join(format!("{}.json", p.id))).unwrap();
    fh.write_all(ev.as_bytes()).unwrap();
    let _ = fs::remove_dir_all(&dir);
    if code == 0 {
        println!(
            "{}: held on {} evaluations ({} cases, {} distinct non-trivial), {:.1} s",
            p.id,
            sum.evals,
            sum.ran,
            sum.nt.len(),
            t0.elapsed().as_secs_f64()
        );
    }
    code
}

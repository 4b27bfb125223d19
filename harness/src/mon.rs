//! Monitoring runtime: guarded calls into ikal, counting allocator, watchdogs, coverage counters, supervisor.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write as _;
use std::os::unix::fs::FileExt as _;
use std::sync::atomic::{AtomicU64, Ordering};

// ---------------------------------------------------------------- allocator

pub struct Counting;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

// SAFETY: forwards to System; only adds thread-local counters.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get().wrapping_add(l.size() as u64)));
        let _ = CALLS.try_with(|c| c.set(c.get().wrapping_add(1)));
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get().wrapping_add(n as u64)));
        let _ = CALLS.try_with(|c| c.set(c.get().wrapping_add(1)));
        unsafe { System.realloc(p, l, n) }
    }
}

/// Bytes and calls allocated so far by this thread.
pub fn allocated() -> (u64, u64) {
    (BYTES.with(Cell::get), CALLS.with(Cell::get))
}

// ---------------------------------------------------------------- guard

thread_local! {
    static IN_GUARD: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string().replace('\n', " ");
        if IN_GUARD.with(Cell::get) {
            LAST_PANIC.with(|p| *p.borrow_mut() = text);
        } else {
            eprintln!("HARNESS PANIC: {text}");
            if std::env::var_os("IKMON_BT").is_some() {
                eprintln!("{}", std::backtrace::Backtrace::force_capture());
            }
        }
    }));
}

/// Runs code of ikal; a panic inside is the fault of ikal and is returned as text.
pub fn guard<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    let before = IN_GUARD.with(|g| g.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_GUARD.with(|g| g.set(before));
    r.map_err(|_| format!("{what} panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

// ---------------------------------------------------------------- context

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub idx: u64,
    pub open: BTreeSet<String>,
    pub tz: String,
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(u64, String)>,
    pub known: BTreeMap<String, String>,
    pub verbose: bool,
}

impl Ctx {
    pub fn count(&mut self, key: &str) {
        self.add(key, 1);
    }
    pub fn add(&mut self, key: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(key) {
            *c += n;
        } else {
            self.counters.insert(key.to_string(), n);
        }
    }
    /// Records one distinct non-trivial case by a hash of what makes it what it is.
    pub fn distinct(&mut self, what: &str) {
        self.hashes.push(crate::rng::hash_str(what));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut s = f();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
    pub fn fail(&mut self, msg: impl Into<String>) {
        if self.violations.len() < 20 {
            self.violations.push((self.idx, msg.into()));
        }
    }
    /// A deviation explained exactly by the listed finding `id`; reported as violation if not listed.
    pub fn known(&mut self, id: &str, msg: impl Into<String>) {
        if self.open.contains(id) {
            self.count(&format!("known-finding {id}"));
            self.known.entry(id.to_string()).or_insert_with(|| msg.into());
        } else {
            self.fail(msg);
        }
    }
}

/// Every step on ikal inside a case: Err(text) is a violation.
pub type Step<T = ()> = Result<T, String>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub cases: fn(bool) -> u64,
    pub zones: &'static [&'static str],
    pub case: fn(u64, &mut Ctx),
    /// Deterministic extra work done once (known-finding probes, exhaustive tables).
    pub once: fn(&mut Ctx),
    /// Minimum numbers that must have been observed, else the run is inconclusive.
    pub need: &'static [(&'static str, u64)],
    pub single_threaded_shards: bool,
    pub assumptions: &'static str,
}

pub const VERIF: &str = "/verif";

pub fn known_findings(prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let text = std::fs::read_to_string(format!("{VERIF}/known-findings.txt")).unwrap_or_default();
    for l in text.lines() {
        if let Some(r) = l.strip_prefix(&format!("open: property={prop} id=")) {
            let (id, what) = r.split_once(' ').unwrap_or((r, ""));
            m.insert(id.to_string(), what.to_string());
        }
    }
    m
}

// ---------------------------------------------------------------- limits

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
unsafe extern "C" {
    fn setrlimit(resource: i32, r: *const Rlimit) -> i32;
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}

pub fn limit_memory(bytes: u64) {
    let r = Rlimit { cur: bytes, max: bytes };
    // SAFETY: plain libc call with a valid pointer (RLIMIT_AS = 9; RLIMIT_CORE = 4).
    unsafe {
        setrlimit(9, &r);
        setrlimit(4, &Rlimit { cur: 0, max: 0 });
    }
}

pub fn process_cpu() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // SAFETY: plain libc call (CLOCK_PROCESS_CPUTIME_ID = 2).
    unsafe { clock_gettime(2, &mut t) };
    t.sec as f64 + t.nsec as f64 * 1e-9
}

static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);

/// Ends the worker with status 97 when one case burns more than `secs` of CPU time.
fn cpu_watchdog(secs: f64) {
    std::thread::spawn(move || {
        let mut last = (u64::MAX, process_cpu());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let cur = CURRENT.load(Ordering::Relaxed);
            let cpu = process_cpu();
            if cur != last.0 {
                last = (cur, cpu);
            } else if cpu - last.1 > secs {
                eprintln!("HANG case {cur}: more than {secs} s of CPU time");
                std::process::exit(97);
            }
        }
    });
}

// ---------------------------------------------------------------- worker

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t")
}

fn unesc(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some('r') => out.push('\r'),
                Some('t') => out.push('\t'),
                Some(c) => out.push(c),
                None => {}
            }
        } else {
            out.push(c);
        }
    }
    out
}

pub const ONCE: u64 = u64::MAX - 1;

/// Worker process: runs cases from..to (or the `once` part), and prints what it observed.
pub fn worker(p: &Prop, seed: u64, thorough: bool, from: u64, to: u64, out: &str, verbose: bool) -> i32 {
    install_hook();
    if p.id != "C20" {
        // callgrind needs more address space
        limit_memory(4 << 30);
    }
    cpu_watchdog(if p.single_threaded_shards { 60.0 } else { 400.0 });
    let mut ctx = Ctx {
        seed,
        thorough,
        idx: 0,
        open: known_findings(p.id).into_keys().collect(),
        tz: std::env::var("TZ").unwrap_or_default(),
        evals: 0,
        counters: BTreeMap::new(),
        hashes: Vec::new(),
        samples: Vec::new(),
        violations: Vec::new(),
        known: BTreeMap::new(),
        verbose,
    };
    let progress = std::fs::File::create(format!("{out}.progress")).expect("progress file");
    let mut harness_errors = Vec::new();
    let cases: Vec<u64> = if from == ONCE { vec![ONCE] } else { (from..to).collect() };
    for idx in cases {
        ctx.idx = idx;
        CURRENT.store(idx, Ordering::Relaxed);
        progress.write_at(&idx.to_le_bytes(), 0).expect("progress");
        let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if idx == ONCE {
                (p.once)(&mut ctx);
            } else {
                ctx.evals += 1;
                (p.case)(idx, &mut ctx);
            }
        }));
        if done.is_err() && harness_errors.len() < 5 {
            // a monitor that fails says nothing about ikal, but must not hide what other cases show
            harness_errors.push(idx);
        }
        if ctx.violations.len() >= 5 {
            break;
        }
    }
    CURRENT.store(u64::MAX, Ordering::Relaxed);
    let mut w = std::io::BufWriter::new(std::fs::File::create(format!("{out}.res")).expect("result file"));
    writeln!(w, "EV {}", ctx.evals).unwrap();
    for (k, n) in &ctx.counters {
        writeln!(w, "C {n} {k}").unwrap();
    }
    for s in &ctx.samples {
        writeln!(w, "S {}", esc(s)).unwrap();
    }
    for (id, s) in &ctx.known {
        writeln!(w, "K {id} {}", esc(s)).unwrap();
    }
    for (i, v) in &ctx.violations {
        writeln!(w, "V {i} {}", esc(v)).unwrap();
    }
    for i in &harness_errors {
        writeln!(w, "H {i}").unwrap();
    }
    writeln!(w, "DONE").unwrap();
    w.flush().unwrap();
    let mut h: Vec<u8> = Vec::with_capacity(ctx.hashes.len() * 8);
    ctx.hashes.sort_unstable();
    ctx.hashes.dedup();
    for x in &ctx.hashes {
        h.extend_from_slice(&x.to_le_bytes());
    }
    std::fs::write(format!("{out}.hash"), h).unwrap();
    0
}

// ---------------------------------------------------------------- supervisor

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone)]
struct Shard {
    tz: String,
    from: u64,
    to: u64,
}

enum Outcome {
    Done,
    Died(String, u64),
    Harness(String),
}

struct Merged {
    evals: u64,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, String>,
    violations: Vec<(String, u64, String)>,
    hashes: HashSet<u64>,
    broken: Option<String>,
}

fn spawn(p: &Prop, seed: u64, thorough: bool, s: &Shard, out: &str) -> std::process::Child {
    std::process::Command::new(std::env::current_exe().unwrap())
        .args([
            "worker",
            p.id,
            &seed.to_string(),
            if thorough { "thorough" } else { "quick" },
            &s.from.to_string(),
            &s.to.to_string(),
            out,
        ])
        .env("TZ", &s.tz)
        .env("IKMON_STOP", std::path::Path::new(out).with_file_name("stop"))
        .stdin(std::process::Stdio::null())
        .stderr(std::fs::File::create(format!("{out}.err")).expect("stderr file"))
        .spawn()
        .expect("spawn worker")
}

/// Without control characters other than line breaks.
fn printable(s: &str) -> String {
    s.chars().map(|c| if c.is_control() && c != '\n' { c.escape_default().to_string() } else { c.to_string() }).collect()
}

fn outcome(status: std::process::ExitStatus, out: &str) -> Outcome {
    use std::os::unix::process::ExitStatusExt as _;
    let err = std::fs::read_to_string(format!("{out}.err")).unwrap_or_default();
    let tail: String = err.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
    let idx = std::fs::read(format!("{out}.progress"))
        .ok()
        .and_then(|b| b.try_into().ok())
        .map_or(u64::MAX, u64::from_le_bytes);
    if status.success() {
        return Outcome::Done;
    }
    match (status.code(), status.signal()) {
        (Some(97), _) => Outcome::Died("does not return (CPU budget exhausted)".into(), idx),
        (Some(c), _) => Outcome::Harness(format!("worker exited with {c} at case {idx}: {tail}")),
        (None, Some(9)) => Outcome::Harness(format!("worker was killed (SIGKILL) at case {idx}: {tail}")),
        (None, s) => Outcome::Died(format!("process died with signal {s:?}: {tail}"), idx),
    }
}

fn merge(m: &mut Merged, s: &Shard, out: &str) -> bool {
    let text = std::fs::read_to_string(format!("{out}.res")).unwrap_or_default();
    if !text.ends_with("DONE\n") {
        return false;
    }
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("EV ") {
            m.evals += r.parse::<u64>().unwrap_or(0);
        } else if let Some((n, k)) = l.strip_prefix("C ").and_then(|r| r.split_once(' ')) {
            *m.counters.entry(k.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
        } else if let Some(r) = l.strip_prefix("S ") {
            if m.samples.len() < 6 {
                m.samples.push(unesc(r));
            }
        } else if let Some((id, r)) = l.strip_prefix("K ").and_then(|r| r.split_once(' ')) {
            m.known.entry(id.to_string()).or_insert_with(|| unesc(r));
        } else if let Some(i) = l.strip_prefix("H ") {
            m.broken.get_or_insert_with(|| {
                let err = std::fs::read_to_string(format!("{out}.err")).unwrap_or_default();
                let why = err.lines().find(|l| l.starts_with("HARNESS PANIC")).unwrap_or_default().to_string();
                format!("the monitor itself failed at case {i} (TZ={}) {why}", s.tz)
            });
        } else if let Some((i, r)) = l.strip_prefix("V ").and_then(|r| r.split_once(' ')) {
            m.violations.push((s.tz.clone(), i.parse().unwrap_or(0), unesc(r)));
        }
    }
    if let Ok(b) = std::fs::read(format!("{out}.hash")) {
        for c in b.chunks_exact(8) {
            m.hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    true
}

pub fn supervise(p: &Prop, seed: u64, thorough: bool) -> i32 {
    let t0 = std::time::Instant::now();
    let limit = if thorough { 3.0 * 3600.0 } else { 700.0 };
    let dir = std::env::temp_dir().join(format!("ikmon-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let code = run(p, seed, thorough, &dir, t0, limit);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn run(p: &Prop, seed: u64, thorough: bool, dir: &std::path::Path, t0: std::time::Instant, limit: f64) -> i32 {
    let total = (p.cases)(thorough);
    let nz = p.zones.len() as u64;
    let slots: usize = if p.single_threaded_shards { 8 } else { 1 };
    let want = if p.single_threaded_shards { 32u64 } else { 1 };
    let shards_n = want.div_ceil(nz) * nz;
    let per = total.div_ceil(shards_n);
    let mut queue: Vec<Shard> = Vec::new();
    for zone in p.zones {
        queue.push(Shard { tz: (*zone).to_string(), from: ONCE, to: ONCE });
    }
    for i in 0..shards_n {
        let (from, to) = (i * per, ((i + 1) * per).min(total));
        if from < to {
            queue.push(Shard { tz: p.zones[(i % nz) as usize].to_string(), from, to });
        }
    }
    queue.reverse();
    let mut m = Merged {
        evals: 0,
        counters: BTreeMap::new(),
        samples: Vec::new(),
        known: BTreeMap::new(),
        violations: Vec::new(),
        hashes: HashSet::new(),
        broken: None,
    };
    let mut running: Vec<(std::process::Child, Shard, String)> = Vec::new();
    let mut died: Vec<(Shard, String, u64)> = Vec::new();
    let mut serial = 0;
    let mut error: Option<String> = None;
    while !(queue.is_empty() && running.is_empty()) {
        while running.len() < slots && m.violations.len() < 5 && died.is_empty() && error.is_none() {
            let Some(s) = queue.pop() else { break };
            let out = dir.join(format!("s{serial}")).to_string_lossy().into_owned();
            serial += 1;
            running.push((spawn(p, seed, thorough, &s, &out), s, out));
        }
        let stop = m.violations.len() >= 5 || !died.is_empty() || error.is_some();
        if stop {
            queue.clear();
        }
        let mut i = 0;
        while i < running.len() {
            if let Some(st) = running[i].0.try_wait().expect("wait") {
                let (_, s, out) = running.swap_remove(i);
                match outcome(st, &out) {
                    Outcome::Done => {
                        if !merge(&mut m, &s, &out) {
                            error = Some("worker left no result".into());
                        }
                    }
                    Outcome::Died(why, idx) => died.push((s, why, idx)),
                    Outcome::Harness(why) => error = Some(why),
                }
                for suffix in ["res", "hash", "err", "progress"] {
                    let _ = std::fs::remove_file(format!("{out}.{suffix}"));
                }
            } else {
                i += 1;
            }
        }
        if t0.elapsed().as_secs_f64() > limit {
            for r in &mut running {
                let _ = r.0.kill();
                let _ = r.0.wait();
            }
            if m.violations.is_empty() {
                println!("INCONCLUSIVE property={}: time limit of the check reached", p.id);
                return 2;
            }
            running.clear();
            queue.clear();
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
    // A worker that died: replay the case it was in, alone, to tell a violation from an accident.
    for (s, why, idx) in died {
        let one = Shard { tz: s.tz.clone(), from: idx, to: if idx == ONCE { ONCE } else { idx + 1 } };
        let out = dir.join(format!("r{serial}")).to_string_lossy().into_owned();
        serial += 1;
        let st = spawn(p, seed, thorough, &one, &out).wait().expect("wait");
        match outcome(st, &out) {
            Outcome::Died(why2, _) => m.violations.push((s.tz, idx, format!("{why2} (first seen as: {why})"))),
            Outcome::Done => {
                merge(&mut m, &one, &out);
                error = Some(format!("worker {why} at case {idx}, not reproduced alone"));
            }
            Outcome::Harness(w) => error = Some(w),
        }
    }
    let findings = known_findings(p.id);
    for (id, saw) in &m.known {
        let what = findings.get(id).map_or("", String::as_str);
        println!("KNOWN-FINDING: property={} {id}: {what} [observed: {}]", p.id, printable(saw).replace('\n', " "));
    }
    // "once" work is repeated per zone, so the same violation can be reported several times
    let mut seen = HashSet::new();
    m.violations.retain(|v| seen.insert(v.2.clone()));
    let rdir = format!("{VERIF}/replay");
    std::fs::create_dir_all(&rdir).expect("replay directory");
    for (n, (tz, idx, msg)) in m.violations.iter().enumerate() {
        let path = format!("{rdir}/{}-{n}.txt", p.id);
        let text = format!(
            "property={}\nseed={seed}\ntier={}\ntz={tz}\ncase={idx}\nreplay: /verif/check {} --replay {path}\n\n{msg}\n",
            p.id,
            if thorough { "thorough" } else { "quick" },
            p.id
        );
        std::fs::write(&path, text).expect("replay file");
        if n < 5 {
            println!("VIOLATION property={} replay={path}", p.id);
            let short = printable(&msg.chars().take(600).collect::<String>());
            println!("  tz={tz} case={idx}: {}", short.replace('\n', "\n  "));
        }
    }
    // evidence
    let mut ev = String::new();
    ev.push_str("{\n");
    ev.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n", json_str(p.id), json_str(if thorough { "thorough" } else { "quick" })));
    ev.push_str(" \"coverage\": {\n");
    ev.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", m.evals, m.hashes.len(), json_str(p.rule)));
    ev.push_str(&format!("  \"time_zones\": [{}],\n", p.zones.iter().map(|z| json_str(z)).collect::<Vec<_>>().join(", ")));
    ev.push_str(&format!("  \"observed\": {{{}}},\n", m.counters.iter().map(|(k, n)| format!("\n   {}: {n}", json_str(k))).collect::<Vec<_>>().join(",")));
    ev.push_str(&format!("  \"known_findings_seen\": [{}],\n", m.known.keys().map(|k| json_str(k)).collect::<Vec<_>>().join(", ")));
    if m.samples.is_empty() {
        m.samples.push("(no sample recorded)".into());
    }
    ev.push_str(&format!("  \"samples\": [{}]\n }},\n", m.samples.iter().map(|s| format!("\n   {}", json_str(s))).collect::<Vec<_>>().join(",")));
    ev.push_str(&format!(" \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.1}\n}}\n", json_str(p.assumptions), m.violations.len(), t0.elapsed().as_secs_f64()));
    std::fs::create_dir_all(format!("{VERIF}/evidence")).expect("evidence directory");
    std::fs::write(format!("{VERIF}/evidence/{}.json", p.id), ev).expect("evidence");
    println!(
        "{}: {} cases, {} distinct non-trivial, {} violations, {:.1} s",
        p.id,
        m.evals,
        m.hashes.len(),
        m.violations.len(),
        t0.elapsed().as_secs_f64()
    );
    if !m.violations.is_empty() {
        return 1;
    }
    if let Some(e) = error.or(m.broken) {
        println!("INCONCLUSIVE property={}: {e}", p.id);
        return 2;
    }
    if m.evals < total {
        println!("INCONCLUSIVE property={}: {} of {total} cases ran", p.id, m.evals);
        return 2;
    }
    for (k, n) in p.need {
        let got = if *k == "distinct" { m.hashes.len() as u64 } else { m.counters.get(*k).copied().unwrap_or(0) };
        if got < *n {
            println!("INCONCLUSIVE property={}: observed {got} of {k}, need {n}", p.id);
            return 2;
        }
    }
    0
}

/// Runs the one case named in a replay file again, and tells whether the violation is still there.
pub fn replay(p: &Prop, path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
    let idx: u64 = get("case=").parse().expect("case");
    let seed: u64 = get("seed=").parse().expect("seed");
    let s = Shard { tz: get("tz="), from: idx, to: if idx == ONCE { ONCE } else { idx + 1 } };
    let dir = std::env::temp_dir().join(format!("ikmon-replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let out = dir.join("r").to_string_lossy().into_owned();
    let st = spawn(p, seed, get("tier=") == "thorough", &s, &out).wait().expect("wait");
    let code = match outcome(st, &out) {
        Outcome::Died(why, _) => {
            println!("still there: {why}");
            1
        }
        Outcome::Harness(why) => {
            println!("INCONCLUSIVE: {why}");
            2
        }
        Outcome::Done => {
            let res = std::fs::read_to_string(format!("{out}.res")).unwrap_or_default();
            let mut n = 0;
            for l in res.lines() {
                if let Some((_, r)) = l.strip_prefix("V ").and_then(|r| r.split_once(' ')) {
                    println!("{}", unesc(r));
                    n = 1;
                } else if l.starts_with("H ") {
                    println!("INCONCLUSIVE: the monitor itself failed\n{}", std::fs::read_to_string(format!("{out}.err")).unwrap_or_default());
                    n = 2;
                }
            }
            if n == 0 {
                println!("not reproduced");
            }
            n
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

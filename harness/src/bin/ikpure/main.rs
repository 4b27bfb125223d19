//! C19: results depend only on the input.
//! A binary of its own: components which can no longer be shared between threads concern this property only,
//! and it replaces the wall clock.

mod ops;

use ikmon::ik::Any;
use ikmon::mon::{self, Ctx, Prop};
use ikmon::rng::Rng;
use ops::{Op, Pool, seen};
use std::cell::Cell;
use std::io::Write as _;
use std::sync::Barrier;
use std::sync::atomic::{AtomicU64, Ordering};

const PROP: Prop = Prop {
    id: "C19",
    rule: "histories of 60 to 120 operations (parse, fail to parse, values, serialise, iterate, interleaved iterations, window queries, rule additions, \
           comparisons, bursts) on near-duplicate documents (one character, the start, the rule or the UID shared); recorded once in order, then again \
           reversed, shuffled and repeated, on 2 to 16 threads sharing the components by reference with random delays, with the wall clock shifted \
           by up to centuries, and in fresh processes with another environment, directory, order and address space, down to one process per operation; \
           every result must equal the recorded one and the components must be as before; the threads run again under ThreadSanitizer; distinct = \
           distinct (operation, result), non-trivial = all",
    cases: |t| if t { 60_000 } else { 3_000 },
    zones: &["UTC", "America/New_York", "Europe/Paris", "Australia/Lord_Howe"],
    case,
    once,
    need: &[
        ("distinct", 40_000),
        ("results compared: reversed", 50_000),
        ("results compared: shuffled and repeated", 100_000),
        ("results compared: threads", 500_000),
        ("results compared: shifted clock", 20_000),
        ("results compared: fresh process", 20_000),
        ("results compared: process of its own", 400),
        ("clock seen shifted", 500),
        ("components compared before and after", 20_000),
        ("different results over different operations", 20_000),
        ("threads overlapping", 2_000),
        ("repetitions", 2_000_000),
        ("operations repeated, with error", 40),
        ("results compared: after repetitions", 1_000),
    ],
    single_threaded_shards: true,
    assumptions: "all processes of one comparison use the same time zone; the order of threads is what the scheduler and random delays make of it; the race \
                  detector is used where the nightly toolchain can build for it (see 'race detector' among the counters)",
};

// ---------------------------------------------------------------- the wall clock

thread_local! {
    /// Seconds by which this thread sees the wall clock shifted.
    static SHIFT: Cell<i64> = const { Cell::new(0) };
}

#[cfg(all(target_arch = "x86_64", not(ikmon_tsan)))]
mod clock {
    #[repr(C)]
    pub struct Timespec {
        sec: i64,
        nsec: i64,
    }
    unsafe extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    /// Takes the place of libc's, for all code in this process.
    ///
    /// # Safety
    /// As for libc's.
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
        // SAFETY: the system call of that name, with the caller's pointer.
        unsafe {
            let r = syscall(228, i64::from(id), t);
            if (id == 0 || id == 5) && r == 0 {
                (*t).sec += super::SHIFT.try_with(std::cell::Cell::get).unwrap_or(0);
            }
            r as i32
        }
    }
}

// ---------------------------------------------------------------- runs

fn differ(c: &mut Ctx, how: &str, p: &Pool, i: usize, want: &str, got: &str) {
    let at = want.chars().zip(got.chars()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| s.chars().skip(at.saturating_sub(60)).take(300).collect::<String>();
    c.fail(format!(
        "{how}: another result than before, of {}\n was {:?}\n now {:?}\n (from character {at} on)\n operation: {}",
        p.ops[i].group(),
        cut(want),
        cut(got),
        format!("{:?}", p.ops[i]).chars().take(1500).collect::<String>()
    ));
}

fn check(c: &mut Ctx, how: &str, p: &Pool, i: usize, base: &[String], got: &str) {
    c.count(&format!("results compared: {how}"));
    if got != base[i] {
        differ(c, how, p, i, &base[i], got);
    }
}

/// Runs all operations on every thread at once, each in its own order; (thread, operation, result) where it differs.
fn threads(r: &mut Rng, n: usize, p: &Pool, comps: &[Option<Any>], base: &[String], shift: i64) -> (Vec<(usize, String)>, u64, u64) {
    static RUNNING: AtomicU64 = AtomicU64::new(0);
    let barrier = Barrier::new(n);
    let seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    let results: Vec<(Vec<(usize, String)>, u64, u64)> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|seed| {
                let barrier = &barrier;
                s.spawn(move || {
                    SHIFT.with(|x| x.set(shift));
                    let mut r = Rng::new(*seed, "C19 thread", 0);
                    let mut order: Vec<usize> = (0..p.ops.len()).collect();
                    // some threads go the same way at the same time, others go their own
                    if r.chance(2, 3) {
                        r.shuffle(&mut order);
                    }
                    let mut bad = Vec::new();
                    let (mut done, mut overlap) = (0, 0);
                    barrier.wait();
                    for i in order {
                        match r.below(12) {
                            0 => std::thread::yield_now(),
                            1 => (0..r.below(2000)).for_each(|_| std::hint::spin_loop()),
                            2 if r.chance(1, 10) => std::thread::sleep(std::time::Duration::from_micros(r.below(300))),
                            _ => {}
                        }
                        if RUNNING.fetch_add(1, Ordering::Relaxed) > 0 {
                            overlap += 1;
                        }
                        let got = p.ops[i].run(comps);
                        RUNNING.fetch_sub(1, Ordering::Relaxed);
                        done += 1;
                        if got != base[i] {
                            bad.push((i, got));
                        }
                    }
                    (bad, done, overlap)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    results.into_iter().fold((Vec::new(), 0, 0), |mut a, b| {
        a.0.extend(b.0);
        (a.0, a.1 + b.1, a.2 + b.2)
    })
}

/// A process of its own runs these operations in this order and writes what came out.
fn fresh(c: &mut Ctx, r: &mut Rng, order: &[usize]) -> Vec<(usize, String)> {
    let list = order.iter().map(ToString::to_string).collect::<Vec<_>>().join(",");
    let mut cmd = std::process::Command::new(std::env::current_exe().expect("own path"));
    cmd.args(["ops", &c.seed.to_string(), &c.idx.to_string(), &list]);
    if r.chance(1, 2) {
        cmd.env_clear();
    }
    cmd.env("TZ", &c.tz);
    for (k, vs) in [
        ("LANG", ["tr_TR.UTF-8", "C", "de_DE.UTF-8"]),
        ("LC_ALL", ["fr_FR.UTF-8", "C", "ar_EG.UTF-8"]),
        ("HOME", ["/", "/nonexistent", "/tmp"]),
        ("USER", ["nobody", "root", ""]),
        ("RUST_BACKTRACE", ["1", "full", "0"]),
    ] {
        if r.chance(1, 2) {
            cmd.env(k, *r.pick(&vs));
        }
    }
    cmd.env("IKPURE_SHIFT", r.pick(&[0i64, 0, 86_400, 4_000_000_000, -1_700_000_000]).to_string());
    let out = cmd.current_dir(r.pick(&["/", "/tmp", "/verif"])).stdin(std::process::Stdio::null()).output().expect("process");
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut res = Vec::new();
    let mut rest = text.as_str();
    while let Some((head, tail)) = rest.split_once('\n') {
        let (i, n) = head.split_once(' ').expect("header");
        let n: usize = n.parse().expect("length");
        res.push((i.parse().expect("index"), tail[..n].to_string()));
        rest = &tail[n + 1..];
    }
    assert_eq!(res.len(), order.len(), "{:?}", out.status);
    res
}

/// Subcommand: runs operations of one pool.
fn ops_main(seed: &str, idx: &str, list: &str) -> i32 {
    mon::install_hook();
    let shift = std::env::var("IKPURE_SHIFT").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    SHIFT.with(|x| x.set(shift));
    let p = ops::pool(seed.parse().expect("seed"), idx.parse().expect("index"));
    let order: Vec<usize> = list.split(',').map(|i| i.parse().expect("operation")).collect();
    // the operation comes first in its process where it needs no component
    let lone = order.len() == 1 && matches!(p.ops[order[0]], Op::Parse(..) | Op::Value(..) | Op::Add(..) | Op::Burst(..));
    let comps = if lone { vec![] } else { ops::components(&p) };
    let mut w = std::io::stdout().lock();
    for i in order {
        let s = p.ops[i].run(&comps);
        writeln!(w, "{i} {}\n{s}", s.len()).expect("write");
    }
    0
}

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C19 case", idx);
    let p = ops::pool(c.seed, idx);
    let comps = ops::components(&p);
    let before: Vec<Option<(Any, String, String)>> = comps.iter().map(|a| a.as_ref().map(|a| (a.clone(), seen(a), format!("{a:?}")))).collect();
    let n = p.ops.len();
    let base: Vec<String> = p.ops.iter().map(|o| o.run(&comps)).collect();
    for (o, b) in p.ops.iter().zip(&base) {
        c.count(&format!("operation {}", o.group()));
        c.count(if b.starts_with("error") { "with error" } else { "with result" });
        c.distinct(&format!("{o:?}{b}"));
        if let (Op::Burst(..), true) = (o, b.contains("\n--- but a later time ---\n")) {
            c.fail(format!("the same text read again and again gives different results\n{}\n{o:?}", b.chars().take(800).collect::<String>()));
        }
    }
    let mut kinds = base.clone();
    kinds.sort_unstable();
    kinds.dedup();
    c.add("different results over different operations", kinds.len() as u64);
    // again, otherwise
    for i in (0..n).rev() {
        let got = p.ops[i].run(&comps);
        check(c, "reversed", &p, i, &base, &got);
    }
    let mut order: Vec<usize> = (0..n).chain(0..n).collect();
    r.shuffle(&mut order);
    for i in order {
        let got = p.ops[i].run(&comps);
        check(c, "shuffled and repeated", &p, i, &base, &got);
    }
    // all at once
    let k = *r.pick(&[2, 3, 4, 8, 16]);
    let (bad, done, overlap) = threads(&mut r, k, &p, &comps, &base, 0);
    c.add("results compared: threads", done);
    c.add("threads overlapping", overlap);
    c.count(&format!("{k} threads"));
    for (i, got) in bad.into_iter().take(3) {
        differ(c, &format!("on {k} threads"), &p, i, &base[i], &got);
    }
    // at another time
    if r.chance(1, 3) {
        let day = 86_400i64;
        let shift = *r.pick(&[day, -day, 366 * day, 30 * 366 * day, -50 * 366 * day, 200 * 366 * day, 8000 * 366 * day, 3_600]);
        let order: Vec<usize> = (0..n).collect();
        let real = std::time::SystemTime::now();
        let out = std::thread::scope(|s| {
            s.spawn(|| {
                SHIFT.with(|x| x.set(shift));
                let seen_shift = match std::time::SystemTime::now().duration_since(real) {
                    Ok(d) => d.as_secs() as i64,
                    Err(e) => -(e.duration().as_secs() as i64),
                };
                (seen_shift, order.iter().map(|i| p.ops[*i].run(&comps)).collect::<Vec<_>>())
            })
            .join()
            .expect("thread")
        });
        if (out.0 - shift).abs() < 60 {
            c.count("clock seen shifted");
        }
        for (i, got) in out.1.iter().enumerate() {
            check(c, "shifted clock", &p, i, &base, got);
        }
    }
    // elsewhere
    if r.chance(1, 4) {
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        for (i, got) in fresh(c, &mut r, &order) {
            check(c, "fresh process", &p, i, &base, &got);
        }
    }
    if r.chance(1, 4) {
        let i = r.us(n);
        for (i, got) in fresh(c, &mut r, &[i]) {
            check(c, "process of its own", &p, i, &base, &got);
        }
    }
    for (a, b) in comps.iter().zip(&before) {
        if let (Some(a), Some(b)) = (a, b) {
            c.count("components compared before and after");
            if *a != b.0 || seen(a) != b.1 || format!("{a:?}") != b.2 {
                c.fail(format!("a component was changed by operations on it\n was {}\n now {a:?}", b.2));
            }
        }
    }
    c.sample(|| format!("{n} operations on {} components, {k} threads, e.g. {:?} -> {:?}", comps.len(), p.ops[0], base[0]));
}

const RACE: &str = "/verif/target/tsan/x86_64-unknown-linux-gnu/release/ikpure";

/// The threads again, under the race detector; from the supervisor, as it needs more address space than workers have.
fn race(args: &[&str]) -> Option<std::path::PathBuf> {
    let replayed = match args {
        ["replay", _, path] => std::fs::read_to_string(path).is_ok_and(|t| t.contains(&format!("case={}\n", mon::ONCE))),
        _ => true,
    };
    if !replayed || !std::path::Path::new(RACE).exists() {
        return None;
    }
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let cases = if env("VERIF_TIER", "quick") == "thorough" { "1000" } else { "48" };
    let out = std::process::Command::new(RACE)
        .args(["race", &env("VERIF_SEED", "1"), cases])
        .env("TSAN_OPTIONS", "exitcode=66 halt_on_error=0 history_size=4")
        .env("TZ", "Europe/Paris")
        .output()
        .ok()?;
    let path = std::env::temp_dir().join(format!("ikpure-race-{}", std::process::id()));
    let text = format!("{}{}exit {:?}\n", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr), out.status.code());
    std::fs::write(&path, text).ok()?;
    Some(path)
}

/// The same operation again and again, far beyond any sensible counter, cache or pool; and all others afterwards.
fn endurance(c: &mut Ctx) {
    let part = PROP.zones.iter().position(|z| *z == c.tz).unwrap_or(0);
    let times = if c.thorough { 300_000 } else { 70_000 };
    let (p, light) = ops::endurance(c.seed, part);
    let comps = ops::components(&p);
    let base: Vec<String> = p.ops.iter().map(|o| o.run(&comps)).collect();
    for (i, op) in p.ops.iter().enumerate() {
        // light operations more often than others, and none for long
        let times = if i < light { times } else { times / 12 };
        let start = std::time::Instant::now();
        let mut done = 0;
        while done < times && (done < 5_000 || start.elapsed().as_secs() < 3) {
            let got = op.run(&comps);
            done += 1;
            if got != base[i] {
                return differ(c, &format!("after {done} times"), &p, i, &base[i], &got);
            }
        }
        c.add("repetitions", done);
        c.count(if base[i].starts_with("error") { "operations repeated, with error" } else { "operations repeated, with result" });
        if done > 65_536 {
            c.count("operations repeated more than 65536 times");
        }
        // and the others in between
        if i % 8 == 7 || i + 1 == p.ops.len() {
            for (i, want) in base.iter().enumerate() {
                let got = p.ops[i].run(&comps);
                c.count("results compared: after repetitions");
                if got != *want {
                    return differ(c, "after many repetitions of others", &p, i, want, &got);
                }
            }
        }
    }
}

/// Once in all: what the race detector reported.
fn once(c: &mut Ctx) {
    endurance(c);
    if c.tz != "UTC" {
        return;
    }
    let Some(o) = std::env::var_os("IKPURE_RACE").and_then(|p| std::fs::read_to_string(p).ok()) else {
        c.count("race detector not available");
        return;
    };
    const MARK: &str = "WARNING: ThreadSanitizer";
    if let Some(at) = o.find(MARK) {
        c.fail(format!("the race detector reports {} races, first:\n{}", o.matches(MARK).count(), o[at..].chars().take(3000).collect::<String>()));
    }
    let mut done = 0;
    for l in o.lines() {
        if let Some((k, n)) = l.strip_prefix("observed ").and_then(|l| l.rsplit_once(' ')) {
            let n: u64 = n.parse().unwrap_or(0);
            done += n;
            c.add(&format!("race detector: {k}"), n);
        } else if let Some(d) = l.strip_prefix("differs ") {
            c.fail(format!("under the race detector: {d}"));
        }
    }
    if done == 0 {
        c.count(&format!("race detector did not run: {}", o.lines().last().unwrap_or("")));
    }
}

/// Subcommand, built for the race detector: the threads of some cases.
fn race_main(seed: &str, cases: &str) -> i32 {
    mon::install_hook();
    let seed: u64 = seed.parse().expect("seed");
    let (mut ops, mut overlaps) = (0, 0);
    for idx in 0..cases.parse().expect("cases") {
        let mut r = Rng::new(seed, "C19 race", idx);
        let p = ops::pool(seed, idx);
        let comps = ops::components(&p);
        let base: Vec<String> = p.ops.iter().map(|o| o.run(&comps)).collect();
        let k = *r.pick(&[2, 4, 8]);
        let (bad, done, overlap) = threads(&mut r, k, &p, &comps, &base, 0);
        ops += done;
        overlaps += overlap;
        for (i, got) in bad.into_iter().take(2) {
            println!("differs {:?} was {:?} now {got:?}", p.ops[i], base[i]);
        }
    }
    println!("observed operations {ops}\nobserved overlapping operations {overlaps}");
    0
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    match a.as_slice() {
        ["ops", seed, idx, list] => std::process::exit(ops_main(seed, idx, list)),
        ["race", seed, cases] => std::process::exit(race_main(seed, cases)),
        ["C19"] | ["replay", ..] => {
            let report = race(&a);
            if let Some(p) = &report {
                // SAFETY: no other thread runs yet.
                unsafe { std::env::set_var("IKPURE_RACE", p) };
            }
            let code = ikmon::command(&[&PROP]);
            if let Some(p) = report {
                let _ = std::fs::remove_file(p);
            }
            std::process::exit(code)
        }
        _ => ikmon::cli(&[&PROP]),
    }
}

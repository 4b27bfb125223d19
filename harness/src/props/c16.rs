//! C16: recurrence iteration is total.

use crate::cal;
use crate::gen_::{self, Mode, Opts};
use crate::ik::{self, Any};
use crate::model::{Dt, Kind, MComp, MRecur, MVal};
use crate::mon::{Ctx, Prop, Step, allocated, guard, process_cpu};
use crate::rec;
use crate::rng::Rng;

pub const ZONES: &[&str] = &[
    "UTC", "America/New_York", "America/St_Johns", "America/Santiago", "America/Sao_Paulo", "America/Caracas", "America/Anchorage",
    "Europe/Paris", "Europe/London", "Europe/Dublin", "Africa/Casablanca", "Africa/Cairo", "Africa/Monrovia", "Asia/Kathmandu", "Asia/Tehran",
    "Asia/Pyongyang", "Asia/Gaza", "Australia/Lord_Howe", "Australia/Adelaide", "Pacific/Apia", "Pacific/Kiritimati", "Pacific/Chatham",
    "Antarctica/Troll", "Pacific/Kwajalein",
];

pub const PROP: Prop = Prop {
    id: "C16",
    rule: "hostile components (random properties, ends before starts, mixed kinds of dates) with arbitrary rules (interval 0, all BY parts, COUNT 0, long \
           and consecutive EXDATE lists) starting anywhere from the first to the last day of the calendar, iterated step by step in 24 time zones, \
           many to the end of the calendar; each step judged for panic, return, order and allocation budget; rules are also added to dates of all \
           types; distinct = distinct (zone, rule, start), non-trivial = at least one step past the start",
    cases: |t| if t { 3_000_000 } else { 480_000 },
    zones: ZONES,
    case,
    once,
    need: &[
        ("distinct", 50_000),
        ("steps", 2_000_000),
        ("ends of the calendar reached", 10_000),
        ("interval 0", 10_000),
        ("additions", 100_000),
        ("steps across offset changes", 1_000),
        ("runs of exceptions", 1_000),
        ("29 February", 400),
    ],
    single_threaded_shards: true,
    assumptions: "no leap seconds; absolute times at least two days away from the first and last instant chrono can represent; adding a rule is tried \
                  where the result is within the calendar, and for bare days with daily or longer rules",
};

/// Last day chrono can represent.
pub fn last_day() -> i64 {
    ik::rd_date(chrono::NaiveDate::MAX)
}

fn first_day() -> i64 {
    ik::rd_date(chrono::NaiveDate::MIN)
}

fn anywhere(r: &mut Rng) -> Dt {
    let (lo, hi) = (first_day() + 2, last_day() - 2);
    let day = match r.below(6) {
        0 => hi - r.range(0, 400),
        1 => lo + r.range(0, 400),
        2 => r.range(lo, hi),
        _ => return rec::start(r, (1850, 2110)),
    };
    let s = day * cal::DAY + gen_::time(r);
    match r.below(3) {
        0 => Dt::Date(day),
        1 => Dt::Naive(s, 0),
        _ => Dt::Utc(s, 0),
    }
}

/// Starts just before the limit of the calendar (floating ones right up to it).
fn near_end(r: &mut Rng) -> Dt {
    let day = last_day() - if r.chance(1, 3) { r.range(0, 3) } else { r.range(0, 1500) };
    let t = gen_::time(r);
    match r.below(3) {
        0 => Dt::Date(day),
        1 => Dt::Naive(day * cal::DAY + t, 0),
        _ => Dt::Utc((day - 2) * cal::DAY + t, 0),
    }
}

fn hostile_rule(r: &mut Rng) -> MRecur {
    let mut m = if r.chance(1, 2) { gen_::recur(r, &Opts { variants: false, leap: false, ..Opts::doc(true) }) } else { rec::rule(r) };
    if r.chance(1, 4) {
        m.interval = 0;
    }
    m
}

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C16", idx);
    let kind = *r.pick(&rec::RECURRING);
    let mut rule = hostile_rule(&mut r);
    let mut to_end = false;
    let start = match r.below(5) {
        0 => {
            // to the end of the calendar, within some thousand steps
            to_end = true;
            rule.count = None;
            rule.until = None;
            match r.below(3) {
                0 => {
                    rule.freq = "YEARLY".into();
                    rule.interval = r.range(200, 255) as u8;
                    anywhere(&mut r)
                }
                _ => {
                    rule.freq = (*r.pick(&["DAILY", "WEEKLY", "MONTHLY", "YEARLY"])).into();
                    near_end(&mut r)
                }
            }
        }
        1 => near_offset_change(&mut r, &mut rule),
        _ => anywhere(&mut r),
    };
    let mut ex = Vec::new();
    if !to_end && r.chance(1, 4) {
        let n = if r.chance(1, 10) { 300 } else { 1 + r.us(30) };
        if r.chance(1, 2) {
            ex.extend(rec::Series::new(start, &rule).skip(r.us(3)).take(n).take_while(|d| rec::secs(d) < (last_day() - 2) * cal::DAY));
            c.count("runs of exceptions");
        } else {
            ex.extend((0..n).map(|_| anywhere(&mut r)));
        }
    }
    let mut m = component(&mut r, kind, start, &rule, &ex);
    let bare = to_end && r.chance(3, 4);
    if bare {
        m = rec::plain(kind, start, &rule, &[]);
    }
    let step = (|| -> Step<usize> {
        let any = Any::build(&m, false);
        let max = if to_end { 6000 } else { 40 };
        let n = walk(&any, start, &rule, max, ex.len(), c, bare)?;
        for _ in 0..2 {
            add(&mut r, &rule, c)?;
        }
        Ok(n)
    })();
    match step {
        Err(e) => c.fail(format!("{e}\nTZ={} start {start:?} rule {} exceptions {}\ncomponent:\n{}", c.tz, rule.wire(), ex.len(), brief(&m))),
        Ok(n) => {
            if n >= 2 {
                c.distinct(&format!("{}{}{start:?}", c.tz, rule.wire()));
            }
            if rule.interval == 0 {
                c.count("interval 0");
            }
            let (_, mo, d) = cal::civil(rec::secs(&start).div_euclid(cal::DAY));
            if (mo, d) == (2, 29) {
                c.count("29 February");
            }
            let tz = c.tz.clone();
            c.sample(|| format!("TZ={tz} {start:?} {} ({n} steps)", rule.wire()));
        }
    }
}

fn brief(m: &MComp) -> String {
    m.text().chars().take(3000).collect()
}

/// Absolute times within a day of a change of the system zone's offset, at short steps.
fn near_offset_change(r: &mut Rng, rule: &mut MRecur) -> Dt {
    rule.freq = (*r.pick(&["SECONDLY", "MINUTELY", "HOURLY", "DAILY"])).into();
    let mut s = r.range(cal::days(1900, 1, 1), cal::days(2037, 1, 1)) * cal::DAY;
    let off = |s: i64| ik::local_wall(s) - s;
    for _ in 0..4 {
        let (mut lo, mut hi) = (s, s + 200 * cal::DAY);
        if off(lo) == off(hi) {
            s = r.range(cal::days(1900, 1, 1), cal::days(2037, 1, 1)) * cal::DAY;
            continue;
        }
        while hi - lo > 1 {
            let mid = lo + (hi - lo) / 2;
            if off(mid) == off(lo) {
                lo = mid;
            } else {
                hi = mid;
            }
        }
        s = hi;
        break;
    }
    let d = match rule.freq.as_str() {
        "SECONDLY" => r.range(0, 40),
        "MINUTELY" => r.range(0, 40 * 60),
        _ => r.range(0, 2 * cal::DAY),
    };
    if r.chance(1, 2) { Dt::Utc(s - d, 0) } else { Dt::Naive(ik::local_wall(s) - d, 0) }
}

fn component(r: &mut Rng, kind: Kind, start: Dt, rule: &MRecur, ex: &[Dt]) -> MComp {
    let o = Opts { leap: false, ..Opts::built(Mode::Plain, true) };
    let mut m = gen_::comp(r, &o, kind);
    m.lines.retain(|l| !matches!(l.name.as_str(), "DTSTART" | "RRULE" | "EXDATE" | "DTEND" | "DUE"));
    m.lines.extend(rec::plain(kind, start, rule, ex).lines.into_iter().filter(|l| !matches!(l.name.as_str(), "DTSTAMP" | "UID")));
    if r.chance(1, 2) {
        let d = if r.chance(1, 2) { anywhere(r) } else { rec::with_secs(&start, (rec::secs(&start) + r.range(-100_000, 100_000)).clamp((first_day() + 2) * cal::DAY, (last_day() - 2) * cal::DAY)) };
        match kind {
            Kind::VEvent => m.lines.push(rec::known("DTEND", MVal::D(d))),
            Kind::VTodo => m.lines.push(rec::known("DUE", MVal::D(d))),
            _ => {}
        }
    }
    if kind == Kind::VTodo && r.chance(1, 20) {
        m.lines.retain(|l| l.name != "DTSTART");
    }
    m
}

/// Iterates at most `max` steps, judging each.
fn walk(any: &Any, start: Dt, rule: &MRecur, max: usize, exceptions: usize, c: &mut Ctx, must_end: bool) -> Step<usize> {
    let size = {
        let a = allocated().0;
        let copy = any.clone();
        let n = allocated().0 - a;
        drop(copy);
        n
    };
    let budget = (6 * size + 50_000) * (1 + exceptions as u64);
    let cpu = process_cpu();
    let (n, ended, last) = guard("iterating", || -> Step<(usize, bool, Option<Dt>)> {
        rec::iterate(any, |it| {
            let mut last: Option<Dt> = None;
            let mut n = 0;
            while n < max {
                let before = allocated().0;
                let next = it.next();
                let used = allocated().0 - before;
                if used > budget {
                    return Err(format!("step {n} allocated {used} bytes; the component holds {size}, exceptions {exceptions}"));
                }
                let Some(next) = next else { return Ok((n, true, last)) };
                let Some(d) = rec::start_of(&next) else { return Err(format!("occurrence {n} has no start")) };
                if let Some(l) = last {
                    if rec::secs(&d) <= rec::secs(&l) {
                        return Err(format!("occurrence {n} at {d:?} does not follow {l:?}"));
                    }
                    if let (Dt::Utc(a, _), Dt::Utc(b, _)) = (l, d)
                        && b - a <= cal::DAY
                        && ik::local_wall(a) - a != ik::local_wall(b) - b
                    {
                        c.count("steps across offset changes");
                    }
                }
                last = Some(d);
                n += 1;
            }
            Ok((n, false, last))
        })
    })??;
    c.add("steps", n as u64);
    let used = process_cpu() - cpu;
    if used > 20.0 {
        return Err(format!("{n} steps took {used:.1} s of CPU time"));
    }
    if must_end && n < max {
        // nothing but the limit of the calendar can have ended this
        if !ended {
            return Err("iteration stopped without ending".into());
        }
        let l = last.ok_or("a rule without bounds yields no occurrence")?;
        let after = rec::Series::new(l, rule).nth(1).unwrap();
        // an all-day start that recurs within the day continues as a time
        if rec::secs(&after) < (last_day() - 3) * cal::DAY {
            return Err(format!("iteration from {start:?} ends at {l:?}, long before the calendar does"));
        }
        c.count("ends of the calendar reached");
    } else if ended {
        c.count("other ends");
    }
    Ok(n)
}

/// Rule + date, for all types of dates.
fn add(r: &mut Rng, rule: &MRecur, c: &mut Ctx) -> Step {
    let d = if r.chance(1, 4) { near_end(r) } else { anywhere(r) };
    let after = rec::Series::new(d, rule).nth(1).unwrap();
    if rec::secs(&after) >= (last_day() - 2) * cal::DAY {
        return Ok(());
    }
    c.count("additions");
    let rr = ik::mk_recur(rule);
    let got = guard("adding a rule to a date", || {
        let mut v = vec![ik::rd_any(&(rr.clone() + ik::mk_date(&d)))];
        match d {
            Dt::Date(day) => {
                if !rec::is_subdaily(rule) {
                    v.push(ik::rd_any(&(rr.clone() + ik::naive_date(day)).into()));
                }
            }
            Dt::Naive(s, n) => {
                v.push(ik::rd_any(&(rr.clone() + ik::naive_dt(s, n)).into()));
                v.push(ik::rd_datetime(&(rr.clone() + ik::mk_datetime(&d))));
            }
            Dt::Utc(s, n) => {
                v.push(ik::rd_any(&(rr.clone() + ik::local_dt(s, n)).into()));
                v.push(ik::rd_datetime(&(rr.clone() + ik::mk_datetime(&d))));
            }
        }
        v
    })?;
    for g in got {
        if rec::secs(&g) <= rec::secs(&d) {
            return Err(format!("{} added to {d:?} gives {g:?}, which is not later", rule.wire()));
        }
    }
    Ok(())
}

/// The whole calendar, once per zone: yearly from the first to the last year, and monthly on the 31st at both ends.
fn once(c: &mut Ctx) {
    let mut run = |start: Dt, freq: &str, interval: u8| {
        let mut rule = MRecur::new(freq);
        rule.interval = interval;
        let m = rec::plain(Kind::VEvent, start, &rule, &[]);
        let any = Any::build(&m, false);
        c.count("whole calendars");
        if let Err(e) = walk(&any, start, &rule, 600_000, 0, c, true) {
            c.fail(format!("{e}\nTZ={} start {start:?} rule {}", c.tz, rule.wire()));
        }
    };
    let (lo, hi) = (first_day() + 2, last_day() - 2);
    run(Dt::Utc(lo * cal::DAY + 3600, 0), "YEARLY", 20);
    run(Dt::Date(first_day()), "YEARLY", 97);
    run(Dt::Naive(first_day() * cal::DAY, 0), "YEARLY", 255);
    run(Dt::Utc((hi - 3000) * cal::DAY, 0), "DAILY", 1);
    run(Dt::Utc((hi - 10) * cal::DAY, 0), "HOURLY", 1);
    run(Dt::Naive(last_day() * cal::DAY + 80_000, 0), "SECONDLY", 1);
    run(Dt::Date(cal::days(262_000, 1, 31)), "MONTHLY", 1);
    run(Dt::Date(cal::days(262_000, 2, 29)), "YEARLY", 1);
    run(Dt::Date(cal::days(-262_000, 2, 29)), "YEARLY", 255);
    run(Dt::Date(last_day()), "DAILY", 1);
    run(Dt::Naive(last_day() * cal::DAY + 86_399, 0), "SECONDLY", 1);
    run(Dt::Date(last_day()), "YEARLY", 0);
    // a long run of exceptions must not need stack for each of them
    for (kind, freq, n) in [(Kind::VEvent, "SECONDLY", 9_000), (Kind::VTodo, "DAILY", 4_000), (Kind::VJournal, "MONTHLY", 4_000)] {
        let start = Dt::Naive(1_700_000_000 / 86_400 * 86_400, 0);
        let rule = MRecur::new(freq);
        let ex: Vec<Dt> = rec::Series::new(start, &rule).take(n).collect();
        let any = Any::build(&rec::plain(kind, start, &rule, &ex), false);
        let step = std::thread::Builder::new().stack_size(512 << 10).spawn(move || {
            guard("iterating past a run of exceptions", || rec::iterate(&any, |it| it.next().and_then(|a| rec::start_of(&a))))
        });
        c.count("long runs of exceptions");
        let want = rec::Series::new(start, &rule).nth(n);
        match step.expect("thread").join().expect("thread") {
            Ok(got) if got == want => {}
            got => c.fail(format!("{n} exceptions in a row of {}: {got:?}, expected {want:?}", rule.wire())),
        }
    }
}

//! C13: recurrence yields exactly the dates of the rule.

use crate::cal;
use crate::ik::Any;
use crate::model::{Dt, Kind, MRecur};
use crate::mon::{Ctx, Prop, Step};
use crate::rec::{self, Series};
use crate::rng::Rng;

pub const PROP: Prop = Prop {
    id: "C13",
    rule: "random and boundary starts (dates, floating and UTC times, month ends, leap days, daylight-saving days), all frequencies, intervals 1-255, \
           COUNT, UNTIL at and just around occurrences, EXDATE sets (the first, the last, runs of consecutive occurrences, near misses), for \
           events, to-dos and journals parsed or set up by hand; the dates iterated are compared with an independent recurrence model, and so is \
           the end; distinct = distinct (kind, start, rule, exceptions), non-trivial = at least 2 dates expected",
    cases: |t| if t { 30_000_000 } else { 4_000_000 },
    zones: &["UTC", "America/New_York", "Europe/Paris", "Asia/Kathmandu", "Pacific/Apia", "Australia/Lord_Howe", "Africa/Casablanca", "America/Santiago"],
    case,
    once,
    need: &[
        ("distinct", 50_000),
        ("dates compared", 1_000_000),
        ("ends checked", 50_000),
        ("dates excluded", 50_000),
        ("first date excluded", 1_000),
        ("missing days skipped", 1_000),
        ("with UNTIL", 20_000),
        ("with COUNT", 20_000),
    ],
    single_threaded_shards: true,
    assumptions: "no BY parts, no leap seconds; UNTIL of floating kind against an absolute start (or the reverse) at least two days away from any \
                  occurrence; EXDATE of the kind of the occurrences, or days away from them",
};

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C13", idx);
    let kind = *r.pick(&rec::RECURRING);
    let years = if r.chance(1, 8) { (0, 9999) } else { (1900, 2100) };
    let start = rec::start(&mut r, years);
    let mut rule = rec::rule(&mut r);
    // where the rule goes when nothing bounds it
    let n = if r.chance(1, 30) { 300 } else { 1 + r.us(40) };
    let free = rec::first(start, &rule, n + 2);
    let n = n.min(free.len());
    bounds(&mut r, &mut rule, &free);
    let ex = exceptions(&mut r, &free);
    let m = rec::plain(kind, start, &rule, &ex);
    let step = (|| -> Step<usize> {
        let any = rec::realise(&mut r, &m)?;
        compare(&any, start, &rule, &ex, n, c)
    })();
    match step {
        Err(e) => c.fail(format!("{e}\ncomponent:\n{}", m.text())),
        Ok(len) => {
            if len >= 2 {
                c.distinct(&format!("{kind:?}{}", m.text()));
            }
            if rule.until.is_some() {
                c.count("with UNTIL");
            }
            if rule.count.is_some() {
                c.count("with COUNT");
            }
            c.sample(|| m.text());
        }
    }
}

pub fn bounds(r: &mut Rng, rule: &mut MRecur, free: &[Dt]) {
    let pick = r.below(7);
    if pick == 0 || pick == 1 || pick == 6 {
        rule.count = Some(if r.chance(1, 4) { r.range(1, 255) as u8 } else { r.range(1, free.len() as i64 + 2).min(255) as u8 });
    }
    if pick == 2 || pick == 3 || pick == 6 {
        let at = *r.pick(free);
        let s = rec::secs(&at) + *r.pick(&[0, 0, 1, -1, cal::DAY, -cal::DAY, 3600, -3600]);
        rule.until = Some(match r.below(6) {
            0 => Dt::Date(rec::day_of(&at)),
            1 => {
                // the other kind of time, well away from every occurrence
                let far = Dt::Date(s.div_euclid(cal::DAY));
                let gap = free.iter().all(|d| (rec::secs(d) - rec::secs(&far)).abs() > 3 * cal::DAY);
                match (at, gap) {
                    (Dt::Utc(..), true) => Dt::Naive(s, 0),
                    (Dt::Naive(..), true) => Dt::Utc(s, 0),
                    _ => rec::with_secs(&at, s),
                }
            }
            2 if matches!(at, Dt::Date(_)) => {
                // a time on a day bounds a date by that day
                if r.chance(1, 2) { Dt::Naive(s + 43_200, 0) } else { rec::with_secs(&at, s) }
            }
            _ => rec::with_secs(&at, s),
        });
    }
}

pub fn exceptions(r: &mut Rng, free: &[Dt]) -> Vec<Dt> {
    let mut ex = Vec::new();
    if r.chance(1, 2) {
        return ex;
    }
    match r.below(5) {
        0 => ex.push(free[0]),
        1 => {
            let a = r.us(free.len());
            let b = (a + 1 + r.us(12)).min(free.len());
            ex.extend(&free[a..b]);
        }
        2 => ex.extend(free.iter().filter(|_| r.chance(1, 3)).copied().collect::<Vec<_>>()),
        3 => ex.push(*r.pick(free)),
        _ => {}
    }
    if r.chance(1, 3) {
        // near misses, and the same date twice
        let d = *r.pick(free);
        ex.push(rec::with_secs(&d, rec::secs(&d) + if matches!(d, Dt::Date(_)) { cal::DAY } else { 1 }));
        ex.push(*ex.first().unwrap_or(&d));
    }
    if r.chance(1, 8) {
        // of another kind, days away from all
        let far = Dt::Date(rec::secs(&free[0]).div_euclid(cal::DAY) - 5 - r.range(0, 100));
        ex.push(far);
    }
    r.shuffle(&mut ex);
    ex
}

fn compare(any: &Any, start: Dt, rule: &MRecur, ex: &[Dt], n: usize, c: &mut Ctx) -> Step<usize> {
    let (want, ends) = rec::expected(start, rule, ex, n);
    let (got, ended, more) = rec::starts(any, if ends { want.len() + 1 } else { want.len() })?;
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            Some(g) if g == w => c.count("dates compared"),
            Some(g) => return Err(format!("occurrence {i}: expected {w:?}, got {g:?}; expected in all: {want:?}\ngot: {got:?}")),
            None => return Err(format!("iteration ended after {} occurrences, expected {}: {want:?}", got.len(), want.len())),
        }
    }
    if ends {
        if !ended {
            return Err(format!("iteration goes on after the last occurrence: {:?} after {want:?}", got.last()));
        }
        c.count("ends checked");
    }
    if more != 0 {
        return Err(format!("iteration yields {more} more after it ended"));
    }
    let free: Vec<Dt> = Series::new(start, rule).take(want.len() + ex.len()).collect();
    let excluded = ex.iter().filter(|e| free.contains(e)).count();
    c.add("dates excluded", excluded as u64);
    if ex.contains(&start) {
        c.count("first date excluded");
    }
    if matches!(rule.freq.as_str(), "MONTHLY" | "YEARLY") && want.len() >= 2 {
        let (_, _, d) = cal::civil(rec::secs(&start).div_euclid(cal::DAY));
        if d > 28 {
            c.count("missing days skipped");
        }
    }
    Ok(want.len())
}

/// Every day of a month as start of every frequency, all intervals, all kinds.
fn once(c: &mut Ctx) {
    for freq in crate::ik::FREQS {
        for interval in 1..=255u8 {
            for (y, m, d) in [(2024, 1, 31), (2024, 2, 29), (2023, 11, 30), (2000, 2, 29), (2096, 2, 29), (2023, 12, 29)] {
                let day = cal::days(y, m, d);
                let start = match (usize::from(interval) + d as usize) % 3 {
                    0 => Dt::Date(day),
                    1 => Dt::Naive(day * cal::DAY + 86_399, 0),
                    _ => Dt::Utc(day * cal::DAY + 7_200, 0),
                };
                let mut rule = MRecur::new(freq.0);
                rule.interval = interval;
                rule.count = Some(6);
                let m = rec::plain(Kind::VEvent, start, &rule, &[]);
                c.count("systematic rules");
                if let Err(e) = compare(&Any::build(&m, false), start, &rule, &[], 10, c) {
                    c.fail(format!("{e}\ncomponent:\n{}", m.text()));
                }
            }
        }
    }
}

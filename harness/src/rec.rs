//! Independent model of recurrence, and the bridge to ikal's iteration.

use crate::cal;
use crate::gen_;
use crate::ik::{self, Any, Via};
use crate::model::{Body, Dt, Kind, MComp, MLine, MRecur, MVal};
use crate::mon::{Step, guard};
use crate::rng::Rng;

/// Seconds since 1970 on the value's own clock (a date stands for its midnight).
pub fn secs(d: &Dt) -> i64 {
    match *d {
        Dt::Date(d) => d * cal::DAY,
        Dt::Naive(s, _) | Dt::Utc(s, _) => s,
    }
}

pub fn with_secs(like: &Dt, s: i64) -> Dt {
    match like {
        Dt::Date(_) => Dt::Date(s.div_euclid(cal::DAY)),
        Dt::Naive(..) => Dt::Naive(s, 0),
        Dt::Utc(..) => Dt::Utc(s, 0),
    }
}

fn step(r: &MRecur) -> Result<i64, i64> {
    let n = i64::from(r.interval.max(1));
    match r.freq.as_str() {
        "SECONDLY" => Ok(n),
        "MINUTELY" => Ok(60 * n),
        "HOURLY" => Ok(3600 * n),
        "DAILY" => Ok(cal::DAY * n),
        "WEEKLY" => Ok(7 * cal::DAY * n),
        "MONTHLY" => Err(n),
        "YEARLY" => Err(12 * n),
        f => panic!("frequency {f}"),
    }
}

pub fn is_subdaily(r: &MRecur) -> bool {
    matches!(r.freq.as_str(), "SECONDLY" | "MINUTELY" | "HOURLY")
}

/// DTSTART and the dates a multiple of the interval later, without any bound of the rule.
pub struct Series {
    start: Dt,
    step: Result<i64, i64>,
    k: i64,
    sub: bool,
}

impl Series {
    pub fn new(start: Dt, r: &MRecur) -> Self {
        Series { start, step: step(r), k: 0, sub: is_subdaily(r) }
    }
}

impl Iterator for Series {
    type Item = Dt;
    fn next(&mut self) -> Option<Dt> {
        let s = secs(&self.start);
        if self.k == 0 {
            self.k = 1;
            return Some(self.start);
        }
        let like = match self.start {
            Dt::Date(_) if self.sub => Dt::Naive(0, 0),
            d => d,
        };
        match self.step {
            Ok(n) => {
                let t = s + self.k * n;
                self.k += 1;
                Some(with_secs(&like, t))
            }
            Err(months) => {
                let (y, m, d) = cal::civil(s.div_euclid(cal::DAY));
                loop {
                    let n = y * 12 + (m - 1) + self.k * months;
                    self.k += 1;
                    let (y2, m2) = (n.div_euclid(12), n.rem_euclid(12) + 1);
                    if d <= cal::days_in_month(y2, m2) {
                        return Some(with_secs(&like, cal::days(y2, m2, d) * cal::DAY + s.rem_euclid(cal::DAY)));
                    }
                }
            }
        }
    }
}

/// The first dates of a rule, at most `n` and none so late that as many again could leave chrono's calendar.
pub fn first(start: Dt, r: &MRecur, n: usize) -> Vec<Dt> {
    Series::new(start, r).take(n).take_while(|d| secs(d) < cal::days(100_000, 1, 1) * cal::DAY).collect()
}

/// Day of a value for comparisons with plain dates.
pub fn day_of(d: &Dt) -> i64 {
    match *d {
        Dt::Date(d) => d,
        Dt::Naive(s, _) => s.div_euclid(cal::DAY),
        Dt::Utc(s, _) => ik::local_wall(s).div_euclid(cal::DAY),
    }
}

/// Chronological comparison; None for a floating against an absolute time.
pub fn cmp(a: &Dt, b: &Dt) -> Option<std::cmp::Ordering> {
    match (a, b) {
        (Dt::Date(_), _) | (_, Dt::Date(_)) => Some(day_of(a).cmp(&day_of(b))),
        (Dt::Naive(..), Dt::Naive(..)) | (Dt::Utc(..), Dt::Utc(..)) => Some(secs(a).cmp(&secs(b))),
        _ => None,
    }
}

/// What iteration must yield: at most `max` dates, and whether the recurrence ends there.
pub fn expected(start: Dt, r: &MRecur, exdates: &[Dt], max: usize) -> (Vec<Dt>, bool) {
    let mut out = Vec::new();
    let mut generated = 0u32;
    let ex: std::collections::HashSet<&Dt> = exdates.iter().collect();
    for d in Series::new(start, r) {
        if r.count.is_some_and(|c| generated >= u32::from(c)) {
            return (out, true);
        }
        if let Some(u) = &r.until
            && cmp(&d, u) == Some(std::cmp::Ordering::Greater)
        {
            return (out, true);
        }
        if out.len() >= max {
            return (out, false);
        }
        generated += 1;
        if !ex.contains(&d) {
            out.push(d);
        }
    }
    unreachable!()
}

// ---------------------------------------------------------------- ikal

pub fn start_of(a: &Any) -> Option<Dt> {
    match a {
        Any::VEvent(e) => Some(ik::rd_any(&e.dtstart)),
        Any::VTodo(e) => e.dtstart.as_ref().map(ik::rd_any),
        Any::VJournal(e) => Some(ik::rd_any(&e.dtstart)),
        _ => None,
    }
}

/// Runs `f` on the plain iteration of the component.
pub fn iterate<R>(a: &Any, f: impl FnOnce(&mut dyn Iterator<Item = Any>) -> R) -> R {
    match a {
        Any::VEvent(e) => f(&mut e.recurrent().map(Any::VEvent)),
        Any::VTodo(e) => f(&mut e.recurrent().map(Any::VTodo)),
        Any::VJournal(e) => f(&mut e.recurrent().map(Any::VJournal)),
        _ => f(&mut std::iter::empty()),
    }
}

/// At most `max` occurrences, and whether iteration ended before.
pub fn occurrences(a: &Any, max: usize) -> Step<(Vec<Any>, bool)> {
    guard("iterating", || {
        iterate(a, |it| {
            let mut v = Vec::new();
            while v.len() < max {
                match it.next() {
                    Some(x) => v.push(x),
                    None => return (v, true),
                }
            }
            (v, false)
        })
    })
}

/// Starts of at most `max` occurrences; and how many further calls of next() after the end gave something.
pub fn starts(a: &Any, max: usize) -> Step<(Vec<Dt>, bool, usize)> {
    fn go<T>(mut it: impl Iterator<Item = T>, max: usize, get: impl Fn(&T) -> Option<Dt>) -> (Vec<Dt>, bool, usize) {
        let mut v = Vec::new();
        while v.len() < max {
            match it.next() {
                Some(x) => match get(&x) {
                    Some(d) => v.push(d),
                    None => return (v, false, 99),
                },
                None => {
                    let more = (0..4).filter(|_| it.next().is_some()).count();
                    return (v, true, more);
                }
            }
        }
        (v, false, 0)
    }
    guard("iterating", || match a {
        Any::VEvent(e) => go(e.recurrent(), max, |x| Some(ik::rd_any(&x.dtstart))),
        Any::VTodo(e) => go(e.recurrent(), max, |x| x.dtstart.as_ref().map(ik::rd_any)),
        Any::VJournal(e) => go(e.recurrent(), max, |x| Some(ik::rd_any(&x.dtstart))),
        _ => (vec![], true, 0),
    })
}

// ---------------------------------------------------------------- workload

pub const RECURRING: [Kind; 3] = [Kind::VEvent, Kind::VTodo, Kind::VJournal];

pub fn known(name: &'static str, v: MVal) -> MLine {
    let w = v.wire();
    MLine { name: name.into(), body: Body::Known(name, vec![(v, w)]), params: vec![] }
}

/// A date or date-time worth recurring from, without leap seconds.
pub fn start(r: &mut Rng, years: (i64, i64)) -> Dt {
    let o = gen_::Opts { leap: false, years, ..gen_::Opts::doc(true) };
    let mut d = gen_::date(r, &o);
    if r.chance(1, 4) {
        // the end of a month
        let (y, m, _) = cal::civil(secs(&d).div_euclid(cal::DAY));
        let last = cal::days_in_month(y, m);
        let day = if m == 2 { last } else { r.range(28, last) };
        d = with_secs(&d, cal::days(y, m, day) * cal::DAY + secs(&d).rem_euclid(cal::DAY));
    }
    d
}

pub fn rule(r: &mut Rng) -> MRecur {
    let mut m = MRecur::new(ik::FREQS[r.us(7)].0);
    m.interval = match r.below(4) {
        0 | 1 => r.range(1, 4) as u8,
        2 => r.range(1, 30) as u8,
        _ => r.range(1, 255) as u8,
    };
    m
}

/// True if a document can carry these dates (years 0 to 9999).
pub fn writable(m: &MComp) -> bool {
    let fits = |d: &Dt| (0..=9999).contains(&cal::civil(secs(d).div_euclid(cal::DAY)).0);
    m.lines.iter().all(|l| match &l.body {
        Body::Known(_, v) => v.iter().all(|v| match &v.0 {
            MVal::D(d) => fits(d),
            MVal::Recur(r) => r.until.as_ref().is_none_or(fits),
            _ => true,
        }),
        Body::Unknown(_) => true,
    })
}

/// The component as ikal has it: parsed from text, or set up through the fields.
pub fn realise(r: &mut Rng, m: &MComp) -> Step<Any> {
    if !writable(m) || r.chance(1, 2) {
        return Ok(Any::build(m, false));
    }
    ik::parse(m.kind, false, &m.text(), Via::FromStr)?.map_err(|e| format!("rejected: {e}\ndocument:\n{}", m.text()))
}

/// The least component with this start, rule and exceptions.
pub fn plain(kind: Kind, start: Dt, rule: &MRecur, exdates: &[Dt]) -> MComp {
    let mut lines = vec![
        known("DTSTAMP", MVal::D(Dt::Naive(0, 0))),
        known("UID", MVal::Text("u".into())),
        known("DTSTART", MVal::D(start)),
        known("RRULE", MVal::Recur(Box::new(rule.clone()))),
    ];
    for chunk in exdates.chunks(7) {
        let vals: Vec<(MVal, String)> = chunk.iter().map(|d| (MVal::D(*d), d.wire())).collect();
        lines.push(MLine { name: "EXDATE".into(), body: Body::Known("EXDATE", vals), params: vec![] });
    }
    MComp { kind, lines, kids: vec![] }
}

//! C15: window queries select exactly the occurrences in the window.

use super::c13;
use crate::cal;
use crate::ik::{self, Any};
use crate::model::{Dt, MRecur, MVal};
use crate::mon::{Ctx, Prop, Step, guard};
use crate::rec;
use crate::rng::Rng;
use std::cmp::Ordering;

pub const PROP: Prop = Prop {
    id: "C15",
    rule: "random recurrences of events, to-dos and journals; between, after and at called with bounds at, just before, just after and between \
           occurrences, beyond both ends and reversed, given as dates, floating and absolute times and as chrono's types; the occurrences returned \
           must be those of plain iteration, as whole components, whose start compares into the window; distinct = distinct (recurrence, query, \
           bounds), non-trivial = the window holds some but not all occurrences looked at",
    cases: |t| if t { 6_000_000 } else { 600_000 },
    zones: &["UTC", "America/New_York", "Europe/Paris", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Auckland"],
    case,
    once: |_| {},
    need: &[
        ("distinct", 50_000),
        ("between", 50_000),
        ("after", 30_000),
        ("at", 30_000),
        ("occurrences selected", 200_000),
        ("occurrences left out", 200_000),
        ("date bounds on date-times", 10_000),
        ("date-time bounds on dates", 10_000),
        ("empty windows", 1_000),
        ("distant windows", 10_000),
        ("long recurrences", 2_000),
    ],
    single_threaded_shards: true,
    assumptions: "an all-day component that recurs within the day (which RFC 5545 has no use for) is queried by days only; floating and absolute times are not mixed (their order is left open by the statement); zones in which a local day never comes twice",
};

/// A bound in any of the types the queries accept.
#[derive(Clone, Copy, Debug)]
pub enum Bound {
    Date(ikal::Date),
    DateTime(ikal::DateTime),
    NaiveDate(chrono::NaiveDate),
    Naive(chrono::NaiveDateTime),
    Local(chrono::DateTime<chrono::Local>),
}

pub fn bound(r: &mut Rng, d: &Dt) -> Bound {
    if r.chance(1, 2) {
        return Bound::Date(ik::mk_date(d));
    }
    match *d {
        Dt::Date(d) => Bound::NaiveDate(ik::naive_date(d)),
        _ if r.chance(1, 2) => Bound::DateTime(ik::mk_datetime(d)),
        Dt::Naive(s, n) => Bound::Naive(ik::naive_dt(s, n)),
        Dt::Utc(s, n) => Bound::Local(ik::local_dt(s, n)),
    }
}

fn as_date(b: Bound) -> ikal::Date {
    match b {
        Bound::Date(d) => d,
        Bound::DateTime(d) => d.into(),
        Bound::NaiveDate(d) => d.into(),
        Bound::Naive(d) => d.into(),
        Bound::Local(d) => d.into(),
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Query {
    Between(Bound, Bound),
    After(Bound),
    At(Bound),
}

macro_rules! query {
    ($rec:expr, $q:expr, $f:expr) => {
        match $q {
            Query::Between(Bound::NaiveDate(a), Bound::NaiveDate(b)) => $f(&mut $rec.between(a, b)),
            Query::Between(Bound::Naive(a), Bound::Naive(b)) => $f(&mut $rec.between(a, b)),
            Query::Between(Bound::Local(a), Bound::Local(b)) => $f(&mut $rec.between(a, b)),
            Query::Between(Bound::DateTime(a), Bound::DateTime(b)) => $f(&mut $rec.between(a, b)),
            Query::Between(a, b) => $f(&mut $rec.between(as_date(a), as_date(b))),
            Query::After(Bound::NaiveDate(a)) => $f(&mut $rec.after(a)),
            Query::After(Bound::Naive(a)) => $f(&mut $rec.after(a)),
            Query::After(Bound::Local(a)) => $f(&mut $rec.after(a)),
            Query::After(Bound::DateTime(a)) => $f(&mut $rec.after(a)),
            Query::After(a) => $f(&mut $rec.after(as_date(a))),
            Query::At(Bound::NaiveDate(a)) => $f(&mut $rec.at(a)),
            Query::At(Bound::Naive(a)) => $f(&mut $rec.at(a)),
            Query::At(Bound::Local(a)) => $f(&mut $rec.at(a)),
            Query::At(Bound::DateTime(a)) => $f(&mut $rec.at(a)),
            Query::At(a) => $f(&mut $rec.at(as_date(a))),
        }
    };
}

pub fn run(any: &Any, q: Query, max: usize) -> Step<Vec<Any>> {
    fn take<T>(it: &mut dyn Iterator<Item = T>, max: usize, wrap: fn(T) -> Any) -> Vec<Any> {
        it.take(max).map(wrap).collect()
    }
    guard("querying", || match any {
        Any::VEvent(e) => query!(e.recurrent(), q, |it: &mut dyn Iterator<Item = _>| take(it, max, Any::VEvent)),
        Any::VTodo(e) => query!(e.recurrent(), q, |it: &mut dyn Iterator<Item = _>| take(it, max, Any::VTodo)),
        Any::VJournal(e) => query!(e.recurrent(), q, |it: &mut dyn Iterator<Item = _>| take(it, max, Any::VJournal)),
        _ => vec![],
    })
}

const N: usize = 40;

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C15", idx);
    let kind = *r.pick(&rec::RECURRING);
    let start = rec::start(&mut r, (1960, 2100));
    let mut rule = rec::rule(&mut r);
    // now and then a long one, with bounds far from the start
    let long = r.chance(1, 40);
    let n = if long { 300 + r.us(500) } else { N };
    let free = rec::first(start, &rule, n);
    let n = free.len();
    if r.chance(1, 3) {
        c13::bounds(&mut r, &mut rule, &free);
    }
    let ex = if r.chance(1, 4) { c13::exceptions(&mut r, &free) } else { vec![] };
    let mut m = rec::plain(kind, start, &rule, &ex);
    m.lines.push(rec::known("SUMMARY", MVal::Text(format!("number {idx}"))));
    if r.chance(1, 2) {
        let e = rec::with_secs(&start, rec::secs(&start) + 2 * cal::DAY);
        match kind {
            crate::model::Kind::VEvent => m.lines.push(rec::known("DTEND", MVal::D(e))),
            crate::model::Kind::VTodo => m.lines.push(rec::known("DUE", MVal::D(e))),
            _ => {}
        }
    }
    let mut a = point(&mut r, &free[..n - 5], start, &rule);
    let mut b = if r.chance(1, 5) { a } else { point(&mut r, &free[..n - 5], start, &rule) };
    if r.chance(1, 6) {
        // far beyond; where a recurrence has ended nothing begins again
        let days = r.range(0, 2000);
        a = rec::with_secs(&a, rec::secs(&a) + days * cal::DAY);
        b = rec::with_secs(&b, rec::secs(&b) + (days + r.range(0, 500)) * cal::DAY);
        c.count("distant windows");
    }
    if long {
        c.count("long recurrences");
    }
    // a window given by two kinds of bounds must not mix floating and absolute ones; both come from the same start
    let (ba, bb) = (bound(&mut r, &a), bound(&mut r, &b));
    let step = (|| -> Step<String> {
        let any = rec::realise(&mut r, &m)?;
        let (all, ended) = rec::occurrences(&any, n)?;
        let starts: Vec<Dt> = all.iter().map(|o| rec::start_of(o).unwrap()).collect();
        let ge = |d: &Dt, b: &Dt| rec::cmp(d, b) != Some(Ordering::Less);
        let lt = |d: &Dt, b: &Dt| rec::cmp(d, b) == Some(Ordering::Less);
        let (q, want): (Query, Vec<usize>) = match r.below(4) {
            0 | 1 => {
                c.count("between");
                (Query::Between(ba, bb), (0..all.len()).filter(|i| ge(&starts[*i], &a) && lt(&starts[*i], &b)).collect())
            }
            2 => {
                c.count("after");
                (Query::After(ba), (0..all.len()).filter(|i| ge(&starts[*i], &a)).collect())
            }
            _ => {
                c.count("at");
                let end = rec::with_secs(&a, rec::secs(&a) + cal::DAY);
                (Query::At(ba), (0..all.len()).filter(|i| ge(&starts[*i], &a) && lt(&starts[*i], &end)).collect())
            }
        };
        // what lies beyond the occurrences looked at is not judged
        let open = !ended
            && match q {
                Query::After(_) => true,
                Query::Between(..) => starts.last().is_none_or(|d| lt(d, &b)),
                Query::At(_) => starts.last().is_none_or(|d| lt(d, &rec::with_secs(&a, rec::secs(&a) + cal::DAY))),
            };
        let got = run(&any, q, want.len() + usize::from(!open))?;
        let text = format!("{q:?} on {rule:?} from {start:?}", rule = rule.wire());
        for (k, i) in want.iter().enumerate() {
            match got.get(k) {
                Some(g) if *g == all[*i] && rec::start_of(g) == Some(starts[*i]) => c.count("occurrences selected"),
                Some(g) => {
                    return Err(format!("{text}: item {k} starts at {:?}, expected the occurrence {i} of {:?}", rec::start_of(g), starts[*i]));
                }
                None => return Err(format!("{text}: {} items, expected {}: {:?}", got.len(), want.len(), want.iter().map(|i| starts[*i]).collect::<Vec<_>>())),
            }
        }
        if got.len() > want.len() {
            return Err(format!("{text}: {:?} is not in the window; expected {:?}", rec::start_of(&got[want.len()]), want.iter().map(|i| starts[*i]).collect::<Vec<_>>()));
        }
        c.add("occurrences left out", (all.len() - want.len()) as u64);
        if want.is_empty() {
            c.count("empty windows");
        }
        match (start, a) {
            (Dt::Date(_), Dt::Naive(..) | Dt::Utc(..)) => c.count("date-time bounds on dates"),
            (Dt::Naive(..) | Dt::Utc(..), Dt::Date(_)) => c.count("date bounds on date-times"),
            _ => {}
        }
        if !want.is_empty() && want.len() < all.len() {
            c.distinct(&text);
        }
        Ok(text)
    })();
    match step {
        Err(e) => c.fail(format!("{e}\ncomponent:\n{}", m.text())),
        Ok(s) => c.sample(|| s),
    }
}

/// A bound around some occurrence.
pub fn point(r: &mut Rng, free: &[Dt], start: Dt, rule: &MRecur) -> Dt {
    let d = *r.pick(free);
    let s = rec::secs(&d)
        + match r.below(6) {
            0..=2 => 0,
            3 => *r.pick(&[1, -1]),
            4 => *r.pick(&[cal::DAY, -cal::DAY, cal::DAY - 1, 43_200]),
            _ => r.range(-10, 10) * cal::DAY,
        };
    // a day that recurs within the day becomes a time: such components are queried by days
    if r.chance(1, 4) || (matches!(start, Dt::Date(_)) && rec::is_subdaily(rule)) {
        return Dt::Date(s.div_euclid(cal::DAY));
    }
    // the kind of time the occurrences are of; dates can be compared with any
    match d {
        Dt::Date(_) => match r.below(3) {
            0 => Dt::Naive(s + r.range(0, cal::DAY - 1), 0),
            1 => Dt::Utc(s + r.range(0, cal::DAY - 1), 0),
            _ => Dt::Date(s.div_euclid(cal::DAY)),
        },
        d => rec::with_secs(&d, s),
    }
}

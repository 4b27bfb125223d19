//! C14: each occurrence is the original component moved in time.

use super::c13;
use crate::cal;
use crate::gen_::{self, Mode, Opts};
use crate::ik::Any;
use crate::model::{Body, Dt, Dump, Kind, MComp, MVal};
use crate::mon::{Ctx, Prop, Step};
use crate::rec;
use crate::rng::Rng;

pub const PROP: Prop = Prop {
    id: "C14",
    rule: "full random events, to-dos and journals (all properties, alarms, unknown properties) with a rule, COUNT, UNTIL and EXDATE, parsed or set \
           up by hand; each of the first occurrences is compared with the original: end or due date moved by exactly as much as the start, \
           everything else equal field by field, and the original untouched; distinct = distinct shapes with rule, non-trivial = at least 2 \
           occurrences",
    cases: |t| if t { 3_000_000 } else { 400_000 },
    zones: &["UTC", "America/New_York", "Europe/Paris", "Australia/Lord_Howe", "America/Santiago", "Asia/Kathmandu"],
    case,
    once: |_| {},
    need: &[
        ("distinct", 20_000),
        ("occurrences compared", 200_000),
        ("moved end", 20_000),
        ("moved due", 10_000),
        ("moved absolute end", 2_000),
        ("moved date end", 2_000),
        ("alarms carried", 10_000),
        ("late ends", 10_000),
    ],
    single_threaded_shards: true,
    assumptions: "no leap seconds in start and end; an all-day end of a component that recurs within the day may become a date-time of the same instant",
};

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C14", idx);
    let kind = *r.pick(&rec::RECURRING);
    let built = r.chance(1, 3);
    let o = if built { Opts { leap: false, ..Opts::built(Mode::Hostile, true) } } else { Opts { leap: false, repeat: false, ..Opts::doc(true) } };
    let mut m = gen_::comp(&mut r, &o, kind);
    let start = rec::start(&mut r, (1900, 2100));
    let mut rule = gen_::recur(&mut r, &Opts { leap: false, ..Opts::doc(true) });
    let base = rec::rule(&mut r);
    rule.freq = base.freq.clone();
    // 0 stands for 1, and stays as it is
    rule.interval = if r.chance(1, 24) { 0 } else { base.interval };
    rule.count = None;
    rule.until = None;
    let free = rec::first(start, &rule, 12);
    if r.chance(1, 2) {
        c13::bounds(&mut r, &mut rule, &free);
    }
    let ex = if r.chance(1, 3) { c13::exceptions(&mut r, &free) } else { vec![] };
    m.lines.retain(|l| !matches!(l.name.as_str(), "DTSTART" | "RRULE" | "EXDATE" | "DTEND" | "DUE"));
    let head = rec::plain(kind, start, &rule, &ex);
    m.lines.extend(head.lines.into_iter().filter(|l| !matches!(l.name.as_str(), "DTSTAMP" | "UID")));
    let end = match kind {
        Kind::VEvent => Some("DTEND"),
        Kind::VTodo => Some("DUE"),
        _ => None,
    };
    let end = end.filter(|_| r.chance(4, 5));
    if let Some(name) = end {
        m.lines.push(rec::known(name, MVal::D(end_of(&mut r, start))));
    }
    if r.chance(1, 3) {
        coincide(&mut r, &mut m, &free);
    }
    let step = (|| -> Step<usize> {
        let any = if built || !rec::writable(&m) {
            Any::build(&m, false)
        } else {
            crate::ik::parse(kind, false, &m.text(), crate::ik::Via::FromStr)?.map_err(|e| format!("rejected: {e}"))?
        };
        check(&any, end, c)
    })();
    match step {
        Err(e) => c.fail(format!("{e}\ncomponent:\n{}", m.text())),
        Ok(n) => {
            if n >= 2 {
                c.distinct(&format!("{}{}", m.shape(), rule.wire()));
            }
            if n >= 2 && !m.kids.is_empty() {
                c.count("alarms carried");
            }
            c.sample(|| m.text());
        }
    }
}

/// Dates of other properties which are those of the start or of an occurrence.
fn coincide(r: &mut Rng, m: &mut MComp, free: &[Dt]) {
    for l in &mut m.lines {
        if matches!(l.name.as_str(), "DTSTART" | "EXDATE" | "RRULE" | "DTEND" | "DUE") {
            continue;
        }
        let Body::Known(_, v) = &mut l.body else { continue };
        for x in v.iter_mut() {
            let d = *r.pick(free);
            let d = *r.pick(&[free[0], free[1], d]);
            let alike = |old: &Dt| std::mem::discriminant(old) == std::mem::discriminant(&d);
            let new = match &x.0 {
                MVal::D(old) if alike(old) => MVal::D(d),
                MVal::Dates(_) if r.chance(1, 2) => MVal::Dates(vec![d]),
                MVal::Dates(old) => MVal::Dates(old.iter().copied().chain(Some(d)).collect()),
                _ => continue,
            };
            let w = new.wire();
            *x = (new, w);
            l.params.retain(|p| p.1 != "DATE" && p.0 != "TZID");
        }
    }
    if !m.lines.iter().any(|l| l.name == "RDATE") {
        m.lines.push(rec::known("RDATE", MVal::Dates(vec![*r.pick(&[free[0], free[1]])])));
    }
}

fn end_of(r: &mut Rng, start: Dt) -> Dt {
    let d = match r.below(6) {
        0 => 0,
        1 => r.range(0, 7200),
        2 => r.range(0, 5) * cal::DAY,
        3 => r.range(0, 400 * cal::DAY),
        4 => -r.range(0, 3 * cal::DAY),
        _ => r.range(1, 48) * 1800,
    };
    let s = rec::secs(&start) + d;
    match r.below(8) {
        0 => Dt::Date(s.div_euclid(cal::DAY)),
        1 => Dt::Naive(s, 0),
        2 => Dt::Utc(s, 0),
        _ => rec::with_secs(&start, s),
    }
}

fn one(d: &Dump, name: &str) -> Option<Dt> {
    match d.fields.get(name).and_then(|v| v.first()) {
        Some((MVal::D(d), _)) => Some(*d),
        _ => None,
    }
}

/// Everything but the start, the end and the remaining count.
fn rest(mut d: Dump, end: Option<&str>) -> Dump {
    d.fields.remove("DTSTART");
    if let Some(e) = end {
        d.fields.remove(e);
    }
    if let Some(v) = d.fields.get_mut("RRULE") {
        for x in v {
            if let MVal::Recur(r) = &mut x.0 {
                r.count = r.count.map(|_| 0);
            }
        }
    }
    d
}

fn check(any: &Any, end: Option<&'static str>, c: &mut Ctx) -> Step<usize> {
    let before = any.dump();
    let origin = before.clone();
    let (start0, end0) = (one(&origin, "DTSTART").unwrap(), end.and_then(|e| one(&origin, e)));
    // moved by less than a day on the way, to dates which are left out
    let by_hours = origin.fields.get("RRULE").is_some_and(|v| v.iter().any(|x| matches!(&x.0, MVal::Recur(r) if rec::is_subdaily(r))));
    let left_out = origin.fields.contains_key("EXDATE") && (by_hours || matches!(start0, Dt::Utc(..)));
    let want = rest(origin, end);
    let (occ, _) = rec::occurrences(any, 6)?;
    if let Some(d) = before.diff(&any.dump()) {
        return Err(format!("iterating changes the component itself: {d}"));
    }
    for (i, o) in occ.iter().enumerate() {
        let d = o.dump();
        let Some(start) = one(&d, "DTSTART") else { return Err(format!("occurrence {i} has no start")) };
        let moved = rec::secs(&start) - rec::secs(&start0);
        c.count("occurrences compared");
        if let Some(end0) = end0 {
            let Some(got) = one(&d, end.unwrap()) else { return Err(format!("occurrence {i} has no end")) };
            let same_kind = std::mem::discriminant(&got) == std::mem::discriminant(&end0);
            let may_gain_time = matches!(end0, Dt::Date(_)) && std::mem::discriminant(&start) != std::mem::discriminant(&start0)
                || left_out
                || moved % cal::DAY != 0
                || (0..=i).any(|k| rec::start_of(&occ[k]).is_some_and(|s| (rec::secs(&s) - rec::secs(&start0)) % cal::DAY != 0));
            if rec::secs(&got) != rec::secs(&end0) + moved || !(same_kind || (may_gain_time && matches!((end0, got), (Dt::Date(_), Dt::Naive(..))))) {
                return Err(format!(
                    "occurrence {i} starts at {start:?}, {moved} s after {start0:?}, and ends at {got:?}; the original ends at {end0:?}"
                ));
            }
            if moved != 0 {
                c.count(if end == Some("DUE") { "moved due" } else { "moved end" });
                match end0 {
                    Dt::Utc(..) => c.count("moved absolute end"),
                    Dt::Date(_) => c.count("moved date end"),
                    Dt::Naive(..) => {}
                }
                if rec::secs(&end0) > rec::secs(&start0) {
                    c.count("late ends");
                }
            }
        } else if let Some(e) = end
            && let Some(got) = one(&d, e)
        {
            return Err(format!("occurrence {i} has an end {got:?}, the original has none"));
        }
        if let Some(e) = want.diff(&rest(d, end)) {
            return Err(format!("occurrence {i}: {e}"));
        }
    }
    Ok(occ.len())
}

/// Line of a model component, if there.
pub fn has(m: &MComp, name: &str) -> bool {
    m.lines.iter().any(|l| matches!(&l.body, Body::Known(n, _) if *n == name))
}

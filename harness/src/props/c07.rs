//! C07: dates and times keep their exact meaning in every time zone.

use super::c11;
use super::c16::ZONES;
use crate::cal;
use crate::gen_::{self, Opts};
use crate::ik::{self, Any, VIAS};
use crate::model::{Body, Dt, LEAP, MComp, MVal, Ty, field};
use crate::mon::{Ctx, Prop, Step, guard};
use crate::reader;
use crate::rng::Rng;
use crate::zones;
use chrono::TimeZone as _;

pub const PROP: Prop = Prop {
    id: "C07",
    rule: "documents and hand-built components of all kinds with every date-valued property and list (UNTIL, RDATE, EXDATE, FREEBUSY, TRIGGER included), \
           their days, wall-clock times and instants taken from the years 0000 to 9999 and from around the offset changes of 24 system zones (times that \
           do not exist or exist twice included): parsed values, serialised texts and string conversions compared with an integer calendar; plus every \
           day of ten thousand years and every quarter hour around every offset change; distinct = distinct (zone, document or value), non-trivial = \
           at least one date value in it",
    cases: |t| if t { 4_000_000 } else { 500_000 },
    zones: ZONES,
    case,
    once,
    need: &[
        ("distinct", 100_000),
        ("floating near an offset change", 50_000),
        ("UTC near an offset change", 50_000),
        ("wall-clock times that do not exist", 2_000),
        ("days read", 3_000_000),
        ("instants around offset changes", 100_000),
        ("conversions", 100_000),
    ],
    single_threaded_shards: true,
    assumptions: "parsing a string with Z on its own and writing UTC date-times deviate in zones other than UTC in exactly the listed way (known \
                  findings) and must be exact with TZ=UTC; the conversion of a floating time to chrono's local time is not judged in the very second \
                  of an offset change, where chrono's own conversion is off",
};

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C07", idx);
    if r.chance(2, 3) { documents(&mut r, c) } else { values(&mut r, c) }
}

// ---------------------------------------------------------------- aiming

fn clamp(s: i64) -> i64 {
    s.clamp(cal::days(0, 1, 1) * cal::DAY, cal::days(9999, 12, 31) * cal::DAY + cal::DAY - 1)
}

/// Another date of the same kind, near an offset change.
fn aim(r: &mut Rng, d: &Dt, c: &mut Ctx) -> Dt {
    if r.chance(1, 3) {
        return *d;
    }
    let leap = |r: &mut Rng, s: i64| if s.rem_euclid(60) == 59 && r.chance(1, 4) { LEAP } else { 0 };
    match d {
        Dt::Date(_) => Dt::Date(zones::near_wall(r).div_euclid(cal::DAY)),
        Dt::Naive(..) => {
            let s = zones::near_wall(r);
            c.count("floating near an offset change");
            if zones::instants(s).0.is_empty() {
                c.count("wall-clock times that do not exist");
            }
            Dt::Naive(s, leap(r, s))
        }
        Dt::Utc(..) => {
            let s = zones::near_change(r);
            c.count("UTC near an offset change");
            Dt::Utc(s, leap(r, s))
        }
    }
}

/// Applies `f` to every date in the value.
fn each(v: &mut MVal, f: &mut impl FnMut(&Dt) -> Dt) {
    match v {
        MVal::D(d) => *d = f(d),
        MVal::PerEnd(a, b) => {
            *a = f(a);
            *b = f(b);
        }
        MVal::PerDur(a, _) => *a = f(a),
        MVal::Recur(r) => {
            if let Some(u) = &mut r.until {
                *u = f(u);
            }
        }
        MVal::Dates(v) => v.iter_mut().for_each(|d| *d = f(d)),
        MVal::Periods(v) => v.iter_mut().for_each(|p| each(p, f)),
        _ => {}
    }
}

fn each_in(m: &mut MComp, f: &mut impl FnMut(&Dt) -> Dt) {
    for l in &mut m.lines {
        if let Body::Known(_, vals) = &mut l.body {
            for (v, w) in vals {
                let before = v.clone();
                each(v, f);
                if *v != before {
                    *w = v.wire();
                }
            }
        }
    }
    for k in &mut m.kids {
        each_in(k, f);
    }
}

/// Keeps what has dates in it, and what is required.
fn only_dates(m: &mut MComp) {
    let kind = m.kind;
    m.lines.retain(|l| match &l.body {
        Body::Known(n, _) => {
            let f = field(kind, n).unwrap();
            f.card == crate::model::Card::Req || matches!(f.ty, Ty::Date | Ty::DateTime | Ty::Recur | Ty::RDate | Ty::Period | Ty::Trigger)
        }
        Body::Unknown(_) => false,
    });
    m.kids.iter_mut().for_each(only_dates);
}

/// What ikal writes for an instant: the system's wall clock and a Z (known finding utc-serialise).
fn as_wall(d: &Dt) -> Dt {
    match *d {
        Dt::Utc(s, n) => {
            let w = ik::local_wall(s);
            match (n, w.rem_euclid(60)) {
                (LEAP, 59) => Dt::Utc(w, LEAP),
                (LEAP, _) => Dt::Utc(w + 1, 0),
                (n, _) => Dt::Utc(w, n),
            }
        }
        d => d,
    }
}

fn in_years(d: &Dt) -> bool {
    let s = match *d {
        Dt::Date(d) => d * cal::DAY,
        Dt::Naive(s, _) | Dt::Utc(s, _) => s,
    };
    s == clamp(s)
}

// ---------------------------------------------------------------- documents

fn documents(r: &mut Rng, c: &mut Ctx) {
    let kind = gen_::any_kind(r);
    let built = r.chance(1, 3);
    let o = if built { Opts { max_list: 8, ..Opts::built(gen_::Mode::Wire, true) } } else { Opts { max_list: 8, ..Opts::doc(true) } };
    let mut m = gen_::comp(r, &o, kind);
    only_dates(&mut m);
    each_in(&mut m, &mut |d| aim(r, d, c));
    let n = {
        let mut n = 0;
        each_in(&mut m, &mut |d| {
            n += 1;
            *d
        });
        n
    };
    let tz = c.tz.clone();
    let via = *r.pick(&VIAS);
    let valarm = r.chance(1, 2);
    let step = (|| -> Step<String> {
        let (any, text) = if built {
            (Any::build(&m, valarm), String::new())
        } else {
            let text = m.text();
            match ik::parse(kind, valarm, &text, via)? {
                Err(e) => return Err(format!("well-formed {kind:?} rejected: {}\ndocument:\n{text}", super::c05::short(&format!("{e}")))),
                Ok(a) => {
                    if let Some(d) = m.dump().diff(&a.dump()) {
                        return Err(format!("{d}\ndocument:\n{text}"));
                    }
                    c.add("values read", n);
                    (a, text)
                }
            }
        };
        let s = ik::ser(&any)?;
        let node = reader::tree(&s).map_err(|e| format!("{e}\nserialised:\n{s}"))?;
        let Err(e) = c11::compare(&m, &node, c) else {
            c.add("values written", n);
            return Ok(text + &s);
        };
        let mut wrong = m.clone();
        let mut fits = true;
        each_in(&mut wrong, &mut |d| {
            let w = as_wall(d);
            fits &= in_years(&w);
            w
        });
        if !fits {
            // the listed deviation leaves the years which can be read back
            c.count("wall clock outside the years 0000 to 9999");
            return Ok(text + &s);
        }
        if c11::compare(&wrong, &node, c).is_ok() {
            c.add("values written", n);
            c.known("utc-serialise", format!("{e} (TZ={tz})"));
            return Ok(text + &s);
        }
        Err(format!("{e}\nserialised:\n{s}"))
    })();
    match step {
        Err(e) => c.fail(format!("TZ={tz}: {e}")),
        Ok(t) => {
            if n > 0 {
                c.distinct(&format!("{tz}{t}"));
            }
            c.sample(|| format!("TZ={tz}\n{t}"));
        }
    }
}

// ---------------------------------------------------------------- single values

/// Judges what a string with Z is read as on its own.
fn read_utc(c: &mut Ctx, what: &str, text: &str, right: Dt, got: &ikal::Result<Dt>) -> Step {
    let (Dt::Utc(s, n), utc) = (right, c.tz == "UTC") else { unreachable!() };
    if got.as_ref().is_ok_and(|d| *d == right) {
        return Ok(());
    }
    if utc {
        return Err(format!("{what} of {text:?} gives {got:?}"));
    }
    let (at, edge) = zones::instants(s);
    let listed = match got {
        // one of two, none in a gap; chrono is off by one in the second of the change
        Ok(Dt::Utc(u, k)) => *k == n && (at.contains(u) || edge),
        Ok(_) => false,
        Err(_) => at.is_empty() || edge,
    };
    let msg = format!("{what} of {text:?} gives {got:?} with TZ={}", c.tz);
    if listed {
        c.known("utc-parse", msg);
        Ok(())
    } else {
        Err(msg)
    }
}

fn wrote(c: &mut Ctx, what: &str, d: Dt, right: &str, got: &str) -> Step {
    if right == got {
        return Ok(());
    }
    let w = as_wall(&d);
    if d.is_utc() && c.tz != "UTC" && (!in_years(&w) || got == right.replace(&d.wire(), &w.wire())) {
        c.known("utc-serialise", format!("{what} of {d:?} is {got:?} with TZ={}", c.tz));
        return Ok(());
    }
    Err(format!("{what} of {d:?} is {got:?}, not {right:?}"))
}

fn one(r: &mut Rng, c: &mut Ctx, d: Dt) -> Step<String> {
    let text = d.wire();
    c.count("conversions");
    let short = |e: ikal::Error| ikal::Error::Parser(super::c05::short(&format!("{e}")));
    // strings to dates
    let date = guard("parsing a date", || text.parse::<ikal::Date>())?.map(|d| ik::rd_any(&d)).map_err(short);
    let dt = guard("parsing a date-time", || text.parse::<ikal::DateTime>())?.map(|d| ik::rd_datetime(&d)).map_err(short);
    let trigger = guard("parsing a trigger", || text.parse::<ikal::Trigger>())?.map_err(short).map(|t| match t {
        ikal::Trigger::DateTime(d) => ik::rd_datetime(&d),
        ikal::Trigger::Duration(_) => Dt::Date(i64::MIN),
    });
    match d {
        Dt::Date(_) => {
            if date.as_ref().ok() != Some(&d) {
                return Err(format!("Date from {text:?} is {date:?}"));
            }
            if dt.is_ok() || trigger.is_ok() {
                return Err(format!("a day read as a date-time: {text:?} gives {dt:?} and {trigger:?}"));
            }
        }
        Dt::Naive(..) => {
            for (what, got) in [("Date", &date), ("DateTime", &dt), ("Trigger", &trigger)] {
                if got.as_ref().ok() != Some(&d) {
                    return Err(format!("{what} from {text:?} is {got:?}"));
                }
            }
        }
        Dt::Utc(..) => {
            for (what, got) in [("Date", &date), ("DateTime", &dt), ("Trigger", &trigger)] {
                read_utc(c, what, &text, d, got)?;
            }
        }
    }
    // periods and rules on their own
    if !matches!(d, Dt::Date(_)) {
        let end = match d {
            Dt::Naive(s, _) => Dt::Naive(clamp(s + r.range(0, 3 * cal::DAY)), 0),
            Dt::Utc(s, _) => Dt::Utc(clamp(s + r.range(0, 3 * cal::DAY)), 0),
            Dt::Date(_) => unreachable!(),
        };
        let t = format!("{text}/{}", end.wire());
        let p = if r.chance(1, 2) { guard("parsing a period", || t.parse::<ikal::Period>())? } else { guard("parsing a period", || ikal::Period::try_from(t.as_str()))? };
        let got = p.map_err(short).map(|p| ik::IkVal::rd(&p).0);
        if got.as_ref().ok() != Some(&MVal::PerEnd(d, end)) {
            return Err(format!("Period from {t:?} is {got:?}"));
        }
        let t = format!("{text}/PT1H");
        let got = guard("parsing a period", || t.parse::<ikal::Period>())?.map_err(short).map(|p| ik::IkVal::rd(&p).0);
        if got.as_ref().ok() != Some(&MVal::PerDur(d, 3600)) {
            return Err(format!("Period from {t:?} is {got:?}"));
        }
    }
    let t = format!("FREQ=DAILY;UNTIL={text}");
    let got = guard("parsing a rule", || t.parse::<ikal::Recur>())?.map_err(short);
    if !got.as_ref().is_ok_and(|x| x.until.as_ref().map(ik::rd_any) == Some(d)) {
        return Err(format!("Recur from {t:?} is {got:?}"));
    }
    // dates to strings
    let v = ik::mk_date(&d);
    let s = guard("printing a date", || v.to_string())?;
    wrote(c, "Date::to_string", d, &text, &s)?;
    let s = guard("serialising a date", || ikal::ser::ical(&v))?.map_err(|e| format!("serialising {v:?}: {e}"))?;
    let tagged = if matches!(d, Dt::Date(_)) { format!("VALUE=DATE:{text}") } else { text.clone() };
    wrote(c, "ser::ical(Date)", d, &tagged, &s)?;
    let day = match d {
        Dt::Date(x) => x,
        Dt::Naive(x, _) => x.div_euclid(cal::DAY),
        Dt::Utc(x, _) => ik::local_wall(x).div_euclid(cal::DAY),
    };
    let (has_time, date_naive, into) = guard("reading a date", || (v.has_time(), v.date_naive(), chrono::NaiveDate::from(v)))?;
    if has_time == matches!(d, Dt::Date(_)) || ik::rd_date(date_naive) != day || ik::rd_date(into) != day {
        return Err(format!("{v:?}: has_time {has_time}, date_naive {date_naive}, into NaiveDate {into}"));
    }
    let back = guard("parsing what was printed", || v.to_string().parse::<ikal::Date>())?.map_err(short);
    match d {
        Dt::Utc(..) => {
            if c.tz == "UTC" && !back.as_ref().is_ok_and(|b| *b == v) {
                return Err(format!("{v:?} printed and parsed is {back:?}"));
            }
        }
        _ => {
            if !back.as_ref().is_ok_and(|b| *b == v) {
                return Err(format!("{v:?} printed and parsed is {back:?}"));
            }
        }
    }
    // one type of date to another
    let dt = guard("converting a date to a date-time", || ikal::DateTime::from(v))?;
    let want = match d {
        Dt::Date(x) => Dt::Naive(x * cal::DAY, 0),
        d => d,
    };
    if ik::rd_datetime(&dt) != want {
        return Err(format!("{v:?} as a date-time is {dt:?}"));
    }
    let wall = match want {
        Dt::Utc(s, n) => ik::rd_naive(ik::local_dt(s, n).naive_local()),
        w => w,
    };
    let (n, into, dn) = guard("reading a date-time", || (dt.naive(), chrono::NaiveDateTime::from(dt), dt.date_naive()))?;
    if ik::rd_naive(n) != wall || ik::rd_naive(into) != wall || ik::rd_date(dn) != day {
        return Err(format!("{dt:?}: naive {n}, into NaiveDateTime {into}, date_naive {dn}"));
    }
    let s = guard("printing a date-time", || dt.to_string())?;
    wrote(c, "DateTime::to_string", want, &want.wire(), &s)?;
    let s = guard("serialising a date-time", || ikal::ser::ical(&dt))?.map_err(|e| format!("serialising {dt:?}: {e}"))?;
    wrote(c, "ser::ical(DateTime)", want, &want.wire(), &s)?;
    let s = guard("formatting", || (dt.format("%Y-%m-%d %H:%M").to_string(), ikal::Date::DateTime(dt).format("%Y-%m-%d %H:%M").to_string()))?;
    let f = ik::naive_dt(ik_secs(&wall), 0).format("%Y-%m-%d %H:%M").to_string();
    // a leap second can belong to another minute in zones with odd offsets
    if (s.0 != f || s.1 != f) && !matches!(want, Dt::Utc(_, LEAP)) {
        return Err(format!("{dt:?} formatted is {s:?}"));
    }
    let local = guard("converting to local time", || chrono::DateTime::<chrono::Local>::try_from(dt))?.map_err(short);
    match want {
        Dt::Utc(s, n) => {
            if !local.as_ref().is_ok_and(|l| (l.timestamp(), l.timestamp_subsec_nanos()) == (s, n)) {
                return Err(format!("{dt:?} as local time is {local:?}"));
            }
        }
        Dt::Naive(w, n) => {
            let (at, edge) = zones::instants(w);
            let right = match &local {
                Ok(l) => at.contains(&l.timestamp()) && l.timestamp_subsec_nanos() == n,
                Err(_) => at.is_empty(),
            };
            if !right && !edge {
                return Err(format!("{dt:?} as local time is {local:?}, the wall clock shows it at {at:?}"));
            }
        }
        Dt::Date(_) => unreachable!(),
    }
    let made = guard("making dates", || match d {
        Dt::Date(x) => vec![ikal::Date::from(ik::naive_date(x))],
        Dt::Naive(s, n) => vec![
            ikal::Date::from(ik::naive_dt(s, n)),
            ikal::Date::from(ikal::DateTime::from(ik::naive_dt(s, n))),
        ],
        Dt::Utc(s, n) => {
            let l = chrono::Local.from_utc_datetime(&ik::naive_dt(s, n));
            vec![ikal::Date::from(l), ikal::Date::from(ikal::DateTime::from(l))]
        }
    })?;
    if made.iter().any(|x| ik::rd_any(x) != d) {
        return Err(format!("{made:?} made from {d:?}"));
    }
    Ok(text)
}

fn ik_secs(d: &Dt) -> i64 {
    match *d {
        Dt::Date(d) => d * cal::DAY,
        Dt::Naive(s, _) | Dt::Utc(s, _) => s,
    }
}

fn values(r: &mut Rng, c: &mut Ctx) {
    let d = gen_::date(r, &Opts::doc(true));
    let d = aim(r, &d, c);
    let tz = c.tz.clone();
    match one(r, c, d) {
        Err(e) => c.fail(format!("TZ={tz}: {e}")),
        Ok(t) => {
            c.distinct(&format!("{tz}{t}"));
            c.sample(|| format!("TZ={tz} {t}"));
        }
    }
}

// ---------------------------------------------------------------- exhaustive

fn exdates(c: &mut Ctx, ds: &[Dt]) -> Step {
    let list: Vec<String> = ds.iter().map(Dt::wire).collect();
    let doc = format!("BEGIN:VEVENT\r\nDTSTAMP:20240101T000000Z\r\nUID:u\r\nDTSTART:20240101\r\nEXDATE:{}\r\nEND:VEVENT\r\n", list.join(","));
    let e = guard("parsing", || doc.parse::<ikal::VEvent>())?.map_err(|e| format!("EXDATE:{}… rejected: {}", list[0], super::c05::short(&format!("{e}"))))?;
    if e.exdate.len() != ds.len() {
        return Err(format!("{} dates in the list, {} read", ds.len(), e.exdate.len()));
    }
    for (d, g) in ds.iter().zip(&e.exdate) {
        if ik::rd_any(g) != *d {
            return Err(format!("EXDATE {} is read as {:?}, not {d:?}", d.wire(), ik::rd_any(g)));
        }
    }
    c.add("list elements read", ds.len() as u64);
    // and written
    let s = guard("serialising", || ikal::ser::ical(&e))?.map_err(|e| format!("serialising: {e}"))?;
    let node = reader::tree(&s)?;
    let got: Vec<&str> = node.lines.iter().filter(|l| l.name == "EXDATE").flat_map(|l| l.value.split(',')).collect();
    if got.len() != ds.len() {
        return Err(format!("{} dates in the list, {} written", ds.len(), got.len()));
    }
    for (d, g) in ds.iter().zip(&got) {
        wrote(c, "EXDATE", *d, &d.wire(), g)?;
    }
    Ok(())
}

fn once(c: &mut Ctx) {
    let tz = c.tz.clone();
    let step = (|| -> Step {
        // around every offset change, as floating times and as instants
        let mut all = Vec::new();
        for x in zones::changes() {
            for k in -12..=12 {
                for j in [-1, 0, 1] {
                    let u = x.at + k * 900 + j;
                    all.push(Dt::Utc(u, 0));
                    all.push(Dt::Naive(u + x.before, 0));
                    all.push(Dt::Naive(u + x.after, 0));
                }
            }
        }
        for ds in all.chunks(3000) {
            exdates(c, ds)?;
            c.add("instants around offset changes", ds.len() as u64);
        }
        if tz == "UTC" {
            // every day there is
            for y in 0..10_000 {
                let ds: Vec<Dt> = (cal::days(y, 1, 1)..=cal::days(y, 12, 31)).map(Dt::Date).collect();
                exdates(c, &ds)?;
                for d in &ds {
                    let v = guard("parsing a date", || d.wire().parse::<ikal::Date>())?;
                    if !v.as_ref().is_ok_and(|v| ik::rd_any(v) == *d) {
                        return Err(format!("Date from {:?} is {v:?}", d.wire()));
                    }
                }
                c.add("days read", ds.len() as u64);
            }
        }
        // every second of a day
        let day = cal::days(2024, 2, 29) * cal::DAY;
        let secs: Vec<Dt> = (0..cal::DAY).flat_map(|s| [Dt::Naive(day + s, 0), Dt::Utc(day + s, 0)]).collect();
        for ds in secs.chunks(5000) {
            exdates(c, ds)?;
        }
        Ok(())
    })();
    if let Err(e) = step {
        c.fail(format!("TZ={tz}: {e}"));
    }
}

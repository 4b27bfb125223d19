//! C08: durations and periods denote exactly the length written.

use crate::cal;
use crate::gen_::{self, MAX_DUR, Mode, Opts};
use crate::ik::{self, Any, IkVal as _, VIAS};
use crate::model::{Body, Dt, Kind, MComp, MLine, MVal, Params, dur_wire};
use crate::mon::{Ctx, Prop, Step, guard};
use crate::reader;
use crate::rng::Rng;
use crate::wire;

pub const PROP: Prop = Prop {
    id: "C08",
    rule: "durations of the RFC 5545 grammar (all combinations of units and signs, leading zeros, values up to and beyond what fits), with a known total, \
           through every place that takes one (DURATION, TRIGGER, FREEBUSY and RDATE lists, Period, Trigger, parse_duration), and periods of both forms, \
           floating and UTC, across offset changes; the parsed length, list order, reported length, the order of periods and the length after serialising must be the known \
           one; distinct = distinct texts, non-trivial = judged by at least one entry point",
    cases: |t| if t { 8_000_000 } else { 2_000_000 },
    zones: &["UTC", "America/New_York", "Europe/Paris", "Australia/Lord_Howe", "Pacific/Apia"],
    case,
    once,
    need: &[
        ("distinct", 300_000),
        ("read in DURATION", 20_000),
        ("read in TRIGGER", 20_000),
        ("read in a period", 20_000),
        ("read by parse_duration", 20_000),
        ("too large", 20_000),
        ("weeks with days or gaps in the time", 5_000),
        ("periods across an offset change", 1_000),
        ("unit tables", 100_000),
        ("round trips", 50_000),
        ("periods compared", 20_000),
    ],
    single_threaded_shards: true,
    assumptions: "whole seconds within chrono's range (i64::MAX milliseconds); combinations outside the RFC grammar (weeks with days, hours with seconds \
                  only) and negative lengths in periods may be rejected, but not read as another length; both ends of a period of the same kind; UTC \
                  periods go through serialisation only with TZ=UTC (known finding of C07)",
};

/// A duration as written.
#[derive(Clone, Debug)]
pub struct Text {
    pub text: String,
    pub total: i128,
    /// Within the grammar of RFC 5545.
    pub strict: bool,
}

impl Text {
    fn fits(&self) -> bool {
        self.total.unsigned_abs() <= MAX_DUR as u128
    }
}

const UNITS: [(char, i128); 5] = [('W', 604_800), ('D', 86_400), ('H', 3600), ('M', 60), ('S', 1)];

/// Writes these amounts (weeks, days, hours, minutes, seconds).
fn write(sign: &str, parts: &[Option<String>; 5]) -> Option<Text> {
    let has = |i: usize| parts[i].is_some();
    if !(0..5).any(has) {
        return None;
    }
    let mut text = format!("{sign}P");
    let mut total = 0_i128;
    for i in 0..5 {
        if i == 2 && (has(2) || has(3) || has(4)) {
            text.push('T');
        }
        if let Some(n) = &parts[i] {
            text.push_str(n);
            text.push(UNITS[i].0);
            // beyond i128 it does not matter by how much
            let n: i128 = n.parse().unwrap_or(i128::MAX / 1_000_000);
            total += n.min(i128::MAX / 10_000_000) * UNITS[i].1;
        }
    }
    if sign == "-" {
        total = -total;
    }
    let week = has(0) && (1..5).any(has);
    let gap = has(2) && has(4) && !has(3);
    Some(Text { text, total, strict: !week && !gap })
}

fn amount(r: &mut Rng, unit: i128) -> String {
    let max = MAX_DUR as i128 / unit;
    let n: i128 = match r.below(14) {
        0 => 0,
        1 => max,
        2 => max + 1,
        3 => max - i128::from(r.below(3)),
        4 => i128::from(i64::MAX) - i128::from(r.below(2)),
        5 => i128::from(i64::MAX) + i128::from(r.below(3)),
        6 => (i128::from(u64::MAX) + i128::from(r.below(5))) / unit + i128::from(r.below(3)),
        7 => i128::from(r.u64()),
        8 => *r.pick(&[127_i128, 128, 255, 256, 32_767, 32_768, 65_535, 65_536, 2_147_483_647, 2_147_483_648, 4_294_967_295, 4_294_967_296]),
        9 => i128::from(r.below(1 << 40)),
        _ => i128::from(r.below(100)),
    };
    let mut s = n.to_string();
    match r.below(12) {
        0 => s = format!("{n:02}"),
        1 => s = format!("{n:0>30}"),
        2 if r.chance(1, 4) => s = format!("{n}{n}{n}"),
        _ => {}
    }
    s
}

pub fn any(r: &mut Rng) -> Text {
    loop {
        let sign = *r.pick(&["", "", "+", "-"]);
        let mut parts: [Option<String>; 5] = Default::default();
        let mut mask = r.below(32);
        if r.chance(1, 3) {
            // the grammar's own combinations
            mask = *r.pick(&[1, 2, 4, 8, 16, 6, 10, 18, 12, 14, 24, 26, 28, 30]);
        }
        let small = r.chance(1, 2);
        for (i, p) in parts.iter_mut().enumerate() {
            if mask >> i & 1 == 1 {
                *p = Some(if small { r.below(1000).to_string() } else { amount(r, UNITS[i].1) });
            }
        }
        if let Some(t) = write(sign, &parts) {
            return t;
        }
    }
}

// ---------------------------------------------------------------- judging

fn secs(d: chrono::Duration) -> Result<i128, String> {
    if d.subsec_nanos() == 0 { Ok(i128::from(d.num_seconds())) } else { Err(format!("{d:?} has a fraction")) }
}

/// `got`: the length read, if it was accepted.
fn judge(c: &mut Ctx, t: &Text, place: &str, may_reject: bool, got: Result<chrono::Duration, String>) -> Step {
    match got {
        Ok(d) => {
            let n = secs(d)?;
            if n != t.total {
                return Err(format!("{place}: {:?} is read as {n} s, not {} s", t.text, t.total));
            }
        }
        Err(e) => {
            if t.fits() && t.strict && !may_reject {
                return Err(format!("{place}: {:?} ({} s) is rejected: {}", t.text, t.total, super::c05::short(&e)));
            }
        }
    }
    if !t.fits() {
        c.count("too large");
    } else {
        c.count(&format!("read in {place}").replace("in parse_duration", "by parse_duration"));
    }
    Ok(())
}

fn s<T>(r: ikal::Result<T>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}

fn doc(kind: Kind, line: &str) -> String {
    let req = match kind {
        Kind::VEvent | Kind::VJournal => "DTSTAMP:20240101T000000Z\r\nUID:u\r\nDTSTART:20240101\r\n",
        Kind::VTodo | Kind::VFreebusy => "DTSTAMP:20240101T000000Z\r\nUID:u\r\n",
        Kind::Standard | Kind::Daylight => "DTSTART:20240101T000000\r\nTZOFFSETTO:+0100\r\nTZOFFSETFROM:+0000\r\n",
        Kind::Audio => "ACTION:AUDIO\r\n",
        Kind::Display => "ACTION:DISPLAY\r\nDESCRIPTION:d\r\n",
        Kind::Email => "ACTION:EMAIL\r\nDESCRIPTION:d\r\nSUMMARY:s\r\n",
        _ => unreachable!(),
    };
    format!("BEGIN:{0}\r\n{req}{line}\r\nEND:{0}\r\n", kind.tag())
}

/// Values of the property `name` of what was parsed.
fn field_of(a: &Any, name: &str) -> Vec<MVal> {
    a.dump().fields.get(name).map(|v| v.iter().map(|x| x.0.clone()).collect()).unwrap_or_default()
}

fn through_document(r: &mut Rng, c: &mut Ctx, t: &Text) -> Step {
    let (kind, line, name) = match r.below(2) {
        0 => {
            let kind = *r.pick(&[Kind::VEvent, Kind::VTodo, Kind::Audio, Kind::Display, Kind::Email]);
            let extra = if kind.is_alarm() { "TRIGGER:-PT5M\r\nREPEAT:2\r\n" } else { "" };
            (kind, format!("{extra}DURATION:{}", t.text), "DURATION")
        }
        _ => {
            let kind = *r.pick(&[Kind::Audio, Kind::Display, Kind::Email]);
            let p = *r.pick(&["", ";VALUE=DURATION", ";RELATED=END", ";RELATED=START"]);
            (kind, format!("TRIGGER{p}:{}", t.text), "TRIGGER")
        }
    };
    let doc = doc(kind, &line);
    let got = ik::parse(kind, r.chance(1, 2), &doc, *r.pick(&VIAS))?;
    let got = match s(got) {
        Ok(a) => match field_of(&a, name).as_slice() {
            [MVal::Dur(n, 0)] => Ok(chrono::Duration::seconds(*n)),
            v => return Err(format!("{name} of\n{doc}\nis {v:?}")),
        },
        Err(e) => Err(e),
    };
    judge(c, t, name, false, got)
}

fn through_period(r: &mut Rng, c: &mut Ctx, t: &Text) -> Step {
    let o = Opts { leap: false, ..Opts::doc(true) };
    let start = gen_::datetime(r, &o);
    let text = format!("{}/{}", start.wire(), t.text);
    let negative = t.text.starts_with('-');
    match r.below(3) {
        0 => {
            let p = match r.below(3) {
                0 => guard("parsing a period", || text.parse::<ikal::Period>())?,
                1 => guard("parsing a period", || ikal::Period::try_from(text.as_str()))?,
                _ => guard("parsing a period", || ikal::Period::try_from(text.clone()))?,
            };
            let d = s(p).map(|p| (p.rd().0, p.duration()));
            if let Ok((v, d)) = &d {
                let MVal::PerDur(at, n) = v else { return Err(format!("{text:?} is read as {v:?}")) };
                if *at != start || i128::from(*n) != secs(*d)? {
                    return Err(format!("{text:?} is read as {v:?} with a length of {d}"));
                }
            }
            judge(c, t, "a period", negative, d.map(|x| x.1))
        }
        k => {
            // in the middle of a list
            let before: Vec<(MVal, String)> = (0..r.us(3)).map(|_| gen_::period(r, &o)).collect();
            let after: Vec<(MVal, String)> = (0..r.us(3)).map(|_| gen_::period(r, &o)).collect();
            let list: Vec<&str> = before.iter().map(|x| x.1.as_str()).chain([text.as_str()]).chain(after.iter().map(|x| x.1.as_str())).collect();
            let (kind, line, name) = if k == 1 {
                (Kind::VFreebusy, format!("FREEBUSY;FBTYPE=BUSY:{}", list.join(",")), "FREEBUSY")
            } else {
                let kind = *r.pick(&[Kind::VEvent, Kind::VTodo, Kind::VJournal, Kind::Standard]);
                let extra = if kind == Kind::VJournal { "SUMMARY:x\r\n" } else { "" };
                (kind, format!("{extra}RDATE;VALUE=PERIOD:{}", list.join(",")), "RDATE")
            };
            let doc = doc(kind, &line);
            let got = match s(ik::parse(kind, false, &doc, *r.pick(&VIAS))?) {
                Err(e) => Err(e),
                Ok(a) => {
                    let mut v = field_of(&a, name);
                    if let [MVal::Periods(p)] = v.as_slice() {
                        v = p.clone();
                    }
                    if v.len() != list.len() {
                        return Err(format!("{} periods written, {} read:\n{doc}", list.len(), v.len()));
                    }
                    let want = before.iter().map(|x| Some(&x.0)).chain([None]).chain(after.iter().map(|x| Some(&x.0)));
                    let mut found = None;
                    for (got, want) in v.iter().zip(want) {
                        match (got, want) {
                            (got, Some(want)) if got == want => {}
                            (MVal::PerDur(at, n), None) if *at == start => found = Some(*n),
                            _ => return Err(format!("{got:?} read in place of {want:?}:\n{doc}")),
                        }
                    }
                    Ok(chrono::Duration::seconds(found.unwrap()))
                }
            };
            judge(c, t, "a period", negative, got)
        }
    }
}

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C08", idx);
    let (what, step) = match r.below(5) {
        0 => {
            let p = whole_period(&mut r);
            (format!("{p:?}"), period(&mut r, c, &p))
        }
        1 => {
            let n = match r.below(4) {
                0 => *r.pick(&[0, 1, -1, MAX_DUR, -MAX_DUR, MAX_DUR - 1, 1 - MAX_DUR, 86_400, 604_800, i64::from(i32::MAX), i64::from(u32::MAX) + 1]),
                1 => r.range(-MAX_DUR, MAX_DUR),
                _ => r.range(-10_000_000, 10_000_000),
            };
            (format!("length {n}"), round_trip(&mut r, c, n))
        }
        k => {
            let t = any(&mut r);
            if !t.strict {
                c.count("weeks with days or gaps in the time");
            }
            let step = match k {
                2 => {
                    if r.chance(1, 2) {
                        guard("parse_duration", || ikal::parse_duration(&t.text)).and_then(|d| judge(c, &t, "parse_duration", false, s(d)))
                    } else {
                        guard("parsing a trigger", || t.text.parse::<ikal::Trigger>()).and_then(|d| match s(d) {
                            Ok(ikal::Trigger::DateTime(d)) => Err(format!("{:?} is read as the date {d}", t.text)),
                            Ok(ikal::Trigger::Duration(d)) => judge(c, &t, "TRIGGER", false, Ok(d)),
                            Err(e) => judge(c, &t, "TRIGGER", false, Err(e)),
                        })
                    }
                }
                3 => through_document(&mut r, c, &t),
                _ => through_period(&mut r, c, &t),
            };
            (t.text.clone(), step)
        }
    };
    match step {
        Err(e) => c.fail(format!("TZ={}: {e}", c.tz)),
        Ok(()) => {
            c.distinct(&what);
            c.sample(|| what);
        }
    }
}

// ---------------------------------------------------------------- periods and round trips

fn whole_period(r: &mut Rng) -> MVal {
    let o = Opts { leap: false, ..Opts::doc(true) };
    let utc = r.chance(1, 2);
    let (lo, hi) = (cal::days(0, 1, 1) * cal::DAY, cal::days(9999, 12, 31) * cal::DAY + cal::DAY - 1);
    let a = match r.below(3) {
        0 if utc => crate::zones::near_change(r),
        0 => crate::zones::near_wall(r),
        _ => gen_::day(r, &o) * cal::DAY + gen_::time(r),
    };
    let b = match r.below(6) {
        0 => a,
        1 => gen_::day(r, &o) * cal::DAY + gen_::time(r),
        2 => a + r.range(0, 400) * cal::DAY,
        3 => a - r.range(0, 100_000),
        _ => a + r.range(0, 100_000),
    };
    let (a, b) = (a.clamp(lo, hi), b.clamp(lo, hi));
    let mk = |s| if utc { Dt::Utc(s, 0) } else { Dt::Naive(s, 0) };
    if r.chance(1, 2) { MVal::PerEnd(mk(a), mk(b)) } else { MVal::PerDur(mk(a), if r.chance(1, 8) { r.range(0, MAX_DUR) } else { (b - a).abs() }) }
}

fn length(p: &MVal) -> i64 {
    match p {
        MVal::PerEnd(Dt::Utc(a, _), Dt::Utc(b, _)) | MVal::PerEnd(Dt::Naive(a, _), Dt::Naive(b, _)) => b - a,
        MVal::PerDur(_, n) => *n,
        p => panic!("{p:?}"),
    }
}

fn period(r: &mut Rng, c: &mut Ctx, p: &MVal) -> Step {
    let text = p.wire();
    let want = length(p);
    let parsed = guard("parsing a period", || text.parse::<ikal::Period>())?.map_err(|e| format!("{text:?} is rejected: {e}"))?;
    let built = ikal::Period::mk(p, &Params::new());
    for (how, x) in [("parsed", &parsed), ("built", &built)] {
        if x.rd().0 != *p {
            return Err(format!("{text:?} {how} is {x:?}"));
        }
        let d = guard("measuring a period", || x.duration())?;
        if secs(d)? != i128::from(want) {
            return Err(format!("{text:?} {how} reports a length of {} s, not {want} s", d.num_seconds()));
        }
    }
    if let MVal::PerEnd(Dt::Utc(a, _), Dt::Utc(b, _)) = p
        && (b - a).abs() < 100 * cal::DAY
        && crate::zones::offset(*a) != crate::zones::offset(*b)
    {
        c.count("periods across an offset change");
    }
    c.count("periods");
    // the order of periods is that of their lengths
    let q = whole_period(r);
    let other = ikal::Period::mk(&q, &Params::new());
    let order = want.cmp(&length(&q));
    let got = guard("comparing periods", || (built.cmp(&other), built.partial_cmp(&other)))?;
    if got != (order, Some(order)) {
        return Err(format!("{built:?} and {other:?} compare as {got:?}, not as their lengths ({order:?})"));
    }
    let same = match (&built, &other) {
        (ikal::Period::StartEnd(a), ikal::Period::StartEnd(b)) => Some(guard("comparing periods", || (a.cmp(b), a.partial_cmp(b)))?),
        (ikal::Period::StartDur(a), ikal::Period::StartDur(b)) => Some(guard("comparing periods", || (a.cmp(b), a.partial_cmp(b)))?),
        _ => None,
    };
    if let Some(got) = same {
        c.count("periods compared");
        if got != (order, Some(order)) {
            return Err(format!("{built:?} and {other:?} compare as {got:?} as what they hold, not as their lengths ({order:?})"));
        }
    }
    let utc = p.has_utc();
    if utc && c.tz != "UTC" {
        return Ok(());
    }
    let shown = guard("printing a period", || built.to_string())?;
    let ser = guard("serialising a period", || ikal::ser::ical(&built))?.map_err(|e| format!("serialising {built:?}: {e}"))?;
    for s in [shown, ser] {
        let l = crate::reader::RLine { name: "FREEBUSY".into(), params: vec![], value: s.clone() };
        let v = wire::read(crate::model::Ty::Period, false, &l)?;
        if v.len() != 1 || length(&v[0]) != want {
            return Err(format!("{built:?} is written as {s:?}, which is {v:?}"));
        }
        let back = guard("parsing a period", || s.parse::<ikal::Period>())?.map_err(|e| format!("{built:?} is written as {s:?}, which is rejected: {e}"))?;
        if back != built {
            return Err(format!("{built:?} is written as {s:?} and read back as {back:?}"));
        }
    }
    c.count("round trips");
    Ok(())
}

/// A length put into every place that takes one, written and read back.
fn round_trip(r: &mut Rng, c: &mut Ctx, n: i64) -> Step {
    let kind = *r.pick(&[Kind::VEvent, Kind::VTodo, Kind::Audio, Kind::Display, Kind::Email, Kind::VFreebusy, Kind::Standard]);
    let mut m: MComp = gen_::comp(r, &Opts { depth: false, leap: false, ..Opts::built(Mode::Wire, false) }, kind);
    let known = |name: &'static str, v: MVal| {
        let w = v.wire();
        MLine { name: name.into(), body: Body::Known(name, vec![(v, w)]), params: vec![] }
    };
    let start = gen_::datetime(r, &Opts { leap: false, ..Opts::doc(false) });
    let per = MVal::PerDur(start, n.saturating_abs());
    m.lines.retain(|l| !["DURATION", "TRIGGER", "FREEBUSY", "RDATE"].contains(&l.name.as_str()));
    match kind {
        Kind::VFreebusy => m.lines.push(known("FREEBUSY", per)),
        Kind::Standard => m.lines.push(known("RDATE", MVal::Periods(vec![per]))),
        k => {
            m.lines.push(known("DURATION", MVal::Dur(n, 0)));
            if k.is_alarm() {
                m.lines.push(known("TRIGGER", MVal::Dur(-n, 0)));
            }
        }
    }
    let a = Any::build(&m, r.chance(1, 2));
    let text = ik::ser(&a)?;
    let node = reader::tree(&text).map_err(|e| format!("{e}\nserialised:\n{text}"))?;
    for l in &node.lines {
        let want = match l.name.as_str() {
            "DURATION" => n,
            "TRIGGER" => -n,
            "FREEBUSY" | "RDATE" => {
                let d = l.value.split_once('/').map(|x| x.1).unwrap_or_default();
                if wire::read_dur(d)? != i128::from(n.saturating_abs()) {
                    return Err(format!("{n} s is written as {l:?}"));
                }
                continue;
            }
            _ => continue,
        };
        if wire::read_dur(&l.value)? != i128::from(want) {
            return Err(format!("{want} s is written as {l:?}"));
        }
    }
    let back = ik::parse(kind, matches!(a, Any::VAlarm(_)), &text, *r.pick(&VIAS))?.map_err(|e| format!("rejected after serialising: {}\n{text}", super::c05::short(&e.to_string())))?;
    for name in ["DURATION", "TRIGGER", "FREEBUSY", "RDATE"] {
        let (x, y) = (field_of(&a, name), field_of(&back, name));
        if x != y {
            return Err(format!("{name} {x:?} is read back as {y:?}\n{text}"));
        }
    }
    // and through the types themselves
    let t = ikal::Trigger::Duration(ik::dur(n));
    let s1 = guard("serialising a trigger", || ikal::ser::ical(&t))?.map_err(|e| format!("serialising {t:?}: {e}"))?;
    let v = s1.strip_prefix("VALUE=DURATION:").unwrap_or(&s1);
    if wire::read_dur(v)? != i128::from(n) || !guard("parsing", || v.parse::<ikal::Trigger>())?.is_ok_and(|x| x == t) {
        return Err(format!("{t:?} is written as {s1:?}"));
    }
    if !guard("parse_duration", || ikal::parse_duration(&dur_wire(n)))?.is_ok_and(|d| d == ik::dur(n)) {
        return Err(format!("parse_duration does not read {}", dur_wire(n)));
    }
    c.count("round trips");
    Ok(())
}

// ---------------------------------------------------------------- tables

fn once(c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C08 once", 0);
    let values = |unit: i128| -> Vec<String> {
        let max = MAX_DUR as i128 / unit;
        [0, 1, 2, 7, 23, 24, 25, 59, 60, 61, 99, 127, 128, 255, 256, 999, 1000, max - 1, max, max + 1, i128::from(i64::MAX), i128::from(i64::MAX) + 1].iter().map(i128::to_string).collect()
    };
    // every combination of units, every sign, every boundary of one unit with all others small
    for mask in 1..32_u32 {
        for sign in ["", "+", "-"] {
            for pos in 0..5 {
                if mask >> pos & 1 == 0 {
                    continue;
                }
                for n in values(UNITS[pos].1) {
                    let mut parts: [Option<String>; 5] = Default::default();
                    for (i, p) in parts.iter_mut().enumerate() {
                        if mask >> i & 1 == 1 {
                            *p = Some(if i == pos { n.clone() } else { r.below(3).to_string() });
                        }
                    }
                    let t = write(sign, &parts).unwrap();
                    let step = (|| -> Step {
                        judge(c, &t, "parse_duration", false, s(guard("parse_duration", || ikal::parse_duration(&t.text))?))?;
                        through_document(&mut r, c, &t)?;
                        through_document(&mut r, c, &t)?;
                        through_period(&mut r, c, &t)
                    })();
                    c.add("unit tables", 4);
                    if let Err(e) = step {
                        return c.fail(format!("TZ={}: {e}", c.tz));
                    }
                }
            }
        }
    }
}

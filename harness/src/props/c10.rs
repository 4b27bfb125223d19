//! C10: numbers, enumerations, offsets and coordinates are exact both ways.

use super::c05::short;
use crate::gen_::{self, Mode, Opts};
use crate::ik::{self, Any, IkVal, VIAS};
use crate::model::{Body, Card, Field, KINDS, Kind, MComp, MLine, MVal, Params, Ty, field, fields, off_wire};
use crate::mon::{Ctx, Prop, Step, guard};
use crate::reader;
use crate::rng::Rng;
use crate::wire;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C10",
    rule: "every status, transparency, frequency, weekday, weekday with ordinal (-128 to 127), priority, percentage, UTC offset (every second of the \
           day, both signs) and thousands of sequence, repeat, coordinate, request status and classification values, in every component that has them \
           and through the values' own conversions: text read and compared with what was written, value written, read by an independent reader and \
           read back; texts of distinct values compared pairwise through a map; distinct = distinct property and text, non-trivial = every case",
    cases: |t| if t { 6_000_000 } else { 500_000 },
    zones: &["UTC"],
    case,
    once,
    need: &[
        ("distinct", 60_000),
        ("enumerated values", 1_800),
        ("enumerated offsets", 172_799),
        ("enumerated numbers", 900),
        ("coordinates", 100_000),
        ("values beyond their range", 10_000),
        ("texts of distinct values compared", 300_000),
        ("read in a component", 100_000),
        ("written from a component", 100_000),
        ("read through a conversion", 30_000),
        ("finding probes", 3_000),
    ],
    single_threaded_shards: true,
    assumptions: "a position read from decimals is the nearest pair of single-precision numbers; positions and status codes are finite; 0 and -0 are the \
                  same; a custom classification is not named like a standard one and is compared in upper case; texts as in C02 for the descriptions of \
                  request statuses; seconds of an offset are dropped when it is read (known finding)",
};

const TYPES: [Ty; 8] = [Ty::Pri, Ty::Pct, Ty::U32, Ty::Status, Ty::Class, Ty::Transp, Ty::Offset, Ty::Geo];

fn hosts(ty: Ty) -> Vec<(Kind, &'static Field)> {
    KINDS.iter().flat_map(|k| fields(*k).iter().filter(|f| f.ty == ty).map(|f| (*k, f))).collect()
}

// ---------------------------------------------------------------- values

fn int(r: &mut Rng, n: u64) -> String {
    match r.below(8) {
        0 => format!("{n:03}"),
        1 => format!("+{n}"),
        2 => format!("{n:0>12}"),
        _ => n.to_string(),
    }
}

fn decimal(r: &mut Rng) -> String {
    let whole = match r.below(4) {
        0 => r.below(10).to_string(),
        1 => format!("{:03}", r.below(181)),
        2 => "0".into(),
        _ => r.below(181).to_string(),
    };
    let sign = *r.pick(&["", "", "", "-", "-", "+"]);
    let digits = *r.pick(&[0, 1, 2, 4, 5, 6, 6, 6, 7, 9, 15, 30]);
    if digits == 0 {
        return format!("{sign}{whole}");
    }
    let f: String = (0..digits).map(|_| char::from(b'0' + r.below(10) as u8)).collect();
    format!("{sign}{whole}.{f}")
}

/// Any finite number, mostly one a position can have.
fn single(r: &mut Rng) -> f32 {
    match r.below(6) {
        0 => loop {
            let f = f32::from_bits(r.u64() as u32);
            if f.is_finite() {
                break f;
            }
        },
        1 => gen_::float(r),
        2 => {
            // neighbours of short decimals
            let f: f32 = decimal(r).parse().unwrap();
            if f == 0.0 { f } else { f32::from_bits(f.to_bits() + r.below(3) as u32 - 1) }
        }
        _ => (r.range(-180_000_000, 180_000_000) as f64 / 1e6) as f32,
    }
}

fn class(r: &mut Rng) -> String {
    let s = match r.below(8) {
        0 => "PUBLIC".into(),
        1 => "PRIVATE".into(),
        2 => "CONFIDENTIAL".into(),
        3 => (*r.pick(&["PUBLICX", "PRIVATE-", "XPUBLIC", "PUBLI", "CONFIDENTIAL ", "X-PRIVATE", "Secret", "internal", "ß", "é-Éa", "X-İ"])).to_string(),
        4 => format!("X-{}", gen_::token(r, 20)),
        5 => gen_::token(r, 100),
        6 => gen_::word(r, 9),
        _ => format!("{}\\,{}", gen_::token(r, 4), gen_::token(r, 4)),
    };
    if standard_but_not(&s) { "X-OTHER".into() } else { s }
}

/// Differs from a standard name only in case: as a custom name it is the same classification.
fn standard_but_not(s: &str) -> bool {
    ["PUBLIC", "PRIVATE", "CONFIDENTIAL"].contains(&s.to_uppercase().as_str()) && s != s.to_uppercase()
}

/// A value and a text for it.
fn value(r: &mut Rng, ty: Ty) -> (MVal, String) {
    let plain = |v: MVal| {
        let w = v.wire();
        (v, w)
    };
    match ty {
        Ty::Pri => {
            let n = r.below(10);
            (MVal::U(n), int(r, n))
        }
        Ty::Pct => {
            let n = if r.chance(1, 3) { *r.pick(&[0, 1, 50, 99, 100]) } else { r.below(101) };
            (MVal::U(n), int(r, n))
        }
        Ty::U32 => {
            let n = match r.below(4) {
                0 => u64::from(u32::MAX) - r.below(3),
                1 => (1_u64 << r.below(32)) - r.below(2),
                2 => r.below(1 << 32),
                _ => r.below(1000),
            };
            (MVal::U(n), int(r, n))
        }
        Ty::Class => plain(MVal::Class(class(r))),
        Ty::Offset => plain(MVal::Off(60 * r.range(-23 * 60 - 59, 23 * 60 + 59) as i32)),
        Ty::Geo => {
            if r.chance(1, 2) {
                plain(MVal::Geo(single(r), single(r)))
            } else {
                let (a, b) = (decimal(r), decimal(r));
                (MVal::Geo(a.parse().unwrap(), b.parse().unwrap()), format!("{a};{b}"))
            }
        }
        Ty::RStatus => {
            let code = match r.below(8) {
                0 => r.below(10) as f32,
                _ => gen_::statcode(r),
            };
            let d = gen_::text(r, Mode::Wire);
            let e = if r.chance(1, 2) { Some(gen_::text(r, Mode::Wire)) } else { None };
            let t = MVal::RStat(code, d, e);
            let mut w = t.wire();
            if code.fract() == 0.0 && r.chance(1, 2) {
                w = w.replacen(".0;", ";", 1);
            }
            (t, w)
        }
        ty => gen_::value(r, &Opts::doc(false), Kind::VEvent, ty),
    }
}

// ---------------------------------------------------------------- in components

fn host(r: &mut Rng, kind: Kind, o: &Opts, lines: Vec<MLine>) -> MComp {
    let mut m = gen_::comp(r, o, kind);
    let name = lines[0].name.clone();
    m.lines.retain(|l| l.name != name);
    let mut at = r.us(m.lines.len() + 1);
    for l in lines {
        m.lines.insert(at, l);
        at = at + 1 + r.us(m.lines.len() - at);
    }
    m
}

fn got(a: &Any, f: &Field) -> Vec<String> {
    a.dump().fields.get(f.name).map(|v| v.iter().map(|x| x.0.canon()).collect()).unwrap_or_default()
}

fn lines_of(r: &mut Rng, f: &'static Field, vals: &[(MVal, String)]) -> Vec<MLine> {
    vals.iter()
        .map(|v| MLine {
            name: f.name.into(),
            body: Body::Known(f.name, vec![v.clone()]),
            params: if r.chance(1, 10) { gen_::params(r, Mode::Wire).into_iter().filter(|p| p.0 != "VALUE").collect() } else { vec![] },
        })
        .collect()
}

fn quiet() -> Opts {
    Opts { depth: false, leap: false, repeat: false, max_list: 2, ..Opts::doc(false) }
}

/// The values of one property, read from a component and written back.
fn read(r: &mut Rng, c: &mut Ctx, kind: Kind, f: &'static Field, vals: &[(MVal, String)]) -> Step {
    let lines = lines_of(r, f, vals);
    let doc = host(r, kind, &quiet(), lines).text();
    let a = match ik::parse(kind, false, &doc, *r.pick(&VIAS))? {
        Err(e) => return Err(format!("rejected: {}\n{doc}", short(&e.to_string()))),
        Ok(a) => a,
    };
    c.count("read in a component");
    let want: Vec<String> = vals.iter().map(|v| v.0.canon()).collect();
    let have = got(&a, f);
    if have != want {
        return Err(format!("read as {have:?}, not {want:?}\n{doc}"));
    }
    if r.chance(1, 2) { write(c, kind, f, &a, vals) } else { Ok(()) }
}

fn write(c: &mut Ctx, kind: Kind, f: &'static Field, a: &Any, vals: &[(MVal, String)]) -> Step {
    let s = ik::ser(a)?;
    let node = reader::tree(&s).map_err(|e| format!("{e}\nserialised:\n{s}"))?;
    let mut have = Vec::new();
    for l in node.lines.iter().filter(|l| l.name == f.name) {
        have.extend(wire::read(f.ty, f.card == Card::App, l).map_err(|e| format!("written as {l:?}: {e}"))?);
    }
    let have: Vec<String> = have.iter().map(MVal::canon).collect();
    let want: Vec<String> = vals.iter().map(|v| wire::semantic(&v.0).canon()).collect();
    if have != want {
        return Err(format!("written as {have:?}, not {want:?}\n{s}"));
    }
    c.count("written from a component");
    match ik::parse(kind, false, &s, VIAS[0])? {
        Err(e) => Err(format!("what was written is rejected: {}\n{s}", short(&e.to_string()))),
        Ok(b) if got(&b, f) == got(a, f) => Ok(()),
        Ok(b) => Err(format!("read back as {:?}, not {:?}\n{s}", got(&b, f), got(a, f))),
    }
}

fn built(r: &mut Rng, c: &mut Ctx, kind: Kind, f: &'static Field, vals: &[(MVal, String)]) -> Step {
    let lines: Vec<MLine> = lines_of(r, f, vals).into_iter().map(|l| MLine { params: vec![], ..l }).collect();
    let o = Opts { depth: false, leap: false, max_list: 2, ..Opts::built(Mode::Wire, false) };
    let a = Any::build(&host(r, kind, &o, lines), false);
    write(c, kind, f, &a, vals)
}

// ---------------------------------------------------------------- through conversions

fn conv<T>(r: &mut Rng, s: &str) -> Step<Result<T, String>>
where
    T: std::str::FromStr<Err = ikal::Error> + for<'a> TryFrom<&'a str, Error = ikal::Error> + TryFrom<String, Error = ikal::Error>,
{
    let k = r.below(3);
    Ok(guard("converting", || match k {
        0 => s.parse::<T>(),
        1 => T::try_from(s),
        _ => T::try_from(s.to_string()),
    })?
    .map_err(|e| short(&e.to_string())))
}

fn converted<T>(r: &mut Rng, c: &mut Ctx, v: &MVal, text: &str) -> Step
where
    T: std::str::FromStr<Err = ikal::Error>
        + for<'a> TryFrom<&'a str, Error = ikal::Error>
        + TryFrom<String, Error = ikal::Error>
        + IkVal
        + ikal::ser::Serialize
        + Clone
        + PartialEq
        + std::fmt::Debug,
{
    let x = conv::<T>(r, text)?.map_err(|e| format!("conversion of {text:?}: {e}"))?;
    c.count("read through a conversion");
    if x.rd().0.canon() != v.canon() {
        return Err(format!("{text:?} is converted to {x:?}"));
    }
    let w = T::mk(v, &Params::new());
    let s = guard("serialising", || ikal::ser::ical(&w))?.map_err(|e| format!("serialising {w:?}: {e}"))?;
    let y = conv::<T>(r, &s)?.map_err(|e| format!("{w:?} is written {s:?}, which is rejected: {e}"))?;
    if y.rd().0.canon() != v.canon() {
        return Err(format!("{w:?} is written {s:?} and read back as {y:?}"));
    }
    Ok(())
}

fn direct(r: &mut Rng, c: &mut Ctx, ty: Ty, v: &MVal, text: &str) -> Step {
    match ty {
        Ty::Status => converted::<ikal::Status>(r, c, v, text),
        Ty::Transp => converted::<ikal::TimeTransparency>(r, c, v, text),
        Ty::Class => converted::<ikal::Class>(r, c, v, text),
        Ty::Geo => converted::<ikal::Geo>(r, c, v, text),
        Ty::RStatus => converted::<ikal::RequestStatus>(r, c, v, text),
        _ => Ok(()),
    }
}

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C10", idx);
    let ty = if r.chance(1, 10) { Ty::RStatus } else if r.chance(1, 5) { Ty::Geo } else { *r.pick(&TYPES) };
    let hs = hosts(ty);
    let (kind, f) = *r.pick(&hs);
    let n = if f.card == Card::Many { 1 + r.us(3) } else { 1 };
    let vals: Vec<(MVal, String)> = (0..n).map(|_| value(&mut r, ty)).collect();
    for (v, w) in &vals {
        c.distinct(&format!("{kind:?} {} {w}", f.name));
        if let MVal::Geo(..) = v {
            c.count("coordinates");
        }
    }
    let (v, w) = vals[0].clone();
    let step = read(&mut r, c, kind, f, &vals)
        .and_then(|()| if r.chance(1, 2) { built(&mut r, c, kind, f, &vals) } else { Ok(()) })
        .and_then(|()| direct(&mut r, c, ty, &v, &w));
    let step = step.and_then(|()| if ty == Ty::Geo { coordinates(&mut r, c) } else { Ok(()) });
    let step = step.and_then(|()| if r.chance(1, 8) { beyond(&mut r, c) } else { Ok(()) });
    if let Err(e) = step {
        c.fail(format!("{kind:?} {}: {:?}: {e}", f.name, vals.iter().map(|v| v.1.as_str()).collect::<Vec<_>>()));
    }
    c.sample(|| format!("{kind:?} {}:{w}", f.name));
}

/// Values out of the range RFC 5545 gives them: refused, or read as they are.
fn beyond(r: &mut Rng, c: &mut Ctx) -> Step {
    let ty = if r.chance(1, 2) { Ty::Pct } else { Ty::Geo };
    let (kind, f) = *r.pick(&hosts(ty));
    let v = match ty {
        Ty::Pct => {
            let n = if r.chance(2, 3) { 101 + r.below(155) } else { r.below(100_000) };
            (MVal::U(n), int(r, n))
        }
        _ => {
            let far = |r: &mut Rng| format!("{}{}", *r.pick(&["", "-"]), (r.below(1_000_000) as f64) / 100.0);
            let (a, b) = (far(r), far(r));
            (MVal::Geo(a.parse().unwrap(), b.parse().unwrap()), format!("{a};{b}"))
        }
    };
    let doc = {
        let lines = lines_of(r, f, std::slice::from_ref(&v));
        host(r, kind, &quiet(), lines).text()
    };
    c.count("values beyond their range");
    match ik::parse(kind, false, &doc, *r.pick(&VIAS))? {
        Err(_) => Ok(()),
        Ok(a) if got(&a, f) == [v.0.canon()] => Ok(()),
        Ok(a) => Err(format!("{}:{} is read as {:?}\n{doc}", f.name, v.1, got(&a, f))),
    }
}

/// Neighbouring numbers have different texts, each of which gives the number.
fn coordinates(r: &mut Rng, c: &mut Ctx) -> Step {
    let a = single(r);
    let near = [a, f32::from_bits(a.to_bits() ^ 1), -a, single(r)];
    let near: Vec<f32> = near.into_iter().filter(|x| x.is_finite()).collect();
    let mut seen: Vec<(String, f32, f32)> = Vec::new();
    for x in &near {
        for (lat, lon) in [(*x, 1.5), (1.5, *x)] {
            let g = ikal::Geo { lat, lon };
            let s = guard("serialising a position", || ikal::ser::ical(&g))?.map_err(|e| format!("serialising {g:?}: {e}"))?;
            if let Some(t) = seen.iter().find(|t| t.0 == s && (t.1 != lat || t.2 != lon)) {
                return Err(format!("{g:?} and {:?}, {:?} are both written {s:?}", t.1, t.2));
            }
            c.count("coordinates");
            c.count("texts of distinct values compared");
            match conv::<ikal::Geo>(r, &s)? {
                Ok(b) if b == g => {}
                b => return Err(format!("{g:?} is written {s:?} and read back as {b:?}")),
            }
            seen.push((s, lat, lon));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- tables

struct Texts {
    seen: BTreeMap<String, String>,
}

impl Texts {
    fn new() -> Self {
        Texts { seen: BTreeMap::new() }
    }
    /// Fails if another value has this text.
    fn put(&mut self, c: &mut Ctx, text: &str, value: &str) {
        c.count("texts of distinct values compared");
        if let Some(other) = self.seen.insert(text.to_string(), value.to_string()) {
            if other != value {
                c.fail(format!("{other} and {value} are both written {text:?}"));
            }
        }
    }
}

fn table<T>(c: &mut Ctx, r: &mut Rng, values: &[(String, T)])
where
    T: std::str::FromStr<Err = ikal::Error>
        + for<'a> TryFrom<&'a str, Error = ikal::Error>
        + TryFrom<String, Error = ikal::Error>
        + ikal::ser::Serialize
        + std::fmt::Display
        + PartialEq
        + Clone
        + std::fmt::Debug,
{
    let mut texts = Texts::new();
    for (text, v) in values {
        c.count("enumerated values");
        let mut run = || -> Step<String> {
            for via in 0..3 {
                let got = guard("converting", || match via {
                    0 => text.parse::<T>(),
                    1 => T::try_from(text.as_str()),
                    _ => T::try_from(text.clone()),
                })?
                .map_err(|e| format!("{text:?} is rejected: {}", short(&e.to_string())))?;
                if got != *v {
                    return Err(format!("{text:?} is read as {got:?}"));
                }
            }
            let s = guard("serialising", || ikal::ser::ical(v))?.map_err(|e| format!("serialising {v:?}: {e}"))?;
            let d = guard("displaying", || v.to_string())?;
            if s != d || s != *text {
                return Err(format!("{v:?} is written {s:?} and displayed {d:?}, not {text:?}"));
            }
            match conv::<T>(r, &s)? {
                Ok(b) if b == *v => Ok(s),
                b => Err(format!("{v:?} is written {s:?} and read back as {b:?}")),
            }
        };
        match run() {
            Ok(s) => texts.put(c, &s, &format!("{v:?}")),
            Err(e) => c.fail(e),
        }
    }
}

fn once(c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C10 once", 0);
    let own = |v: &[(&str, ikal::Status)]| v.iter().map(|(s, x)| ((*s).to_string(), x.clone())).collect::<Vec<_>>();
    table(c, &mut r, &own(&ik::STATUSES));
    table(c, &mut r, &ik::FREQS.map(|(s, x)| (s.to_string(), x)));
    table(c, &mut r, &ik::WEEKDAYS.map(|(s, x)| (s.to_string(), x)));
    table(
        c,
        &mut r,
        &[("OPAQUE".to_string(), ikal::TimeTransparency::Opaque), ("TRANSPARENT".to_string(), ikal::TimeTransparency::Transparent)],
    );
    let mut days = Vec::new();
    for (s, w) in ik::WEEKDAYS {
        days.push((s.to_string(), ikal::WeekdayNum { weekday: w.clone(), ord: None }));
        for n in i8::MIN..=i8::MAX {
            days.push((format!("{n}{s}"), ikal::WeekdayNum { weekday: w.clone(), ord: Some(n) }));
        }
    }
    table(c, &mut r, &days);
    for (s, w) in ik::WEEKDAYS {
        for n in 1..=53 {
            for t in [format!("+{n}{s}"), format!("{n:02}{s}"), format!("+{n:02}{s}")] {
                match conv::<ikal::WeekdayNum>(&mut r, &t) {
                    Ok(Ok(d)) if d == (ikal::WeekdayNum { weekday: w.clone(), ord: Some(n) }) => c.count("enumerated values"),
                    x => c.fail(format!("{t:?} is read as {x:?}")),
                }
            }
        }
    }
    numbers(c, &mut r);
    offsets(c, &mut r);
    words(c, &mut r);
    classes(c);
    // 2.10 is not 2.1
    for (t, v) in [("2.10", 2.1_f32), ("3.20", 3.2)] {
        c.count("finding probes");
        let text = format!("{t};Success");
        match conv::<ikal::RequestStatus>(&mut r, &text) {
            Ok(Ok(s)) => match ikal::ser::ical(&s) {
                Ok(w) if w == text => {}
                Ok(w) if s.statcode == v && w == format!("{v};Success") => c.known("statcode", format!("{text:?} is read as {v} and written {w:?}")),
                w => c.fail(format!("{text:?} is read as {s:?} and written {w:?}")),
            },
            e => c.fail(format!("{text:?} is read as {e:?}")),
        }
    }
}

/// Every word of an enumeration in every property that has it, read and written.
fn words(c: &mut Ctx, r: &mut Rng) {
    for ty in [Ty::Status, Ty::Transp, Ty::Class] {
        let ws: Vec<&str> = match ty {
            Ty::Status => ik::STATUSES.iter().map(|s| s.0).collect(),
            Ty::Transp => vec!["OPAQUE", "TRANSPARENT"],
            _ => vec!["PUBLIC", "PRIVATE", "CONFIDENTIAL", "X-SECRET"],
        };
        for (kind, f) in hosts(ty) {
            for w in &ws {
                let v = if ty == Ty::Class { MVal::Class((*w).into()) } else { MVal::Word((*w).into()) };
                let vals = [(v, (*w).to_string())];
                c.count("enumerated values");
                if let Err(e) = read(r, c, kind, f, &vals).and_then(|()| built(r, c, kind, f, &vals)) {
                    c.fail(format!("{kind:?} {}: {w:?}: {e}", f.name));
                }
            }
        }
    }
}

fn classes(c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C10 classes", 0);
    let mut texts = Texts::new();
    for _ in 0..20_000 {
        let name = class(&mut r);
        let v = ikal::Class::mk(&MVal::Class(name.clone()), &Params::new());
        match guard("serialising a classification", || ikal::ser::ical(&v)) {
            Ok(Ok(s)) => texts.put(c, &wire::sem(&s), &wire::sem(&name).to_uppercase()),
            e => c.fail(format!("serialising {v:?}: {e:?}")),
        }
    }
}

fn numbers(c: &mut Ctx, r: &mut Rng) {
    for ty in [Ty::Pri, Ty::Pct, Ty::U32] {
        for (kind, f) in hosts(ty) {
            let all: Vec<u64> = match ty {
                Ty::Pri => (0..=9).collect(),
                Ty::Pct => (0..=100).collect(),
                _ => (0..=40).chain((0..32).flat_map(|b| [(1 << b) - 1, 1 << b, (1 << b) + 1])).chain([u64::from(u32::MAX) - 1, u64::from(u32::MAX)]).collect(),
            };
            let mut texts = Texts::new();
            for n in all {
                c.count("enumerated numbers");
                let vals = [(MVal::U(n), n.to_string())];
                if let Err(e) = read(r, c, kind, f, &vals).and_then(|()| built(r, c, kind, f, &vals)) {
                    c.fail(format!("{kind:?} {}: {n}: {e}", f.name));
                }
                let s = if ty == Ty::U32 { ikal::ser::ical(&(n as u32)) } else { ikal::ser::ical(&(n as u8)) };
                texts.put(c, &s.unwrap_or_default(), &n.to_string());
            }
        }
    }
}

fn tz_text(o: &str, which: &str, kind: Kind) -> String {
    let other = if which == "TZOFFSETTO" { "TZOFFSETFROM" } else { "TZOFFSETTO" };
    let tag = kind.tag();
    format!("BEGIN:{tag}\r\nDTSTART:20200101T000000\r\n{which}:{o}\r\n{other}:+0100\r\nEND:{tag}\r\n")
}

fn offsets(c: &mut Ctx, r: &mut Rng) {
    let mut texts = Texts::new();
    for o in -86_399..=86_399 {
        c.count("enumerated offsets");
        let fixed = chrono::FixedOffset::east_opt(o).unwrap();
        let s = match guard("serialising an offset", || ikal::ser::ical(&fixed)) {
            Ok(Ok(s)) => s,
            e => {
                c.fail(format!("serialising {fixed}: {e:?}"));
                continue;
            }
        };
        texts.put(c, &s, &o.to_string());
        if wire::read_offset(&s) != Ok(o) {
            c.fail(format!("{fixed} is written {s:?}"));
            continue;
        }
        // every whole minute, both with and without seconds written
        let forms: Vec<String> = if o % 60 == 0 {
            vec![off_wire(o), format!("{}00", off_wire(o)), s]
        } else if r.chance(1, 30) {
            vec![off_wire(o), s]
        } else {
            continue;
        };
        for t in forms {
            let (kind, which) = *r.pick(&[
                (Kind::Standard, "TZOFFSETTO"),
                (Kind::Standard, "TZOFFSETFROM"),
                (Kind::Daylight, "TZOFFSETTO"),
                (Kind::Daylight, "TZOFFSETFROM"),
            ]);
            let doc = tz_text(&t, which, kind);
            match ik::parse(kind, false, &doc, *r.pick(&VIAS)) {
                Err(e) => c.fail(format!("{t}: {e}")),
                Ok(Err(e)) => c.fail(format!("{t} is rejected: {}", short(&e.to_string()))),
                Ok(Ok(a)) => {
                    let have = got(&a, field(kind, which).unwrap());
                    let other = got(&a, field(kind, if which == "TZOFFSETTO" { "TZOFFSETFROM" } else { "TZOFFSETTO" }).unwrap());
                    if other != [MVal::Off(3600).canon()] {
                        c.fail(format!("the other offset of {doc:?} is read as {other:?}"));
                    }
                    if o % 60 != 0 {
                        c.count("finding probes");
                    }
                    if have == [MVal::Off(o).canon()] {
                        continue;
                    }
                    if o % 60 != 0 && have == [MVal::Off(o / 60 * 60).canon()] {
                        c.known("offset-seconds", format!("{which}:{t} is read as {}", off_wire(o / 60 * 60)));
                    } else {
                        c.fail(format!("{which}:{t} is read as {have:?}"));
                    }
                }
            }
        }
    }
}

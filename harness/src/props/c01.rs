//! C01: parsing any text returns a value or an error.

use crate::gen_::{self, Mode, Opts};
use crate::hostile::{PIECES, edge_duration, mutate, soup};
use crate::ik::{self, Any, Via};
use crate::model::{KINDS, Kind, Ty};
use crate::mon::{Ctx, Prop, Step, guard};
use crate::rng::Rng;

pub const PROP: Prop = Prop {
    id: "C01",
    rule: "mutated, spliced, truncated and synthetic documents of all 12 component types and mutated values of all 12 value types and parse_duration, \
           through FromStr and TryFrom, in 9 time zones, with overflow checks on; plus extremes (nesting, line and list lengths, numbers of \
           hundreds of thousands of digits) on a 2 MiB stack; every result is formatted with Debug and Display; a panic, abort, signal or CPU budget \
           overrun is a violation; distinct = distinct inputs, non-trivial = not the empty text",
    cases: |t| if t { 12_000_000 } else { 2_000_000 },
    zones: &[
        "UTC", "America/New_York", "Europe/Paris", "Australia/Lord_Howe", "Pacific/Apia", "Asia/Kathmandu", "Africa/Casablanca", "America/St_Johns", "Pacific/Kiritimati",
    ],
    case,
    once,
    need: &[("distinct", 200_000), ("component accepted", 20_000), ("component rejected", 50_000), ("value accepted", 20_000), ("value rejected", 50_000), ("extremes", 200), ("durations near the limits", 40_000)],
    single_threaded_shards: true,
    assumptions: "inputs up to some MiB; 2 MiB of stack, the default of Rust threads; 4 GiB of address space per process",
};

/// Formats a result, as a caller reporting it would.
fn show<T: std::fmt::Debug>(r: &ikal::Result<T>, pretty: bool) -> usize {
    match r {
        Ok(v) => {
            if pretty {
                format!("{v:#?}").len()
            } else {
                format!("{v:?}").len()
            }
        }
        Err(e) => format!("{e}").len() + format!("{e:?}").len(),
    }
}

fn component(s: &str, kind: Kind, valarm: bool, via: Via, pretty: bool) -> Step<bool> {
    guard(&format!("parsing {kind:?} (as VAlarm: {valarm}) via {via:?} and formatting the result"), || {
        let res = Any::parse(kind, valarm, s, via);
        show(&res, pretty);
        res.is_ok()
    })
}

pub const VALUES: &[&str] = &[
    "Date", "DateTime", "Period", "Recur", "Freq", "Weekday", "WeekdayNum", "Status", "Class", "TimeTransparency", "Geo", "RequestStatus", "Trigger", "duration",
    "Text", "Uri", "ContentLine",
];

/// Parses as a value type; whether it was accepted.
pub fn value(s: &str, ty: &str, via: Via) -> Step<bool> {
    fn full<T>(s: &str, via: Via) -> bool
    where
        T: std::fmt::Debug + std::str::FromStr<Err = ikal::Error> + for<'a> TryFrom<&'a str, Error = ikal::Error> + TryFrom<String, Error = ikal::Error>,
    {
        let res: ikal::Result<T> = match via {
            Via::FromStr => s.parse(),
            Via::TryFromStr => T::try_from(s),
            Via::TryFromString => T::try_from(s.to_string()),
        };
        show(&res, false);
        res.is_ok()
    }
    fn disp<T>(s: &str, via: Via) -> bool
    where
        T: std::fmt::Debug
            + std::fmt::Display
            + std::str::FromStr<Err = ikal::Error>
            + for<'a> TryFrom<&'a str, Error = ikal::Error>
            + TryFrom<String, Error = ikal::Error>,
    {
        if let Ok(v) = T::from_str(s) {
            let _ = v.to_string();
        }
        full::<T>(s, via)
    }
    guard(&format!("parsing {ty} via {via:?} and formatting the result"), || match ty {
        "Date" => {
            let r = s.parse::<ikal::Date>();
            show(&r, false);
            if let Ok(d) = &r {
                let _ = (d.to_string(), d.date_naive(), d.has_time(), d.format("%Y-%m-%d").to_string());
                let _ = (chrono::NaiveDate::from(*d), ikal::DateTime::from(*d).naive());
            }
            r.is_ok()
        }
        "DateTime" => {
            let r = s.parse::<ikal::DateTime>();
            show(&r, false);
            if let Ok(d) = &r {
                let _ = (d.to_string(), d.date_naive(), d.naive(), d.format("%Y-%m-%d %H:%M:%S").to_string());
                let l = chrono::DateTime::<chrono::Local>::try_from(*d);
                show(&l, false);
            }
            r.is_ok()
        }
        "Period" => {
            if let Ok(p) = s.parse::<ikal::Period>() {
                let _ = p.duration();
            }
            disp::<ikal::Period>(s, via)
        }
        "Recur" => full::<ikal::Recur>(s, via),
        "Freq" => disp::<ikal::Freq>(s, via),
        "Weekday" => disp::<ikal::Weekday>(s, via),
        "WeekdayNum" => disp::<ikal::WeekdayNum>(s, via),
        "Status" => disp::<ikal::Status>(s, via),
        "Class" => disp::<ikal::Class>(s, via),
        "TimeTransparency" => disp::<ikal::TimeTransparency>(s, via),
        "Geo" => disp::<ikal::Geo>(s, via),
        "RequestStatus" => full::<ikal::RequestStatus>(s, via),
        "Trigger" => {
            let r = s.parse::<ikal::Trigger>();
            show(&r, false);
            r.is_ok()
        }
        "Text" => ikal::Text::from(s).to_string() == s && format!("{:?}", <ikal::Text as From<String>>::from(s.to_string())).len() > 1,
        "Uri" => ikal::Uri::from(s).to_string() == s && format!("{:?}", ikal::Uri::from(s.to_string())).len() > 1,
        "ContentLine" => s.is_empty(),
        _ => {
            let r = ikal::parse_duration(s);
            show(&r, false);
            r.is_ok()
        }
    })
}

fn ty_of(name: &str) -> Ty {
    match name {
        "Date" => Ty::Date,
        "DateTime" => Ty::DateTime,
        "Period" => Ty::Period,
        "Recur" => Ty::Recur,
        "Status" => Ty::Status,
        "Class" => Ty::Class,
        "TimeTransparency" => Ty::Transp,
        "Geo" => Ty::Geo,
        "RequestStatus" => Ty::RStatus,
        "Trigger" => Ty::Trigger,
        "duration" => Ty::Dur,
        _ => Ty::Text,
    }
}

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C01", idx);
    let o = Opts { mode: if r.chance(1, 2) { Mode::Raw } else { Mode::Wire }, ..Opts::doc(true) };
    let via = *r.pick(&ik::VIAS);
    if r.chance(1, 2) {
        let ty = *r.pick(VALUES);
        let mut s = match ty {
            "Freq" => (*r.pick(&ik::FREQS)).0.to_string(),
            "Weekday" => (*r.pick(&ik::WEEKDAYS)).0.to_string(),
            "WeekdayNum" => format!("{}{}", r.range(-140, 140), r.pick(&ik::WEEKDAYS).0),
            _ => gen_::value(&mut r, &o, Kind::VEvent, ty_of(ty)).1,
        };
        match r.below(10) {
            0 => s = soup(&mut r),
            1 => s = (*r.pick(PIECES)).to_string(),
            2 => {}
            3..=5 if matches!(ty, "duration" | "Trigger") => s = edge_duration(&mut r),
            3..=5 if ty == "Period" => s = format!("{}/{}", gen_::datetime(&mut r, &o).wire(), edge_duration(&mut r)),
            _ => {
                for _ in 0..1 + r.us(3) {
                    mutate(&mut r, &mut s, "BEGIN:VEVENT\r\nDTSTART:20240101T000000Z/PT1H\r\nRRULE:FREQ=DAILY;BYDAY=-1MO,2TU\r\n");
                }
            }
        }
        match value(&s, ty, via) {
            Err(e) => c.fail(format!("{e}\ntext: {s:?}")),
            Ok(ok) => c.count(if ok { "value accepted" } else { "value rejected" }),
        }
        if !s.is_empty() {
            c.distinct(&format!("{ty} {s}"));
        }
        return;
    }
    let kind = gen_::any_kind(&mut r);
    let (kind, mut s) = if r.chance(1, 6) {
        let d = r.pick(crate::corpus::docs());
        (d.kind, d.text.clone())
    } else {
        (kind, gen_::comp(&mut r, &o, kind).text())
    };
    let other = if r.chance(1, 3) {
        let k = *r.pick(&KINDS);
        gen_::comp(&mut r, &Opts { depth: false, ..o.clone() }, k).text()
    } else {
        s.clone()
    };
    match r.below(14) {
        0 => {}
        1 => {
            s = format!("BEGIN:{}\r\n{}\r\nEND:{}\r\n", kind.tag(), soup(&mut r), kind.tag());
        }
        2 => s = soup(&mut r),
        3 => {
            // fold without mercy, then break
            let mut out = String::new();
            for ch in s.chars() {
                out.push(ch);
                if r.chance(1, 12) {
                    out.push_str(r.pick(&["\r\n ", "\n ", "\r\n\t", "\r\n  "]));
                }
            }
            s = out;
            mutate(&mut r, &mut s, &other);
        }
        _ => {
            let n = if r.chance(1, 6) { 1 + r.us(20) } else { 1 + r.us(3) };
            for _ in 0..n {
                mutate(&mut r, &mut s, &other);
            }
        }
    }
    let mut kinds = vec![kind];
    if r.chance(1, 4) {
        kinds.push(*r.pick(&KINDS));
    }
    let pretty = r.chance(1, 4);
    for k in kinds {
        match component(&s, k, r.chance(1, 2), via, pretty) {
            Err(e) => c.fail(format!("{e}\ntext: {s:?}")),
            Ok(ok) => c.count(if ok { "component accepted" } else { "component rejected" }),
        }
    }
    if !s.is_empty() {
        c.distinct(&s);
    }
    c.sample(|| s);
}

/// Runs on a stack of 2 MiB, the default of threads; an overflow ends the process, which the supervisor reports.
fn on_small_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, f).expect("thread").join().expect("thread"))
}

fn once(c: &mut Ctx) {
    // every dictionary piece as every value and as the value of every property
    let mut n = 0u64;
    for p in PIECES {
        for ty in VALUES {
            if let Err(e) = value(p, ty, Via::FromStr) {
                c.fail(format!("{e}\ntext: {p:?}"));
            }
            n += 1;
        }
        for kind in KINDS {
            let required: Vec<String> = required(kind);
            for f in crate::model::fields(kind) {
                let mut s = format!("BEGIN:{}\r\n", kind.tag());
                for l in required.iter().filter(|l| !l.starts_with(&format!("{}:", f.name))) {
                    s.push_str(l);
                    s.push_str("\r\n");
                }
                s.push_str(&format!("{}:{p}\r\n", f.name));
                if f.ty == Ty::RDate {
                    s.push_str(&format!("{};VALUE=PERIOD:{p}\r\n", f.name));
                }
                s.push_str(&format!("END:{}\r\n", kind.tag()));
                if let Err(e) = component(&s, kind, n % 2 == 0, Via::FromStr, false) {
                    c.fail(format!("{e}\ntext: {s:?}"));
                }
                n += 1;
            }
        }
    }
    c.add("dictionary inputs", n);
    limits(c);
    extremes(c);
}

/// Lines which make this kind of component complete.
pub fn required(kind: Kind) -> Vec<String> {
    let l = |v: &[&str]| v.iter().map(ToString::to_string).collect();
    match kind {
        Kind::VCalendar => l(&["PRODID:p", "VERSION:2.0"]),
        Kind::VEvent | Kind::VJournal => l(&["DTSTAMP:20240101T000000", "UID:u", "DTSTART:20240101T000000"]),
        Kind::VTodo | Kind::VFreebusy => l(&["DTSTAMP:20240101T000000", "UID:u"]),
        Kind::VTimezone => l(&["TZID:t"]),
        Kind::Standard | Kind::Daylight => l(&["DTSTART:20240101T000000", "TZOFFSETTO:+0100", "TZOFFSETFROM:+0200"]),
        Kind::Audio => l(&["ACTION:AUDIO", "TRIGGER:PT1S"]),
        Kind::Display => l(&["ACTION:DISPLAY", "TRIGGER:PT1S", "DESCRIPTION:d"]),
        Kind::Email => l(&["ACTION:EMAIL", "TRIGGER:PT1S", "DESCRIPTION:d", "SUMMARY:s"]),
    }
}

/// Durations near the limits, as values and in every property which has one.
fn limits(c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C01 limits", 0);
    for n in 0..if c.thorough { 400_000 } else { 40_000 } {
        let d = edge_duration(&mut r);
        for ty in ["duration", "Trigger"] {
            if let Err(e) = value(&d, ty, Via::FromStr) {
                return c.fail(format!("{e}\ntext: {d:?}"));
            }
        }
        let p = format!("{}/{d}", ["20240101T000000Z", "19700101T000000", "99991231T235959Z", "00010101T000000Z"][n % 4]);
        if let Err(e) = value(&p, "Period", Via::FromStr) {
            return c.fail(format!("{e}\ntext: {p:?}"));
        }
        let (kind, line) = [
            (Kind::VEvent, format!("DURATION:{d}")),
            (Kind::VTodo, format!("DURATION:{d}")),
            (Kind::Audio, format!("DURATION:{d}\r\nREPEAT:1")),
            (Kind::Display, format!("TRIGGER:{d}")),
            (Kind::VFreebusy, format!("FREEBUSY:{p}")),
            (Kind::VJournal, format!("RDATE;VALUE=PERIOD:{p}")),
            (Kind::Email, format!("TRIGGER;RELATED=END:{d}")),
        ][n % 7]
            .clone();
        let name = line.split([':', ';']).next().unwrap_or("").to_string();
        let mut s = format!("BEGIN:{}\r\n", kind.tag());
        for l in required(kind).iter().filter(|l| !l.starts_with(&format!("{name}:"))) {
            s.push_str(&format!("{l}\r\n"));
        }
        s.push_str(&format!("{line}\r\nEND:{}\r\n", kind.tag()));
        if let Err(e) = component(&s, kind, false, Via::FromStr, false) {
            return c.fail(format!("{e}\ntext: {s:?}"));
        }
        c.count("durations near the limits");
    }
}

fn extremes(c: &mut Ctx) {
    let wrap = |kind: Kind, body: &str| {
        let req = required(kind).join("\r\n");
        format!("BEGIN:{0}\r\n{req}\r\n{body}END:{0}\r\n", kind.tag())
    };
    let mut inputs: Vec<(&str, Kind, String)> = Vec::new();
    let n = if c.thorough { 200_000 } else { 40_000 };
    for (name, kind) in [("VCALENDAR", Kind::VCalendar), ("VEVENT", Kind::VEvent), ("VALARM", Kind::Audio), ("VTIMEZONE", Kind::VTimezone), ("X", Kind::VTodo)] {
        let open = format!("BEGIN:{name}\r\n").repeat(n);
        inputs.push(("nested openings", kind, open.clone()));
        inputs.push(("nested components", kind, format!("{open}{}", format!("END:{name}\r\n").repeat(n))));
        inputs.push(("endings", kind, format!("END:{name}\r\n").repeat(n)));
    }
    let mut deep = String::new();
    for i in 0..n {
        deep.push_str(&format!("BEGIN:{}\r\n", ["VCALENDAR", "VEVENT", "VALARM"][i % 3]));
        deep.push_str("PRODID:p\r\nVERSION:2\r\nUID:u\r\nDTSTAMP:20240101T000000\r\nDTSTART:20240101\r\n");
    }
    inputs.push(("alternating nesting", Kind::VCalendar, deep));
    let long = "9".repeat(n * 8);
    let wide = "é".repeat(n * 4);
    for kind in KINDS {
        for f in crate::model::fields(kind) {
            inputs.push(("endless digits", kind, wrap(kind, &format!("{}:{long}\r\n", f.name))));
        }
        inputs.push(("endless name", kind, wrap(kind, &format!("X{long}:1\r\n"))));
        inputs.push(("endless line", kind, wrap(kind, &format!("X-A:{wide}\r\n"))));
        inputs.push(("endless parameter", kind, wrap(kind, &format!("X-A;B=\"{wide}\":x\r\n"))));
        inputs.push(("unclosed quote", kind, wrap(kind, &format!("X-A;B=\"{wide}:x\r\n"))));
        inputs.push(("many parameters", kind, wrap(kind, &format!("X-A{}:x\r\n", ";B=c".repeat(n)))));
        inputs.push(("many lines", kind, wrap(kind, &"X-A:b\r\n".repeat(n))));
        inputs.push(("many folds", kind, wrap(kind, &format!("X-A:{}\r\n", "a\r\n ".repeat(n)))));
        inputs.push(("no end", kind, format!("BEGIN:{}\r\n{}", kind.tag(), "X-A:b\r\n".repeat(n))));
        inputs.push(("empty lines", kind, "\r\n".repeat(n)));
        inputs.push(("one letter", kind, "B".repeat(n)));
        inputs.push(("semicolons", kind, wrap(kind, &format!("X-A{}\r\n", ";".repeat(n)))));
        inputs.push(("backslashes", kind, wrap(kind, &format!("CATEGORIES:{}\r\nRSTATUS:2.0;{}\r\n", "\\".repeat(n), "\\".repeat(n)))));
        inputs.push(("commas", kind, wrap(kind, &format!("CATEGORIES:{}\r\n", ",".repeat(n)))));
    }
    let many = |x: &str| vec![x; n].join(",");
    for (kind, l) in [
        (Kind::VEvent, format!("EXDATE:{}\r\n", many("20240101"))),
        (Kind::VEvent, format!("RDATE:{}\r\n", many("20240101T000000Z"))),
        (Kind::VEvent, format!("RDATE;VALUE=PERIOD:{}\r\n", many("20240101T000000Z/PT1S"))),
        (Kind::VFreebusy, format!("FREEBUSY:{}\r\n", many("20240101T000000Z/P1D"))),
        (Kind::VEvent, format!("RRULE:FREQ=DAILY;BYDAY={}\r\n", many("-1MO"))),
        (Kind::VEvent, format!("RRULE:FREQ=DAILY;BYSECOND={}\r\n", many("1"))),
        (Kind::VEvent, format!("RRULE:FREQ=DAILY{}\r\n", ";COUNT=1".repeat(n))),
        (Kind::VEvent, format!("DURATION:P{}D\r\n", "0".repeat(n))),
        (Kind::VEvent, format!("GEO:{}.5;1\r\n", "0".repeat(n))),
        (Kind::VEvent, format!("GEO:1;{}e1\r\n", "1".repeat(n))),
        (Kind::VEvent, format!("RSTATUS:2.0;{}\r\n", "\\;".repeat(n))),
    ] {
        inputs.push(("long lists", kind, wrap(kind, &l)));
    }
    for (what, kind, s) in inputs {
        for valarm in [false, true] {
            if valarm && !kind.is_alarm() {
                continue;
            }
            c.count("extremes");
            let res = on_small_stack(|| component(&s, kind, valarm, Via::FromStr, false));
            if let Err(e) = res {
                c.fail(format!("{what}: {e}\ntext: {:?}…", s.chars().take(300).collect::<String>()));
            }
        }
    }
    for ty in VALUES {
        for s in [
            long.clone(), wide.clone(), ";".repeat(n), ",".repeat(n), format!("P{long}D"), format!("PT{long}S"), format!("-P{}W", "0".repeat(n)), format!("{long}MO"), format!("1.{long};1"),
            format!("FREQ=DAILY;{}", "X=1;".repeat(n)), format!("FREQ={long}"), "/".repeat(n), "T".repeat(n), "Z".repeat(n), "-".repeat(n),
        ] {
            c.count("extremes");
            let res = on_small_stack(|| value(&s, ty, Via::FromStr));
            if let Err(e) = res {
                c.fail(format!("{e}\ntext: {:?}…", s.chars().take(300).collect::<String>()));
            }
        }
    }
}

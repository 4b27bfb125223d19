//! Model of iCalendar components, independent of ikal: what a document says, and what a parsed
//! component must therefore hold.

use crate::cal;
use std::collections::BTreeMap;

pub type Params = BTreeMap<String, String>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    VCalendar,
    VEvent,
    VTodo,
    VJournal,
    VFreebusy,
    VTimezone,
    Standard,
    Daylight,
    Audio,
    Display,
    Email,
}

pub const KINDS: [Kind; 11] = [
    Kind::VCalendar,
    Kind::VEvent,
    Kind::VTodo,
    Kind::VJournal,
    Kind::VFreebusy,
    Kind::VTimezone,
    Kind::Standard,
    Kind::Daylight,
    Kind::Audio,
    Kind::Display,
    Kind::Email,
];

impl Kind {
    /// Name after BEGIN: and END:.
    pub fn tag(self) -> &'static str {
        match self {
            Kind::VCalendar => "VCALENDAR",
            Kind::VEvent => "VEVENT",
            Kind::VTodo => "VTODO",
            Kind::VJournal => "VJOURNAL",
            Kind::VFreebusy => "VFREEBUSY",
            Kind::VTimezone => "VTIMEZONE",
            Kind::Standard => "STANDARD",
            Kind::Daylight => "DAYLIGHT",
            Kind::Audio | Kind::Display | Kind::Email => "VALARM",
        }
    }

    pub fn is_alarm(self) -> bool {
        matches!(self, Kind::Audio | Kind::Display | Kind::Email)
    }

    pub fn action(self) -> &'static str {
        match self {
            Kind::Audio => "AUDIO",
            Kind::Display => "DISPLAY",
            Kind::Email => "EMAIL",
            _ => "",
        }
    }

    /// Kinds which can stand directly inside this one, with the name of the list that holds them.
    pub fn kids(self) -> &'static [(&'static str, &'static [Kind])] {
        const ALARMS: &[Kind] = &[Kind::Audio, Kind::Display, Kind::Email];
        match self {
            Kind::VCalendar => &[
                ("alarms", ALARMS),
                ("events", &[Kind::VEvent]),
                ("freebusy", &[Kind::VFreebusy]),
                ("journals", &[Kind::VJournal]),
                ("todo", &[Kind::VTodo]),
                ("timezones", &[Kind::VTimezone]),
            ],
            Kind::VEvent => &[("alarms", ALARMS)],
            Kind::VTimezone => &[("standard", &[Kind::Standard]), ("daylight", &[Kind::Daylight])],
            _ => &[],
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Card {
    /// Exactly one.
    Req,
    /// At most one.
    Opt,
    /// Any number of lines.
    Many,
    /// Any number of lines, each a comma-separated list.
    App,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ty {
    Text,
    Action,
    Uri,
    DateTime,
    Date,
    Dur,
    Pri,
    Pct,
    U32,
    Status,
    Class,
    Transp,
    Geo,
    Recur,
    RDate,
    Offset,
    Trigger,
    RStatus,
    Period,
}

#[derive(Clone, Copy, Debug)]
pub struct Field {
    pub name: &'static str,
    pub card: Card,
    pub ty: Ty,
}

pub fn field(kind: Kind, name: &str) -> Option<&'static Field> {
    fields(kind).iter().find(|f| f.name == name)
}

/// A point in time: days or seconds since 1970 (nanos 1_000_000_000 stands for a leap second).
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Dt {
    Date(i64),
    Naive(i64, u32),
    Utc(i64, u32),
}

pub const LEAP: u32 = 1_000_000_000;

impl Dt {
    pub fn wire(&self) -> String {
        match *self {
            Dt::Date(d) => cal::fmt_date(d),
            Dt::Naive(s, n) => cal::fmt_dt(s, n >= LEAP),
            Dt::Utc(s, n) => format!("{}Z", cal::fmt_dt(s, n >= LEAP)),
        }
    }
    pub fn is_utc(&self) -> bool {
        matches!(self, Dt::Utc(..))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct MRecur {
    pub freq: String,
    pub until: Option<Dt>,
    pub count: Option<u8>,
    pub interval: u8,
    pub second: Vec<i8>,
    pub minute: Vec<i8>,
    pub hour: Vec<i8>,
    pub day: Vec<(Option<i8>, String)>,
    pub monthday: Vec<i8>,
    pub yearday: Vec<i8>,
    pub weekno: Vec<i8>,
    pub month: Vec<i8>,
    pub setpos: Vec<i8>,
    pub wkst: Option<String>,
}

impl MRecur {
    pub fn new(freq: &str) -> Self {
        MRecur {
            freq: freq.to_string(),
            until: None,
            count: None,
            interval: 1,
            second: vec![],
            minute: vec![],
            hour: vec![],
            day: vec![],
            monthday: vec![],
            yearday: vec![],
            weekno: vec![],
            month: vec![],
            setpos: vec![],
            wkst: None,
        }
    }

    /// The parts present, with their texts.
    pub fn parts(&self) -> Vec<(&'static str, String)> {
        fn list<T: ToString>(v: &[T]) -> String {
            v.iter().map(ToString::to_string).collect::<Vec<_>>().join(",")
        }
        let mut p: Vec<(&'static str, String)> = vec![("FREQ", self.freq.clone())];
        if let Some(u) = &self.until {
            p.push(("UNTIL", u.wire()));
        }
        if let Some(c) = self.count {
            p.push(("COUNT", c.to_string()));
        }
        p.push(("INTERVAL", self.interval.to_string()));
        for (n, v) in [
            ("BYSECOND", &self.second),
            ("BYMINUTE", &self.minute),
            ("BYHOUR", &self.hour),
            ("BYMONTHDAY", &self.monthday),
            ("BYYEARDAY", &self.yearday),
            ("BYWEEKNO", &self.weekno),
            ("BYMONTH", &self.month),
            ("BYSETPOS", &self.setpos),
        ] {
            if !v.is_empty() {
                p.push((n, list(v)));
            }
        }
        if !self.day.is_empty() {
            let days: Vec<String> = self
                .day
                .iter()
                .map(|(o, d)| o.map_or(d.clone(), |o| format!("{o}{d}")))
                .collect();
            p.push(("BYDAY", days.join(",")));
        }
        if let Some(w) = &self.wkst {
            p.push(("WKST", w.clone()));
        }
        p
    }

    pub fn wire(&self) -> String {
        self.parts().iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(";")
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum MVal {
    /// Text in wire (escaped) form.
    Text(String),
    Uri(String),
    D(Dt),
    Dur(i64, i32),
    PerEnd(Dt, Dt),
    PerDur(Dt, i64),
    U(u64),
    Word(String),
    Class(String),
    Geo(f32, f32),
    Recur(Box<MRecur>),
    Dates(Vec<Dt>),
    Periods(Vec<MVal>),
    Off(i32),
    RStat(f32, String, Option<String>),
}

impl MVal {
    /// One text for this value.
    pub fn wire(&self) -> String {
        match self {
            MVal::Text(s) | MVal::Uri(s) | MVal::Word(s) | MVal::Class(s) => s.clone(),
            MVal::D(d) => d.wire(),
            MVal::Dur(s, _) => dur_wire(*s),
            MVal::PerEnd(a, b) => format!("{}/{}", a.wire(), b.wire()),
            MVal::PerDur(a, d) => format!("{}/{}", a.wire(), dur_wire(*d)),
            MVal::U(n) => n.to_string(),
            MVal::Geo(a, b) => format!("{a};{b}"),
            MVal::Recur(r) => r.wire(),
            MVal::Dates(v) => v.iter().map(Dt::wire).collect::<Vec<_>>().join(","),
            MVal::Periods(v) => v.iter().map(MVal::wire).collect::<Vec<_>>().join(","),
            MVal::Off(o) => off_wire(*o),
            MVal::RStat(c, d, e) => {
                let mut s = format!("{c:?};{d}");
                if let Some(e) = e {
                    s.push(';');
                    s.push_str(e);
                }
                s
            }
        }
    }

    pub fn has_utc(&self) -> bool {
        match self {
            MVal::D(d) => d.is_utc(),
            MVal::PerEnd(a, b) => a.is_utc() || b.is_utc(),
            MVal::PerDur(a, _) => a.is_utc(),
            MVal::Recur(r) => r.until.is_some_and(|u| u.is_utc()),
            MVal::Dates(v) => v.iter().any(Dt::is_utc),
            MVal::Periods(v) => v.iter().any(MVal::has_utc),
            _ => false,
        }
    }

    /// Equal up to what the properties leave open (sign of zero, case of custom classes).
    pub fn canon(&self) -> String {
        match self {
            MVal::Geo(a, b) => format!("Geo({:?}, {:?})", a + 0.0, b + 0.0),
            MVal::RStat(c, d, e) => format!("RStat({:?}, {d:?}, {e:?})", c + 0.0),
            MVal::Class(s) => format!("Class({:?})", s.to_uppercase()),
            v => format!("{v:?}"),
        }
    }
}

pub fn dur_wire(s: i64) -> String {
    if s < 0 { format!("-PT{}S", s.unsigned_abs()) } else { format!("PT{s}S") }
}

pub fn off_wire(o: i32) -> String {
    let (sign, a) = if o < 0 { ('-', -o) } else { ('+', o) };
    let mut s = format!("{sign}{:02}{:02}", a / 3600, a / 60 % 60);
    if a % 60 != 0 {
        s.push_str(&format!("{:02}", a % 60));
    }
    s
}

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    /// Values of a recognised property, with the text of each as written.
    Known(&'static str, Vec<(MVal, String)>),
    Unknown(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct MLine {
    pub name: String,
    pub body: Body,
    /// name, value, written in quotes
    pub params: Vec<(String, String, bool)>,
}

impl MLine {
    pub fn value(&self) -> String {
        match &self.body {
            Body::Known(_, vals) => vals.iter().map(|v| v.1.as_str()).collect::<Vec<_>>().join(","),
            Body::Unknown(v) => v.clone(),
        }
    }

    pub fn wire(&self) -> String {
        let mut s = self.name.clone();
        for (k, v, q) in &self.params {
            s.push(';');
            s.push_str(k);
            s.push('=');
            if *q {
                s.push('"');
                s.push_str(v);
                s.push('"');
            } else {
                s.push_str(v);
            }
        }
        s.push(':');
        s.push_str(&self.value());
        s
    }

    pub fn param_map(&self) -> Params {
        self.params.iter().map(|(k, v, _)| (k.clone(), v.clone())).collect()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct MComp {
    pub kind: Kind,
    pub lines: Vec<MLine>,
    pub kids: Vec<MComp>,
}

impl MComp {
    /// Content lines, unfolded.
    pub fn logical(&self) -> Vec<String> {
        let mut v = Vec::new();
        self.push_lines(&mut v);
        v
    }

    fn push_lines(&self, v: &mut Vec<String>) {
        v.push(format!("BEGIN:{}", self.kind.tag()));
        v.extend(self.lines.iter().map(MLine::wire));
        for k in &self.kids {
            k.push_lines(v);
        }
        v.push(format!("END:{}", self.kind.tag()));
    }

    pub fn text(&self) -> String {
        let mut s = self.logical().join("\r\n");
        s.push_str("\r\n");
        s
    }

    /// What a component holding exactly this must hold.
    pub fn dump(&self) -> Dump {
        let mut d = Dump::new(self.kind);
        for l in &self.lines {
            match &l.body {
                Body::Known(name, vals) => {
                    let f = field(self.kind, name).expect("field");
                    let slot = d.fields.entry(f.name).or_default();
                    if matches!(f.card, Card::Req | Card::Opt) {
                        slot.clear();
                    }
                    let keep = matches!(f.ty, Ty::Text | Ty::Uri | Ty::Action) && f.card != Card::App;
                    for (v, _) in vals {
                        slot.push((v.clone(), if keep { l.param_map() } else { Params::new() }));
                    }
                }
                Body::Unknown(v) => {
                    let map = if l.name.starts_with("X-") { &mut d.x } else { &mut d.iana };
                    map.insert(l.name.clone(), (l.param_map(), v.clone()));
                }
            }
        }
        for k in &self.kids {
            let (slot, _) = self.kind.kids().iter().find(|(_, ks)| ks.contains(&k.kind)).expect("kid");
            d.slots.entry(slot).or_default().push(k.dump());
        }
        d.fields.retain(|_, v| !v.is_empty());
        d
    }

    pub fn has_utc(&self) -> bool {
        self.lines.iter().any(|l| matches!(&l.body, Body::Known(_, v) if v.iter().any(|v| v.0.has_utc())))
            || self.kids.iter().any(MComp::has_utc)
    }

    pub fn count_lines(&self) -> usize {
        self.lines.len() + self.kids.iter().map(MComp::count_lines).sum::<usize>()
    }

    /// Shape used to count distinct cases.
    pub fn shape(&self) -> String {
        let mut s = format!("{:?}[", self.kind);
        for l in &self.lines {
            match &l.body {
                Body::Known(n, v) => s.push_str(&format!("{n}:{}", v.len())),
                Body::Unknown(_) => s.push('?'),
            }
            s.push_str(&format!("p{}", l.params.len()));
        }
        for k in &self.kids {
            s.push_str(&k.shape());
        }
        s.push(']');
        s
    }
}

/// Everything a component holds, by value.
#[derive(Clone, Debug, PartialEq)]
pub struct Dump {
    pub kind: Kind,
    pub fields: BTreeMap<&'static str, Vec<(MVal, Params)>>,
    pub x: BTreeMap<String, (Params, String)>,
    pub iana: BTreeMap<String, (Params, String)>,
    pub slots: BTreeMap<&'static str, Vec<Dump>>,
}

impl Dump {
    pub fn new(kind: Kind) -> Self {
        Dump { kind, fields: BTreeMap::new(), x: BTreeMap::new(), iana: BTreeMap::new(), slots: BTreeMap::new() }
    }

    /// First difference, in words.
    pub fn diff(&self, got: &Dump) -> Option<String> {
        self.diff_at(got, &format!("{:?}", self.kind))
    }

    fn diff_at(&self, got: &Dump, path: &str) -> Option<String> {
        if self.kind != got.kind {
            return Some(format!("{path}: expected a {:?}, got a {:?}", self.kind, got.kind));
        }
        let names: std::collections::BTreeSet<_> = self.fields.keys().chain(got.fields.keys()).collect();
        for n in names {
            let empty = Vec::new();
            let (a, b) = (self.fields.get(*n).unwrap_or(&empty), got.fields.get(*n).unwrap_or(&empty));
            if a.len() != b.len() {
                return Some(format!("{path}.{n}: expected {} value(s) {a:?}, got {} {b:?}", a.len(), b.len()));
            }
            for (i, (a, b)) in a.iter().zip(b).enumerate() {
                if a.0.canon() != b.0.canon() || a.1 != b.1 {
                    return Some(format!("{path}.{n}[{i}]: expected {a:?}, got {b:?}"));
                }
            }
        }
        for (what, a, b) in [("x_prop", &self.x, &got.x), ("iana_prop", &self.iana, &got.iana)] {
            if a != b {
                let names: std::collections::BTreeSet<_> = a.keys().chain(b.keys()).collect();
                for n in names {
                    if a.get(n) != b.get(n) {
                        return Some(format!("{path}.{what}[{n:?}]: expected {:?}, got {:?}", a.get(n), b.get(n)));
                    }
                }
            }
        }
        let names: std::collections::BTreeSet<_> = self.slots.keys().chain(got.slots.keys()).collect();
        for n in names {
            let empty = Vec::new();
            let (a, b) = (self.slots.get(*n).unwrap_or(&empty), got.slots.get(*n).unwrap_or(&empty));
            if a.len() != b.len() {
                return Some(format!("{path}.{n}: expected {} sub-component(s), got {}", a.len(), b.len()));
            }
            for (i, (a, b)) in a.iter().zip(b).enumerate() {
                if let Some(d) = a.diff_at(b, &format!("{path}.{n}[{i}]")) {
                    return Some(d);
                }
            }
        }
        None
    }
}

macro_rules! table {
    ($($fname:literal $card:ident $ty:ident),* $(,)?) => {
        &[$(Field { name: $fname, card: Card::$card, ty: Ty::$ty }),*]
    };
}

/// Recognised properties per component (RFC 5545, under ikal's names for RECURID and RSTATUS).
pub fn fields(kind: Kind) -> &'static [Field] {
    match kind {
        Kind::VCalendar => table![
            "PRODID" Req Text, "VERSION" Req Text, "CALSCALE" Opt Text, "METHOD" Opt Text,
        ],
        Kind::VEvent => table![
            "DTSTAMP" Req DateTime, "UID" Req Text, "DTSTART" Req Date, "CLASS" Opt Class,
            "CREATED" Opt DateTime, "DESCRIPTION" Opt Text, "GEO" Opt Geo, "LAST-MODIFIED" Opt DateTime,
            "LOCATION" Opt Text, "ORGANIZER" Opt Uri, "PRIORITY" Opt Pri, "SEQUENCE" Opt U32,
            "STATUS" Opt Status, "SUMMARY" Opt Text, "TRANSP" Opt Transp, "URL" Opt Uri,
            "RECURID" Opt Date, "RRULE" Opt Recur, "DTEND" Opt Date, "DURATION" Opt Dur,
            "ATTACH" Many Text, "ATTENDEE" Many Uri, "CATEGORIES" App Text, "COMMENT" Many Text,
            "CONTACT" Many Text, "EXDATE" App Date, "RSTATUS" Many RStatus, "RELATED-TO" Many Text,
            "RESOURCES" App Text, "RDATE" Many RDate,
        ],
        Kind::VTodo => table![
            "DTSTAMP" Req DateTime, "UID" Req Text, "CLASS" Opt Class, "COMPLETED" Opt DateTime,
            "CREATED" Opt DateTime, "DTSTART" Opt Date, "GEO" Opt Geo, "LAST-MODIFIED" Opt DateTime,
            "LOCATION" Opt Text, "ORGANIZER" Opt Uri, "PERCENT-COMPLETE" Opt Pct, "PRIORITY" Opt Pri,
            "RECURID" Opt Date, "SEQUENCE" Opt U32, "STATUS" Opt Status, "SUMMARY" Opt Text,
            "URL" Opt Uri, "RRULE" Opt Recur, "DUE" Opt Date, "DURATION" Opt Dur,
            "ATTACH" Many Text, "ATTENDEE" Many Uri, "CATEGORIES" App Text, "COMMENT" Many Text,
            "CONTACT" Many Text, "EXDATE" App Date, "RSTATUS" Many RStatus, "RELATED-TO" Many Text,
            "RESOURCES" App Text, "RDATE" Many RDate,
        ],
        Kind::VJournal => table![
            "DTSTAMP" Req DateTime, "UID" Req Text, "CLASS" Opt Class, "CREATED" Opt DateTime,
            "DTSTART" Req Date, "LAST-MODIFIED" Opt DateTime, "ORGANIZER" Opt Uri, "RECURID" Opt Date,
            "SEQUENCE" Opt U32, "STATUS" Opt Status, "SUMMARY" Opt Text, "URL" Opt Uri,
            "RRULE" Opt Recur, "ATTACH" Many Text, "ATTENDEE" Many Uri, "CATEGORIES" App Text,
            "COMMENT" Many Text, "CONTACT" Many Text, "DESCRIPTION" Many Text, "EXDATE" App Date,
            "RELATED-TO" Many Text, "RDATE" Many RDate, "RSTATUS" Many RStatus,
        ],
        Kind::VFreebusy => table![
            "DTSTAMP" Req DateTime, "UID" Req Text, "CONTACT" Opt Text, "DTSTART" Opt Date,
            "DTEND" Opt Date, "ORGANIZER" Opt Uri, "URL" Opt Uri, "ATTENDEE" Many Uri,
            "COMMENT" Many Text, "FREEBUSY" App Period, "RSTATUS" Many RStatus,
        ],
        Kind::VTimezone => table![
            "TZID" Req Text, "LAST-MODIFIED" Opt DateTime, "TZURL" Opt Uri,
        ],
        Kind::Standard | Kind::Daylight => table![
            "DTSTART" Req Date, "TZOFFSETTO" Req Offset, "TZOFFSETFROM" Req Offset, "RRULE" Opt Recur,
            "COMMENT" Many Text, "RDATE" Many RDate, "TZNAME" Many Text,
        ],
        Kind::Audio => table![
            "ACTION" Req Action, "TRIGGER" Req Trigger, "DURATION" Opt Dur, "REPEAT" Opt U32,
            "ATTACH" Many Text,
        ],
        Kind::Display => table![
            "ACTION" Req Action, "TRIGGER" Req Trigger, "DESCRIPTION" Req Text, "DURATION" Opt Dur,
            "REPEAT" Opt U32,
        ],
        Kind::Email => table![
            "ACTION" Req Action, "TRIGGER" Req Trigger, "DESCRIPTION" Req Text, "SUMMARY" Req Text,
            "ATTENDEE" Many Uri, "DURATION" Opt Dur, "REPEAT" Opt U32, "ATTACH" Many Text,
        ],
    }
}

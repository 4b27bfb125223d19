//! Bridge to ikal: builds its components from the model and reads them back field by field.

use crate::cal;
use crate::model::{Body, Dt, Dump, Kind, LEAP, MComp, MRecur, MVal, Params};
use chrono::{Datelike as _, Timelike as _};

// ---------------------------------------------------------------- dates

pub fn naive_date(days: i64) -> chrono::NaiveDate {
    let (y, m, d) = cal::civil(days);
    chrono::NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).expect("date in range")
}

pub fn naive_dt(secs: i64, nanos: u32) -> chrono::NaiveDateTime {
    let s = secs.rem_euclid(cal::DAY) as u32;
    naive_date(secs.div_euclid(cal::DAY))
        .and_hms_nano_opt(s / 3600, s / 60 % 60, s % 60, nanos)
        .expect("time in range")
}

pub fn local_dt(secs: i64, nanos: u32) -> chrono::DateTime<chrono::Local> {
    chrono::DateTime::from_timestamp(secs, nanos).expect("instant in range").with_timezone(&chrono::Local)
}

pub fn rd_date(d: chrono::NaiveDate) -> i64 {
    cal::days(i64::from(d.year()), i64::from(d.month()), i64::from(d.day()))
}

pub fn rd_naive(d: chrono::NaiveDateTime) -> Dt {
    Dt::Naive(rd_date(d.date()) * cal::DAY + i64::from(d.num_seconds_from_midnight()), d.nanosecond())
}

pub fn mk_datetime(d: &Dt) -> ikal::DateTime {
    match *d {
        Dt::Date(d) => ikal::DateTime::Naive(naive_dt(d * cal::DAY, 0)),
        Dt::Naive(s, n) => ikal::DateTime::Naive(naive_dt(s, n)),
        Dt::Utc(s, n) => ikal::DateTime::Local(local_dt(s, n)),
    }
}

pub fn mk_date(d: &Dt) -> ikal::Date {
    match *d {
        Dt::Date(d) => ikal::Date::Date(naive_date(d)),
        _ => ikal::Date::DateTime(mk_datetime(d)),
    }
}

pub fn rd_datetime(d: &ikal::DateTime) -> Dt {
    match d {
        ikal::DateTime::Naive(n) => rd_naive(*n),
        ikal::DateTime::Local(l) => Dt::Utc(l.timestamp(), l.timestamp_subsec_nanos()),
    }
}

pub fn rd_any(d: &ikal::Date) -> Dt {
    match d {
        ikal::Date::Date(d) => Dt::Date(rd_date(*d)),
        ikal::Date::DateTime(d) => rd_datetime(d),
    }
}

/// Wall clock of an instant in the system zone, from chrono's offset; defect model of C07.
pub fn local_wall(secs: i64) -> i64 {
    use chrono::Offset as _;
    secs + i64::from(local_dt(secs, 0).offset().fix().local_minus_utc())
}

pub fn dur(secs: i64) -> chrono::Duration {
    chrono::Duration::try_seconds(secs).expect("duration in range")
}

pub fn rd_dur(d: &chrono::Duration) -> MVal {
    MVal::Dur(d.num_seconds(), d.subsec_nanos())
}

// ---------------------------------------------------------------- values

pub trait IkVal: Sized {
    fn mk(v: &MVal, params: &Params) -> Self;
    fn rd(&self) -> (MVal, Params);
}

fn bare(v: MVal) -> (MVal, Params) {
    (v, Params::new())
}

impl IkVal for ikal::Text {
    fn mk(v: &MVal, params: &Params) -> Self {
        let MVal::Text(s) = v else { panic!("text from {v:?}") };
        ikal::Text { params: params.clone(), text: s.clone() }
    }
    fn rd(&self) -> (MVal, Params) {
        // the public views of a text are that text
        if **self != *self.text || self.as_ref() as &str != self.text || self.to_string() != self.text {
            return bare(MVal::Word(format!("views of {self:?} differ")));
        }
        (MVal::Text(self.text.clone()), self.params.clone())
    }
}

impl IkVal for ikal::Uri {
    fn mk(v: &MVal, params: &Params) -> Self {
        let MVal::Uri(s) = v else { panic!("uri from {v:?}") };
        ikal::Uri { params: params.clone(), uri: s.clone() }
    }
    fn rd(&self) -> (MVal, Params) {
        if **self != *self.uri || self.to_string() != self.uri {
            return bare(MVal::Word(format!("views of {self:?} differ")));
        }
        (MVal::Uri(self.uri.clone()), self.params.clone())
    }
}

impl IkVal for ikal::DateTime {
    fn mk(v: &MVal, _: &Params) -> Self {
        let MVal::D(d) = v else { panic!("date-time from {v:?}") };
        mk_datetime(d)
    }
    fn rd(&self) -> (MVal, Params) {
        bare(MVal::D(rd_datetime(self)))
    }
}

impl IkVal for ikal::Date {
    fn mk(v: &MVal, _: &Params) -> Self {
        let MVal::D(d) = v else { panic!("date from {v:?}") };
        mk_date(d)
    }
    fn rd(&self) -> (MVal, Params) {
        bare(MVal::D(rd_any(self)))
    }
}

impl IkVal for chrono::Duration {
    fn mk(v: &MVal, _: &Params) -> Self {
        let MVal::Dur(s, n) = v else { panic!("duration from {v:?}") };
        dur(*s).checked_add(&chrono::Duration::nanoseconds(i64::from(*n))).unwrap_or_else(|| dur(*s))
    }
    fn rd(&self) -> (MVal, Params) {
        bare(rd_dur(self))
    }
}

impl IkVal for u8 {
    fn mk(v: &MVal, _: &Params) -> Self {
        let MVal::U(n) = v else { panic!("u8 from {v:?}") };
        *n as u8
    }
    fn rd(&self) -> (MVal, Params) {
        bare(MVal::U(u64::from(*self)))
    }
}

impl IkVal for u32 {
    fn mk(v: &MVal, _: &Params) -> Self {
        let MVal::U(n) = v else { panic!("u32 from {v:?}") };
        *n as u32
    }
    fn rd(&self) -> (MVal, Params) {
        bare(MVal::U(u64::from(*self)))
    }
}

pub const STATUSES: [(&str, ikal::Status); 8] = [
    ("TENTATIVE", ikal::Status::Tentative),
    ("CONFIRMED", ikal::Status::Confirmed),
    ("CANCELLED", ikal::Status::Cancelled),
    ("NEEDS-ACTION", ikal::Status::NeedsAction),
    ("COMPLETED", ikal::Status::Completed),
    ("IN-PROCESS", ikal::Status::InProcess),
    ("DRAFT", ikal::Status::Draft),
    ("FINAL", ikal::Status::Final),
];

impl IkVal for ikal::Status {
    fn mk(v: &MVal, _: &Params) -> Self {
        let MVal::Word(w) = v else { panic!("status from {v:?}") };
        STATUSES.iter().find(|s| s.0 == w).expect("status").1.clone()
    }
    fn rd(&self) -> (MVal, Params) {
        use ikal::Status as S;
        bare(MVal::Word(
            match self {
                S::Tentative => "TENTATIVE",
                S::Confirmed => "CONFIRMED",
                S::Cancelled => "CANCELLED",
                S::NeedsAction => "NEEDS-ACTION",
                S::Completed => "COMPLETED",
                S::InProcess => "IN-PROCESS",
                S::Draft => "DRAFT",
                S::Final => "FINAL",
            }
            .to_string(),
        ))
    }
}

impl IkVal for ikal::TimeTransparency {
    fn mk(v: &MVal, _: &Params) -> Self {
        let MVal::Word(w) = v else { panic!("transp from {v:?}") };
        if w == "OPAQUE" { ikal::TimeTransparency::Opaque } else { ikal::TimeTransparency::Transparent }
    }
    fn rd(&self) -> (MVal, Params) {
        bare(MVal::Word(
            match self {
                ikal::TimeTransparency::Opaque => "OPAQUE",
                ikal::TimeTransparency::Transparent => "TRANSPARENT",
            }
            .to_string(),
        ))
    }
}

impl IkVal for ikal::Class {
    fn mk(v: &MVal, _: &Params) -> Self {
        let MVal::Class(w) = v else { panic!("class from {v:?}") };
        match w.as_str() {
            "PUBLIC" => ikal::Class::Public,
            "PRIVATE" => ikal::Class::Private,
            "CONFIDENTIAL" => ikal::Class::Confidential,
            w => ikal::Class::Custom(w.to_string()),
        }
    }
    fn rd(&self) -> (MVal, Params) {
        bare(MVal::Class(match self {
            ikal::Class::Public => "PUBLIC".to_string(),
            ikal::Class::Private => "PRIVATE".to_string(),
            ikal::Class::Confidential => "CONFIDENTIAL".to_string(),
            // not what a standard name is read as
            ikal::Class::Custom(s) if ["PUBLIC", "PRIVATE", "CONFIDENTIAL"].contains(&s.as_str()) => format!("custom {s}"),
            ikal::Class::Custom(s) => s.clone(),
        }))
    }
}

impl IkVal for ikal::Geo {
    fn mk(v: &MVal, _: &Params) -> Self {
        let MVal::Geo(lat, lon) = v else { panic!("geo from {v:?}") };
        ikal::Geo { lat: *lat, lon: *lon }
    }
    fn rd(&self) -> (MVal, Params) {
        bare(MVal::Geo(self.lat, self.lon))
    }
}

pub const FREQS: [(&str, ikal::Freq); 7] = [
    ("SECONDLY", ikal::Freq::Secondly),
    ("MINUTELY", ikal::Freq::Minutely),
    ("HOURLY", ikal::Freq::Hourly),
    ("DAILY", ikal::Freq::Daily),
    ("WEEKLY", ikal::Freq::Weekly),
    ("MONTHLY", ikal::Freq::Monthly),
    ("YEARLY", ikal::Freq::Yearly),
];

pub const WEEKDAYS: [(&str, ikal::Weekday); 7] = [
    ("SU", ikal::Weekday::Sunday),
    ("MO", ikal::Weekday::Monday),
    ("TU", ikal::Weekday::Tuesday),
    ("WE", ikal::Weekday::Wenesday),
    ("TH", ikal::Weekday::Thurday),
    ("FR", ikal::Weekday::Friday),
    ("SA", ikal::Weekday::Saturday),
];

pub fn rd_weekday(w: &ikal::Weekday) -> String {
    use ikal::Weekday as W;
    match w {
        W::Sunday => "SU",
        W::Monday => "MO",
        W::Tuesday => "TU",
        W::Wenesday => "WE",
        W::Thurday => "TH",
        W::Friday => "FR",
        W::Saturday => "SA",
    }
    .to_string()
}

pub fn mk_weekday(w: &str) -> ikal::Weekday {
    WEEKDAYS.iter().find(|x| x.0 == w).expect("weekday").1.clone()
}

pub fn rd_freq(f: &ikal::Freq) -> String {
    use ikal::Freq as F;
    match f {
        F::Secondly => "SECONDLY",
        F::Minutely => "MINUTELY",
        F::Hourly => "HOURLY",
        F::Daily => "DAILY",
        F::Weekly => "WEEKLY",
        F::Monthly => "MONTHLY",
        F::Yearly => "YEARLY",
    }
    .to_string()
}

pub fn mk_freq(f: &str) -> ikal::Freq {
    FREQS.iter().find(|x| x.0 == f).expect("freq").1.clone()
}

pub fn mk_recur(r: &MRecur) -> ikal::Recur {
    ikal::Recur {
        freq: mk_freq(&r.freq),
        until: r.until.as_ref().map(mk_date),
        count: r.count,
        interval: r.interval,
        by_second: r.second.clone(),
        by_minute: r.minute.clone(),
        by_hour: r.hour.clone(),
        by_day: r.day.iter().map(|(o, d)| ikal::WeekdayNum { weekday: mk_weekday(d), ord: *o }).collect(),
        by_monthday: r.monthday.clone(),
        by_yearday: r.yearday.clone(),
        by_weekno: r.weekno.clone(),
        by_month: r.month.clone(),
        by_setpos: r.setpos.clone(),
        wkst: r.wkst.as_deref().map(mk_weekday),
    }
}

pub fn rd_recur(r: &ikal::Recur) -> MRecur {
    MRecur {
        freq: rd_freq(&r.freq),
        until: r.until.as_ref().map(rd_any),
        count: r.count,
        interval: r.interval,
        second: r.by_second.clone(),
        minute: r.by_minute.clone(),
        hour: r.by_hour.clone(),
        day: r.by_day.iter().map(|d| (d.ord, rd_weekday(&d.weekday))).collect(),
        monthday: r.by_monthday.clone(),
        yearday: r.by_yearday.clone(),
        weekno: r.by_weekno.clone(),
        month: r.by_month.clone(),
        setpos: r.by_setpos.clone(),
        wkst: r.wkst.as_ref().map(rd_weekday),
    }
}

impl IkVal for ikal::Recur {
    fn mk(v: &MVal, _: &Params) -> Self {
        let MVal::Recur(r) = v else { panic!("recur from {v:?}") };
        mk_recur(r)
    }
    fn rd(&self) -> (MVal, Params) {
        bare(MVal::Recur(Box::new(rd_recur(self))))
    }
}

impl IkVal for ikal::Period {
    fn mk(v: &MVal, _: &Params) -> Self {
        match v {
            MVal::PerEnd(a, b) => ikal::Period::StartEnd(ikal::period::StartEnd { start: mk_datetime(a), end: mk_datetime(b) }),
            MVal::PerDur(a, d) => ikal::Period::StartDur(ikal::period::StartDur { start: mk_datetime(a), duration: dur(*d) }),
            v => panic!("period from {v:?}"),
        }
    }
    fn rd(&self) -> (MVal, Params) {
        bare(match self {
            ikal::Period::StartEnd(p) => MVal::PerEnd(rd_datetime(&p.start), rd_datetime(&p.end)),
            ikal::Period::StartDur(p) => {
                if p.duration.subsec_nanos() != 0 {
                    return bare(MVal::Word(format!("sub-second period {p:?}")));
                }
                MVal::PerDur(rd_datetime(&p.start), p.duration.num_seconds())
            }
        })
    }
}

impl IkVal for ikal::RDate {
    fn mk(v: &MVal, params: &Params) -> Self {
        match v {
            MVal::Dates(v) => ikal::RDate::Date(v.iter().map(mk_date).collect()),
            MVal::Periods(v) => ikal::RDate::Period(v.iter().map(|p| ikal::Period::mk(p, params)).collect()),
            v => panic!("rdate from {v:?}"),
        }
    }
    fn rd(&self) -> (MVal, Params) {
        let shown = match self {
            ikal::RDate::Date(v) => v.iter().map(ToString::to_string).collect::<Vec<_>>(),
            ikal::RDate::Period(v) => v.iter().map(ToString::to_string).collect(),
        };
        if !self.to_string().ends_with(&format!(":{}", shown.join(","))) {
            return bare(MVal::Word(format!("{self:?} is shown as {self}")));
        }
        bare(match self {
            ikal::RDate::Date(v) => MVal::Dates(v.iter().map(rd_any).collect()),
            ikal::RDate::Period(v) => MVal::Periods(v.iter().map(|p| p.rd().0).collect()),
        })
    }
}

impl IkVal for chrono::FixedOffset {
    fn mk(v: &MVal, _: &Params) -> Self {
        let MVal::Off(o) = v else { panic!("offset from {v:?}") };
        chrono::FixedOffset::east_opt(*o).expect("offset in range")
    }
    fn rd(&self) -> (MVal, Params) {
        bare(MVal::Off(self.local_minus_utc()))
    }
}

impl IkVal for ikal::Trigger {
    fn mk(v: &MVal, params: &Params) -> Self {
        match v {
            MVal::D(d) => ikal::Trigger::DateTime(mk_datetime(d)),
            v => ikal::Trigger::Duration(chrono::Duration::mk(v, params)),
        }
    }
    fn rd(&self) -> (MVal, Params) {
        bare(match self {
            ikal::Trigger::DateTime(d) => MVal::D(rd_datetime(d)),
            ikal::Trigger::Duration(d) => rd_dur(d),
        })
    }
}

impl IkVal for ikal::RequestStatus {
    fn mk(v: &MVal, _: &Params) -> Self {
        let MVal::RStat(c, d, e) = v else { panic!("request status from {v:?}") };
        ikal::RequestStatus { statcode: *c, statdesc: d.clone(), extdata: e.clone() }
    }
    fn rd(&self) -> (MVal, Params) {
        bare(MVal::RStat(self.statcode, self.statdesc.clone(), self.extdata.clone()))
    }
}

// ---------------------------------------------------------------- fields

type Vals = Vec<(MVal, Params)>;

pub trait IkField {
    fn set(&mut self, vals: &[(MVal, Params)]);
    fn get(&self) -> Vals;
}

macro_rules! plain_field {
    ($($t:ty),*) => {$(
        impl IkField for $t {
            fn set(&mut self, vals: &[(MVal, Params)]) {
                if let Some((v, p)) = vals.last() {
                    *self = <$t>::mk(v, p);
                }
            }
            fn get(&self) -> Vals {
                vec![self.rd()]
            }
        }
    )*};
}
plain_field!(ikal::Text, ikal::DateTime, ikal::Date, ikal::Trigger, chrono::FixedOffset);

impl<T: IkVal> IkField for Option<T> {
    fn set(&mut self, vals: &[(MVal, Params)]) {
        *self = vals.last().map(|(v, p)| T::mk(v, p));
    }
    fn get(&self) -> Vals {
        self.iter().map(IkVal::rd).collect()
    }
}

impl<T: IkVal> IkField for Vec<T> {
    fn set(&mut self, vals: &[(MVal, Params)]) {
        *self = vals.iter().map(|(v, p)| T::mk(v, p)).collect();
    }
    fn get(&self) -> Vals {
        self.iter().map(IkVal::rd).collect()
    }
}

// ---------------------------------------------------------------- components

/// The value of an unknown property, in every public view of it.
fn shown<L: std::fmt::Display>(l: &L, value: &str) -> String {
    let s = l.to_string();
    if s == value { s } else { format!("{value} (shown as {s:?})") }
}

pub trait IkComp: Sized {
    fn build(m: &MComp) -> Self;
    fn dump(&self) -> Dump;
    fn accepts(kind: Kind) -> bool;
}

fn vals_of(m: &MComp, name: &str) -> Vals {
    let mut v = Vals::new();
    for l in &m.lines {
        if let Body::Known(n, vals) = &l.body
            && *n == name
        {
            v.extend(vals.iter().map(|x| (x.0.clone(), l.param_map())));
        }
    }
    v
}

/// The other way to an empty component: `new()`, where there is one.
trait Fresh {
    fn fresh() -> Self;
}
macro_rules! fresh {
    ($($t:ty => $f:ident),*) => {$(
        impl Fresh for $t {
            fn fresh() -> Self {
                <$t>::$f()
            }
        }
    )*};
}
fresh!(ikal::VCalendar => new, ikal::VEvent => new, ikal::VTodo => new, ikal::VJournal => new, ikal::VFreebusy => new, ikal::VTimezone => new,
    ikal::vtimezone::Standard => default, ikal::vtimezone::Daylight => default,
    ikal::valarm::Audio => new, ikal::valarm::Display => new, ikal::valarm::Email => new);

macro_rules! comp {
    ($kind:ident, $ty:ty, [$($f:ident $name:literal),* $(,)?], [$($slot:ident),*]) => {
        impl IkComp for $ty {
            fn build(m: &MComp) -> Self {
                let mut c = if m.lines.len() % 2 == 0 { <$ty>::default() } else { <$ty as Fresh>::fresh() };
                $(c.$f.set(&vals_of(m, $name));)*
                $(c.$slot = slot(m);)*
                for l in &m.lines {
                    if let Body::Unknown(v) = &l.body {
                        let map = if l.name.starts_with("X-") { &mut c.x_prop } else { &mut c.iana_prop };
                        map.insert(l.name.clone(), v.clone().into());
                        let line = map.get_mut(&l.name).unwrap();
                        line.key.clone_from(&l.name);
                        line.params = l.param_map();
                    }
                }
                c
            }
            fn dump(&self) -> Dump {
                let mut d = Dump::new(Kind::$kind);
                $(d.fields.insert($name, self.$f.get());)*
                d.fields.retain(|_, v| !v.is_empty());
                for (k, l) in &self.x_prop {
                    d.x.insert(k.clone(), (l.params.clone(), shown(l, &l.value)));
                }
                for (k, l) in &self.iana_prop {
                    d.iana.insert(k.clone(), (l.params.clone(), shown(l, &l.value)));
                }
                $(if !self.$slot.is_empty() {
                    d.slots.insert(stringify!($slot), self.$slot.iter().map(IkComp::dump).collect());
                })*
                d
            }
            fn accepts(kind: Kind) -> bool {
                kind == Kind::$kind
            }
        }
    };
}

fn slot<T: IkComp>(m: &MComp) -> Vec<T> {
    m.kids.iter().filter(|k| T::accepts(k.kind)).map(T::build).collect()
}

impl IkComp for ikal::VAlarm {
    fn build(m: &MComp) -> Self {
        match m.kind {
            Kind::Audio => ikal::VAlarm::Audio(IkComp::build(m)),
            Kind::Display => ikal::VAlarm::Display(IkComp::build(m)),
            Kind::Email => ikal::VAlarm::Email(IkComp::build(m)),
            k => panic!("alarm from {k:?}"),
        }
    }
    fn dump(&self) -> Dump {
        match self {
            ikal::VAlarm::Audio(a) => a.dump(),
            ikal::VAlarm::Display(a) => a.dump(),
            ikal::VAlarm::Email(a) => a.dump(),
        }
    }
    fn accepts(kind: Kind) -> bool {
        kind.is_alarm()
    }
}

comp!(VCalendar, ikal::VCalendar,
    [prodid "PRODID", version "VERSION", calscale "CALSCALE", method "METHOD"],
    [alarms, events, freebusy, journals, todo, timezones]);
comp!(VEvent, ikal::VEvent,
    [dtstamp "DTSTAMP", uid "UID", dtstart "DTSTART", class "CLASS", created "CREATED",
     description "DESCRIPTION", geo "GEO", last_modified "LAST-MODIFIED", location "LOCATION",
     organizer "ORGANIZER", priority "PRIORITY", sequence "SEQUENCE", status "STATUS",
     summary "SUMMARY", transp "TRANSP", url "URL", recurid "RECURID", rrule "RRULE",
     dtend "DTEND", duration "DURATION", attach "ATTACH", attendee "ATTENDEE",
     categories "CATEGORIES", comment "COMMENT", contact "CONTACT", exdate "EXDATE",
     rstatus "RSTATUS", related_to "RELATED-TO", resources "RESOURCES", rdate "RDATE"],
    [alarms]);
comp!(VTodo, ikal::VTodo,
    [dtstamp "DTSTAMP", uid "UID", class "CLASS", completed "COMPLETED", created "CREATED",
     dtstart "DTSTART", geo "GEO", last_modified "LAST-MODIFIED", location "LOCATION",
     organizer "ORGANIZER", percent_complete "PERCENT-COMPLETE", priority "PRIORITY",
     recurid "RECURID", sequence "SEQUENCE", status "STATUS", summary "SUMMARY", url "URL",
     rrule "RRULE", due "DUE", duration "DURATION", attach "ATTACH", attendee "ATTENDEE",
     categories "CATEGORIES", comment "COMMENT", contact "CONTACT", exdate "EXDATE",
     rstatus "RSTATUS", related_to "RELATED-TO", resources "RESOURCES", rdate "RDATE"],
    []);
comp!(VJournal, ikal::VJournal,
    [dtstamp "DTSTAMP", uid "UID", class "CLASS", created "CREATED", dtstart "DTSTART",
     last_modified "LAST-MODIFIED", organizer "ORGANIZER", recurid "RECURID", sequence "SEQUENCE",
     status "STATUS", summary "SUMMARY", url "URL", rrule "RRULE", attach "ATTACH",
     attendee "ATTENDEE", categories "CATEGORIES", comment "COMMENT", contact "CONTACT",
     description "DESCRIPTION", exdate "EXDATE", related_to "RELATED-TO", rdate "RDATE",
     rstatus "RSTATUS"],
    []);
comp!(VFreebusy, ikal::VFreebusy,
    [dtstamp "DTSTAMP", uid "UID", contact "CONTACT", dtstart "DTSTART", dtend "DTEND",
     organizer "ORGANIZER", url "URL", attendee "ATTENDEE", comment "COMMENT",
     freebusy "FREEBUSY", rstatus "RSTATUS"],
    []);
comp!(VTimezone, ikal::VTimezone,
    [tzid "TZID", last_modified "LAST-MODIFIED", tzurl "TZURL"],
    [standard, daylight]);
comp!(Standard, ikal::vtimezone::Standard,
    [dtstart "DTSTART", tzoffsetto "TZOFFSETTO", tzoffsetfrom "TZOFFSETFROM", rrule "RRULE",
     comment "COMMENT", rdate "RDATE", tzname "TZNAME"],
    []);
comp!(Daylight, ikal::vtimezone::Daylight,
    [dtstart "DTSTART", tzoffsetto "TZOFFSETTO", tzoffsetfrom "TZOFFSETFROM", rrule "RRULE",
     comment "COMMENT", rdate "RDATE", tzname "TZNAME"],
    []);
comp!(Audio, ikal::valarm::Audio,
    [action "ACTION", trigger "TRIGGER", duration "DURATION", repeat "REPEAT", attach "ATTACH"], []);
comp!(Display, ikal::valarm::Display,
    [action "ACTION", trigger "TRIGGER", description "DESCRIPTION", duration "DURATION",
     repeat "REPEAT"], []);
comp!(Email, ikal::valarm::Email,
    [action "ACTION", trigger "TRIGGER", description "DESCRIPTION", summary "SUMMARY",
     attendee "ATTENDEE", duration "DURATION", repeat "REPEAT", attach "ATTACH"], []);

/// Any component of ikal, so that all kinds can be driven alike.
#[derive(Clone, Debug, PartialEq)]
pub enum Any {
    VCalendar(ikal::VCalendar),
    VEvent(ikal::VEvent),
    VTodo(ikal::VTodo),
    VJournal(ikal::VJournal),
    VFreebusy(ikal::VFreebusy),
    VTimezone(ikal::VTimezone),
    Standard(ikal::vtimezone::Standard),
    Daylight(ikal::vtimezone::Daylight),
    Audio(ikal::valarm::Audio),
    Display(ikal::valarm::Display),
    Email(ikal::valarm::Email),
    VAlarm(ikal::VAlarm),
}

macro_rules! each {
    ($s:expr, $c:ident => $e:expr) => {
        match $s {
            Any::VCalendar($c) => $e,
            Any::VEvent($c) => $e,
            Any::VTodo($c) => $e,
            Any::VJournal($c) => $e,
            Any::VFreebusy($c) => $e,
            Any::VTimezone($c) => $e,
            Any::Standard($c) => $e,
            Any::Daylight($c) => $e,
            Any::Audio($c) => $e,
            Any::Display($c) => $e,
            Any::Email($c) => $e,
            Any::VAlarm($c) => $e,
        }
    };
}

/// How a text is handed to the parser.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    FromStr,
    TryFromStr,
    TryFromString,
}

pub const VIAS: [Via; 3] = [Via::FromStr, Via::TryFromStr, Via::TryFromString];

fn go<T>(s: &str, via: Via) -> ikal::Result<T>
where
    T: std::str::FromStr<Err = ikal::Error> + for<'a> TryFrom<&'a str, Error = ikal::Error> + TryFrom<String, Error = ikal::Error>,
{
    match via {
        Via::FromStr => s.parse(),
        Via::TryFromStr => T::try_from(s),
        Via::TryFromString => T::try_from(s.to_string()),
    }
}

impl Any {
    /// Parses as a component of this kind; alarms through their own type, or VAlarm if `valarm`.
    pub fn parse(kind: Kind, valarm: bool, s: &str, via: Via) -> ikal::Result<Self> {
        if valarm && kind.is_alarm() {
            return go(s, via).map(Any::VAlarm);
        }
        Ok(match kind {
            Kind::VCalendar => Any::VCalendar(go(s, via)?),
            Kind::VEvent => Any::VEvent(go(s, via)?),
            Kind::VTodo => Any::VTodo(go(s, via)?),
            Kind::VJournal => Any::VJournal(go(s, via)?),
            Kind::VFreebusy => Any::VFreebusy(go(s, via)?),
            Kind::VTimezone => Any::VTimezone(go(s, via)?),
            Kind::Standard => Any::Standard(go(s, via)?),
            Kind::Daylight => Any::Daylight(go(s, via)?),
            Kind::Audio => Any::Audio(go(s, via)?),
            Kind::Display => Any::Display(go(s, via)?),
            Kind::Email => Any::Email(go(s, via)?),
        })
    }

    pub fn build(m: &MComp, valarm: bool) -> Self {
        if valarm && m.kind.is_alarm() {
            return Any::VAlarm(IkComp::build(m));
        }
        match m.kind {
            Kind::VCalendar => Any::VCalendar(IkComp::build(m)),
            Kind::VEvent => Any::VEvent(IkComp::build(m)),
            Kind::VTodo => Any::VTodo(IkComp::build(m)),
            Kind::VJournal => Any::VJournal(IkComp::build(m)),
            Kind::VFreebusy => Any::VFreebusy(IkComp::build(m)),
            Kind::VTimezone => Any::VTimezone(IkComp::build(m)),
            Kind::Standard => Any::Standard(IkComp::build(m)),
            Kind::Daylight => Any::Daylight(IkComp::build(m)),
            Kind::Audio => Any::Audio(IkComp::build(m)),
            Kind::Display => Any::Display(IkComp::build(m)),
            Kind::Email => Any::Email(IkComp::build(m)),
        }
    }

    pub fn dump(&self) -> Dump {
        each!(self, c => c.dump())
    }

    pub fn ser(&self) -> ikal::Result<String> {
        each!(self, c => ikal::ser::ical(c))
    }

    pub fn kind(&self) -> Kind {
        self.dump().kind
    }
}

/// Parses under guard; a panic is Err(text).
pub fn parse(kind: Kind, valarm: bool, s: &str, via: Via) -> Result<ikal::Result<Any>, String> {
    crate::mon::guard("parsing", || Any::parse(kind, valarm, s, via))
}

/// Serialises under guard; a panic or an error is Err(text).
pub fn ser(c: &Any) -> Result<String, String> {
    match crate::mon::guard("serialising", || c.ser())? {
        Ok(s) => Ok(s),
        Err(e) => Err(format!("serialising returned an error: {e}")),
    }
}

pub fn leap_nanos(leap: bool) -> u32 {
    if leap { LEAP } else { 0 }
}

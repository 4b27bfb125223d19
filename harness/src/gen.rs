//! Workload generation: components, values and texts, biased towards boundaries.

use crate::cal;
use crate::model::{Body, Card, Dt, Field, Kind, LEAP, MComp, MLine, MRecur, MVal, Ty, fields};
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// Texts in RFC 5545 escaped form.
    Wire,
    /// Any characters a single line can carry, escaped or not.
    Raw,
    /// Any characters but backslashes, line breaks included (for the builder).
    Plain,
    /// Anything at all (for the builder).
    Hostile,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub mode: Mode,
    /// UTC date-times allowed.
    pub utc: bool,
    pub leap: bool,
    pub years: (i64, i64),
    /// Custom classes are upper-case tokens.
    pub tame_class: bool,
    /// Repeated single-valued properties allowed.
    pub repeat: bool,
    /// Extra parameters on typed properties.
    pub typed_params: bool,
    /// Date values written in several equivalent ways, durations with all units, and so on.
    pub variants: bool,
    pub depth: bool,
    pub max_list: usize,
}

impl Opts {
    pub fn doc(utc: bool) -> Self {
        Opts {
            mode: Mode::Wire,
            utc,
            leap: true,
            years: (0, 9999),
            tame_class: false,
            repeat: true,
            typed_params: true,
            variants: true,
            depth: true,
            max_list: 6,
        }
    }

    /// For components built through the public fields.
    pub fn built(mode: Mode, utc: bool) -> Self {
        Opts { mode, typed_params: false, repeat: false, variants: false, ..Opts::doc(utc) }
    }
}

pub const MAX_DUR: i64 = i64::MAX / 1000;

// ---------------------------------------------------------------- texts

const WIDE: &[char] = &[
    'é', 'ß', 'Ω', 'ж', 'א', '\u{301}', '中', '文', '€', '\u{2028}', '\u{feff}', '😀', '👩', '\u{200d}',
    '\u{10ffff}', '\u{85}', '\u{a0}', '\u{fffd}', 'ǅ', 'İ', 'ﬀ',
];
const WORDS: &[&str] = &[
    "Meeting", "a", "to", "Réunion", "http://example.com/a?b=c", "BEGIN:VEVENT", "END:VCALENDAR", "DTSTART", "X-A",
    "=", ":", "\"", "'", "%0A", "2024", "-", "/", "P1D", "VALUE=DATE", "n", "N", "日本語", " ", "  ", "mailto:x@y.z",
];

/// Values which someone might take for another spelling of something.
pub const SPELLINGS: &[&str] = &[
    "MAILTO:Jane@Example.COM", "Mailto:jane@EXAMPLE.com", "mailto:Jane%20Doe@example.com", "HTTP://EXAMPLE.com:80/%7Efoo/../bar/", "http://example.com", "http://example.com/",
    "https://example.com//a//b/./c?x=1&amp;y=2#", "http://example.com/%c3%a9%C3%A9", "CID:part1.0001@Example.org", "URN:UUID:550E8400-E29B-41D4-A716-446655440000",
    "urn:uuid:550e8400-e29b-41d4-a716-446655440000", "ldap://example.com:6666/o=ABC%20Industries,c=US???(cn=Jim%20Dolittle)", "ftp://ftp.example.com/a;type=i", "/relative/path",
    "file:///C:\\Temp", "data:text/plain;base64,QUJD", "TRUE", "true", "FALSE", "007", "+7", "-0", "1.0", "1e3", "0x10", "null", "a  b", "a   b", " a", "a ", "\ta", "a\t", "A", "a\u{301}", "\u{e1}",
    "e\u{301}\u{327}", "\u{fb01}", "\u{2126}", "\u{212b}", "Straße", "STRASSE", "İstanbul", "ıI", "&lt;b&gt;", "&#233;", "<b>x</b>", "it's", "it’s", "“quoted”", "...", "…", "--", "–", "a\u{a0}b",
    "a\u{200b}b", "\u{200f}rtl", "\u{feff}bom", "soft\u{ad}hyphen", "100%", "%25", "%0d%0a", "+1 555", "a+b", "C:\\\\n", "{}", "$x", "x~y", "`", "#", "?", "*", "Europe/Paris", "America\\,New_York",
    "20240101", "20240101T000000Z", "P1D", "-PT15M", "+0100", "FREQ=DAILY", "MO", "AUDIO", "CONFIRMED", "PUBLIC", "2.0", "-//A//B//EN", "GREGORIAN", "gregorian",
];

/// A target length: short mostly, around the folding width often, sometimes long.
pub fn length(r: &mut Rng) -> usize {
    match r.below(20) {
        0 => 0,
        1..=11 => r.us(20),
        12..=15 => 55 + r.us(40),
        16..=17 => 130 + r.us(30),
        18 => r.us(400),
        _ => 1 + r.us(2),
    }
}

pub fn text(r: &mut Rng, mode: Mode) -> String {
    if r.chance(1, 12) && matches!(mode, Mode::Wire | Mode::Raw) {
        let s = *r.pick(SPELLINGS);
        // escaped, where it has to be
        if mode == Mode::Raw || !s.contains([',', ';', '\\']) || s.contains("\\,") {
            return s.to_string();
        }
    }
    let target = length(r);
    text_len(r, mode, target)
}

pub fn text_len(r: &mut Rng, mode: Mode, target: usize) -> String {
    let mut s = String::new();
    // some texts are dense in one kind of piece
    let dense = r.below(8);
    while s.len() < target {
        let k = if dense < 2 { 3 } else if dense == 2 { 2 } else { r.below(8) };
        match k {
            0 | 1 => s.push_str(r.pick(WORDS)),
            2 => s.push(*r.pick(WIDE)),
            3 => piece(r, mode, &mut s),
            4 => s.push(' '),
            _ => s.push((b'a' + r.below(26) as u8) as char),
        }
    }
    if mode == Mode::Plain {
        s.retain(|c| c != '\\');
    }
    s
}

fn piece(r: &mut Rng, mode: Mode, s: &mut String) {
    match mode {
        Mode::Wire => s.push_str(r.pick(&["\\\\", "\\;", "\\,", "\\n", "\\N", "\"", ":", "\t", " ", "="])),
        Mode::Raw => s.push_str(r.pick(&[
            "\\\\", "\\;", "\\,", "\\n", ";", ",", "\\", "\"", ":", "\t", " ", "=", "\u{0}", "\u{7f}", "\u{b}", "\u{c}", "\u{1b}",
        ])),
        Mode::Plain => s.push_str(r.pick(&[";", ",", "\n", "\r\n", "\r", "\"", ":", "\t", " ", "=", "n", "\n ", "\r\n\t"])),
        Mode::Hostile => s.push_str(r.pick(&[
            "\\\\", "\\;", "\\,", "\\n", ";", ",", "\\", "\"", ":", "\t", " ", "=", "\u{0}", "\n", "\r", "\r\n",
            "\r\nX-EVIL:1", "\r\nEND:VEVENT\r\n", "\nATTACH:x", "\\\n", "\\\r\n", "\r\n ", "\u{b}", "\u{c}", "\u{1e}",
            "\";X=\"", "\\\\\\", "^n", "\":", "\r\nBEGIN:VALARM",
        ])),
    }
}

pub fn uri(r: &mut Rng, mode: Mode) -> String {
    match r.below(5) {
        4 if matches!(mode, Mode::Wire | Mode::Raw) => (*r.pick(SPELLINGS)).to_string(),
        0 => format!("mailto:{}@example.com", word(r, 8)),
        1 => format!("http://example.com/{}?a=1,2;b=\\x#{}", word(r, 60), word(r, 30)),
        _ => match mode {
            Mode::Wire | Mode::Raw => text(r, Mode::Raw),
            m => text(r, m),
        },
    }
}

pub fn word(r: &mut Rng, max: usize) -> String {
    let n = 1 + r.us(max);
    (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}

pub fn token(r: &mut Rng, max: usize) -> String {
    let n = 1 + r.us(max);
    (0..n).map(|_| *r.pick(&['A', 'B', 'Z', 'E', 'X', '0', '9', '-'])).collect()
}

// ---------------------------------------------------------------- parameters

const PNAMES: &[&str] = &[
    "LANGUAGE", "ALTREP", "CN", "X-P", "TZID", "ROLE", "FMTTYPE", "RSVP", "PARTSTAT", "x-low", "X-1", "SENT-BY", "DIR", "ENCODING", "A", "VALUE",
];

pub fn param(r: &mut Rng, used: &mut Vec<String>, mode: Mode) -> Option<(String, String, bool)> {
    let name = if r.chance(4, 5) { (*r.pick(PNAMES)).to_string() } else { format!("X-{}", token(r, 12)) };
    if used.contains(&name) {
        return None;
    }
    used.push(name.clone());
    let n = if r.chance(1, 6) { 60 + r.us(60) } else { r.us(14) };
    let mut v = String::new();
    let built = matches!(mode, Mode::Plain | Mode::Hostile);
    let quoted = !built && r.chance(1, 2);
    while v.len() < n {
        match r.below(7) {
            0 => v.push(*r.pick(WIDE)),
            1 if quoted || built => v.push_str(r.pick(&[":", ";", ",", "\\", "=", ";X-Q=", "://", "\\n", "^", "'"])),
            1 => v.push_str(r.pick(&[",", "\\", "=", "^n", "'", "\\n", "-", "/"])),
            2 if mode == Mode::Hostile => v.push_str(r.pick(&["\"", "\r\n", "\n", "\r", "\u{0}", "\r\n ", "\"\r\nX:", "\\\""])),
            3 => v.push(' '),
            _ => v.push((b'A' + r.below(26) as u8) as char),
        }
    }
    Some((name, v, quoted))
}

pub fn params(r: &mut Rng, mode: Mode) -> Vec<(String, String, bool)> {
    let mut used = Vec::new();
    let n = if r.chance(1, 2) { 0 } else { r.small(5) };
    let mut v = Vec::new();
    for _ in 0..n {
        if let Some(p) = param(r, &mut used, mode) {
            v.push(p);
        }
    }
    v
}

// ---------------------------------------------------------------- dates

/// Days worth hitting: DST changes of several zones, month ends, leap days, century ends.
const DAYS: &[(i64, i64, i64)] = &[
    (2024, 3, 10), (2024, 11, 3), (2024, 3, 31), (2024, 10, 27), (2023, 3, 26), (2011, 12, 30), (2011, 12, 29), (1994, 12, 31),
    (2024, 2, 29), (2023, 2, 28), (2000, 2, 29), (1900, 2, 28), (2100, 2, 28), (2400, 2, 29), (1999, 12, 31), (2000, 1, 1),
    (1970, 1, 1), (1969, 12, 31), (2038, 1, 19), (1901, 12, 13), (1883, 11, 18), (2007, 3, 11), (2024, 4, 7), (2024, 10, 6), (1582, 10, 15), (1752, 9, 2),
];

pub fn day(r: &mut Rng, o: &Opts) -> i64 {
    let (lo, hi) = (cal::days(o.years.0, 1, 1), cal::days(o.years.1, 12, 31));
    let d = match r.below(10) {
        0 => {
            let (y, m, d) = *r.pick(DAYS);
            cal::days(y, m, d) + r.range(-1, 1)
        }
        1 => *r.pick(&[lo, hi, lo + 1, hi - 1, cal::days(o.years.1, 2, 28), cal::days(o.years.0 + 1, 1, 1)]),
        2 | 3 => r.range(lo, hi),
        4 => {
            let y = r.range(o.years.0, o.years.1);
            let m = r.range(1, 12);
            cal::days(y, m, cal::days_in_month(y, m))
        }
        _ => r.range(cal::days(1950, 1, 1), cal::days(2050, 1, 1)),
    };
    d.clamp(lo, hi)
}

pub fn time(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => 0,
        1 => cal::DAY - 1,
        2 => r.range(0, 23) * 3600,
        3 => r.range(0, 4 * 60) * 60,
        _ => r.range(0, cal::DAY - 1),
    }
}

fn nanos(r: &mut Rng, o: &Opts, s: i64) -> u32 {
    if o.leap && s.rem_euclid(60) == 59 && r.chance(1, 3) { LEAP } else { 0 }
}

pub fn datetime(r: &mut Rng, o: &Opts) -> Dt {
    let s = day(r, o) * cal::DAY + time(r);
    let n = nanos(r, o, s);
    if o.utc && r.chance(1, 2) { Dt::Utc(s, n) } else { Dt::Naive(s, n) }
}

pub fn date(r: &mut Rng, o: &Opts) -> Dt {
    if r.chance(1, 3) { Dt::Date(day(r, o)) } else { datetime(r, o) }
}

// ---------------------------------------------------------------- durations

/// Seconds and one way to write them.
pub fn duration(r: &mut Rng, o: &Opts) -> (i64, String) {
    if !o.variants || r.chance(1, 4) {
        let s = match r.below(8) {
            0 => 0,
            1 => *r.pick(&[MAX_DUR, -MAX_DUR, MAX_DUR - 1, 86_400, -86_400, 604_800]),
            2 => r.range(-MAX_DUR, MAX_DUR),
            3 => r.range(0, 400) * cal::DAY,
            _ => r.range(-200_000, 200_000),
        };
        return (s, crate::model::dur_wire(s));
    }
    let n = |r: &mut Rng| match r.below(6) {
        0 => 0,
        1 => r.range(0, 100_000),
        _ => r.range(0, 99),
    };
    let mut w = String::new();
    let mut total = 0;
    let pad = r.chance(1, 6);
    let mut part = |r: &mut Rng, w: &mut String, unit: char, secs: i64| {
        let v = n(r);
        if pad {
            w.push_str(&format!("{v:02}{unit}"));
        } else {
            w.push_str(&format!("{v}{unit}"));
        }
        total += v * secs;
    };
    w.push('P');
    match r.below(7) {
        0 => part(r, &mut w, 'W', 7 * cal::DAY),
        1 => part(r, &mut w, 'D', cal::DAY),
        k => {
            if k == 2 || k == 3 {
                part(r, &mut w, 'D', cal::DAY);
            }
            w.push('T');
            match r.below(6) {
                0 => part(r, &mut w, 'H', 3600),
                1 => part(r, &mut w, 'M', 60),
                2 => part(r, &mut w, 'S', 1),
                3 => {
                    part(r, &mut w, 'H', 3600);
                    part(r, &mut w, 'M', 60);
                }
                4 => {
                    part(r, &mut w, 'M', 60);
                    part(r, &mut w, 'S', 1);
                }
                _ => {
                    part(r, &mut w, 'H', 3600);
                    part(r, &mut w, 'M', 60);
                    part(r, &mut w, 'S', 1);
                }
            }
        }
    }
    match r.below(4) {
        0 => (-total, format!("-{w}")),
        1 => (total, format!("+{w}")),
        _ => (total, w),
    }
}

pub fn period(r: &mut Rng, o: &Opts) -> (MVal, String) {
    let start = datetime(r, o);
    if r.chance(1, 2) {
        // same kind of time, any order of magnitude apart
        let end = match start {
            Dt::Utc(s, _) => Dt::Utc(near(r, o, s), 0),
            Dt::Naive(s, _) => Dt::Naive(near(r, o, s), 0),
            Dt::Date(_) => unreachable!(),
        };
        let v = MVal::PerEnd(start, end);
        let w = v.wire();
        (v, w)
    } else {
        let (mut d, mut w) = duration(r, o);
        if w.starts_with('-') {
            // periods have positive durations
            d = -d;
            w.remove(0);
        }
        (MVal::PerDur(start, d), format!("{}/{w}", start.wire()))
    }
}

fn near(r: &mut Rng, o: &Opts, s: i64) -> i64 {
    let (lo, hi) = (cal::days(o.years.0, 1, 1) * cal::DAY, cal::days(o.years.1, 12, 31) * cal::DAY + cal::DAY - 1);
    let d = match r.below(4) {
        0 => r.range(0, 7200),
        1 => r.range(0, 3) * cal::DAY,
        2 => r.range(0, 1_000_000_000),
        _ => r.range(0, cal::DAY),
    };
    (s + d).clamp(lo, hi)
}

// ---------------------------------------------------------------- rules

pub fn recur(r: &mut Rng, o: &Opts) -> MRecur {
    let mut m = MRecur::new(crate::ik::FREQS[r.us(7)].0);
    let i8s = |r: &mut Rng, lo: i64, hi: i64| -> Vec<i8> {
        let n = if r.chance(1, 20) { 130 } else { 1 + r.small(8) };
        (0..n)
            .map(|_| {
                let k = r.range(lo, hi) as i8;
                if k == 0 && lo != 0 { 1 } else { k }
            })
            .collect()
    };
    let least = if o.variants { 1 } else { 0 };
    match r.below(3) {
        0 => m.until = Some(date(r, o)),
        1 => m.count = Some(r.range(least, 255) as u8),
        _ => {}
    }
    if r.chance(1, 10) {
        m.until = Some(date(r, o));
        m.count = Some(r.range(least, 255) as u8);
    }
    if r.chance(1, 2) {
        m.interval = r.range(least, 255) as u8;
    }
    let p = r.below(4);
    let has = |r: &mut Rng| r.chance(p, 6);
    if has(r) {
        m.second = i8s(r, 0, 60);
    }
    if has(r) {
        m.minute = i8s(r, 0, 59);
    }
    if has(r) {
        m.hour = i8s(r, 0, 23);
    }
    if has(r) {
        let n = 1 + r.small(8);
        m.day = (0..n)
            .map(|_| {
                let ord = if r.chance(1, 2) { Some(loop { let k = r.range(-53, 53) as i8; if k != 0 { break k } }) } else { None };
                (ord, crate::ik::WEEKDAYS[r.us(7)].0.to_string())
            })
            .collect();
    }
    if has(r) {
        m.monthday = i8s(r, -31, 31);
    }
    if has(r) {
        m.yearday = i8s(r, -128, 127);
    }
    if has(r) {
        m.weekno = i8s(r, -53, 53);
    }
    if has(r) {
        m.month = i8s(r, 1, 12);
    }
    if has(r) {
        m.setpos = i8s(r, -128, 127);
    }
    if has(r) {
        m.wkst = Some(crate::ik::WEEKDAYS[r.us(7)].0.to_string());
    }
    m
}

/// A rule written with its parts in any order; an interval of one may be left out.
pub fn recur_wire(r: &mut Rng, m: &MRecur, variants: bool) -> String {
    let drop = variants && r.chance(2, 3);
    let mut parts: Vec<String> = m
        .parts()
        .into_iter()
        .filter(|(k, v)| !(drop && *k == "INTERVAL" && v == "1"))
        .map(|(k, v)| format!("{k}={v}"))
        .collect();
    if variants && r.chance(1, 2) {
        r.shuffle(&mut parts);
    }
    let mut s = parts.join(";");
    if variants && r.chance(1, 12) {
        // positive numbers may carry a sign
        s = s.replace("BYMONTHDAY=1", "BYMONTHDAY=+1").replace("BYDAY=1", "BYDAY=+1");
    }
    s
}

// ---------------------------------------------------------------- values

pub fn float(r: &mut Rng) -> f32 {
    match r.below(6) {
        0 => r.range(-180, 180) as f32,
        1 => 0.0,
        2 => (r.range(-180_000_000, 180_000_000) as f64 / 1e6) as f32,
        3 => *r.pick(&[90.0, -90.0, 180.0, -180.0, 0.1, -0.1, 1e-7, 37.386_013, -122.082_93]),
        _ => (r.range(-1800, 1800) as f64 / 10.0) as f32,
    }
}

pub fn statcode(r: &mut Rng) -> f32 {
    let a = 1 + r.below(5);
    let top = if r.chance(1, 4) { 100 } else { 10 };
    let b = r.below(top);
    format!("{a}.{b}").parse().unwrap()
}

/// One value of this type with a text for it; `kind` decides alarm actions.
pub fn value(r: &mut Rng, o: &Opts, kind: Kind, ty: Ty) -> (MVal, String) {
    let plain = |v: MVal| {
        let w = v.wire();
        (v, w)
    };
    match ty {
        Ty::Text => plain(MVal::Text(text(r, o.mode))),
        Ty::Action => plain(MVal::Text(kind.action().to_string())),
        Ty::Uri => plain(MVal::Uri(uri(r, o.mode))),
        Ty::DateTime => plain(MVal::D(datetime(r, o))),
        Ty::Date => plain(MVal::D(date(r, o))),
        Ty::Dur => {
            let (s, w) = duration(r, o);
            (MVal::Dur(s, 0), w)
        }
        Ty::Pri => plain(MVal::U(r.below(10))),
        Ty::Pct => plain(MVal::U(if r.chance(1, 4) { r.below(256) } else { r.below(101) })),
        Ty::U32 => plain(MVal::U(match r.below(4) {
            0 => u64::from(u32::MAX) - r.below(2),
            1 => r.below(1 << 32),
            _ => r.below(20),
        })),
        Ty::Status => plain(MVal::Word(crate::ik::STATUSES[r.us(8)].0.to_string())),
        Ty::Transp => plain(MVal::Word((*r.pick(&["OPAQUE", "TRANSPARENT"])).to_string())),
        Ty::Class => plain(MVal::Class(match r.below(6) {
            0 => "PUBLIC".to_string(),
            1 => "PRIVATE".to_string(),
            2 => "CONFIDENTIAL".to_string(),
            3 => format!("X-{}", token(r, 10)),
            4 => token(r, 90),
            _ if o.tame_class => token(r, 5),
            _ => match o.mode {
                Mode::Wire => format!("{}{}", token(r, 3), word(r, 5)),
                m => text(r, m),
            },
        })),
        Ty::Geo => {
            let v = MVal::Geo(float(r), float(r));
            let w = match &v {
                MVal::Geo(a, b) if o.variants && r.chance(1, 3) => format!("{a:.6};{b:.6}"),
                v => v.wire(),
            };
            // the text decides the value
            let (a, b) = w.split_once(';').unwrap();
            (MVal::Geo(a.parse().unwrap(), b.parse().unwrap()), w)
        }
        Ty::Recur => {
            let m = recur(r, o);
            let w = recur_wire(r, &m, o.variants);
            (MVal::Recur(Box::new(m)), w)
        }
        Ty::RDate => {
            let n = if r.chance(1, 60) { 200 } else { 1 + r.small(o.max_list) };
            if r.chance(1, 3) {
                let (mut vs, mut ws) = (vec![], vec![]);
                for _ in 0..n {
                    let (v, w) = period(r, o);
                    vs.push(v);
                    ws.push(w);
                }
                (MVal::Periods(vs), ws.join(","))
            } else if r.chance(1, 2) {
                plain(MVal::Dates((0..n).map(|_| Dt::Date(day(r, o))).collect()))
            } else {
                plain(MVal::Dates((0..n).map(|_| datetime(r, o)).collect()))
            }
        }
        Ty::Offset => plain(MVal::Off(60 * r.range(-23 * 60 - 59, 23 * 60 + 59) as i32)),
        Ty::Trigger => {
            if r.chance(1, 2) {
                plain(MVal::D(datetime(r, o)))
            } else {
                let (s, w) = duration(r, o);
                (MVal::Dur(s, 0), w)
            }
        }
        Ty::RStatus => {
            let d = text(r, o.mode);
            let d = if o.mode == Mode::Raw { d.replace([';', '\\'], "_") } else { d };
            let e = if r.chance(1, 2) {
                let e = text(r, o.mode);
                Some(if o.mode == Mode::Raw { e.replace([';', '\\'], "_") } else { e })
            } else {
                None
            };
            plain(MVal::RStat(statcode(r), d, e))
        }
        Ty::Period => period(r, o),
    }
}

/// The parameter a value needs to be understood.
pub fn needed_param(v: &MVal) -> Option<(String, String, bool)> {
    match v {
        MVal::Periods(_) => Some(("VALUE".into(), "PERIOD".into(), false)),
        _ => None,
    }
}

/// A line for a recognised property.
pub fn known(r: &mut Rng, o: &Opts, kind: Kind, f: &'static Field) -> MLine {
    let n = if f.card == Card::App {
        if r.chance(1, 60) { 128 + r.us(100) } else { 1 + r.small(o.max_list) }
    } else {
        1
    };
    known_n(r, o, kind, f, n)
}

fn known_n(r: &mut Rng, o: &Opts, kind: Kind, f: &'static Field, n: usize) -> MLine {
    let mut vals: Vec<(MVal, String)> = (0..n).map(|_| value(r, o, kind, f.ty)).collect();
    if f.card == Card::App && f.ty == Ty::Text {
        // bare commas and dangling backslashes would change the list
        if o.mode == Mode::Raw {
            for (v, w) in &mut vals {
                *w = w.replace([',', '\\'], "_");
                *v = MVal::Text(w.clone());
            }
        }
    }
    let typed = !(matches!(f.ty, Ty::Text | Ty::Uri | Ty::Action) && f.card != Card::App);
    let mut ps = Vec::new();
    if let Some(p) = needed_param(&vals[0].0) {
        if !matches!(o.mode, Mode::Plain | Mode::Hostile) {
            ps.push(p);
        }
    }
    if typed {
        if o.typed_params && ps.is_empty() && r.chance(1, 4) {
            match &vals[0].0 {
                MVal::D(Dt::Date(_)) if vals.iter().all(|v| matches!(v.0, MVal::D(Dt::Date(_)))) => {
                    ps.push(("VALUE".into(), "DATE".into(), false));
                }
                MVal::D(_) if r.chance(1, 2) => ps.push(("TZID".into(), "Europe/Paris".into(), r.chance(1, 2))),
                MVal::Dates(v) if v.iter().all(|d| matches!(d, Dt::Date(_))) => ps.push(("VALUE".into(), "DATE".into(), false)),
                MVal::Dates(_) => {}
                _ => ps = params(r, o.mode).into_iter().filter(|p| p.0 != "VALUE").collect(),
            }
        }
    } else {
        ps.extend(params(r, o.mode));
    }
    MLine { name: f.name.to_string(), body: Body::Known(f.name, vals), params: ps }
}

const UNKNOWN: &[&str] = &[
    "X-WR-CALNAME", "X-A", "X-B", "X-APPLE-STRUCTURED-LOCATION", "COLOR", "IMAGE", "NAME", "REFRESH-INTERVAL", "CONFERENCE", "SUM",
    "SUMMARYX", "DTSTART2", "BEGINX", "END-X", "X", "XFOO", "x-low", "summary", "X-BEGIN", "ATTACHMENT", "UI", "UIDS", "A1", "1A", "A/B", "-", "X-",
    "DUE-X", "VERSIO", "ACTIONS",
];

/// A name which is nearly one that means something.
fn near_name(r: &mut Rng, kind: Kind) -> String {
    let k = if r.chance(1, 2) { kind } else { crate::model::KINDS[r.us(11)] };
    let name = if r.chance(1, 4) { format!("X-{}", token(r, 6)) } else { r.pick(fields(k)).name.to_string() };
    let b: Vec<char> = name.chars().collect();
    let i = r.us(b.len());
    let cut = |from: usize, to: usize| b[from..to].iter().collect::<String>();
    let c = *r.pick(&['X', '-', '/', 'S', '1', 'a']);
    match r.below(10) {
        0 => format!("{}{name}", r.pick(&["X", "A", "IX-", "FAX-", "X-", "x-", "-X-", "VX-", "1", "/"])),
        1 => format!("{name}{}", r.pick(&["X", "-", "-X", "-X-", "S", "2", "-X-Y"])),
        2 => cut(0, i) + &cut(i + 1, b.len()),
        3 => format!("{}{c}{}", cut(0, i), cut(i, b.len())),
        4 => format!("{}{c}{}", cut(0, i), cut(i + 1, b.len())),
        5 => name.to_lowercase(),
        6 => format!("{}{}{}", cut(0, i), b[i].to_ascii_lowercase(), cut(i + 1, b.len())),
        7 => name.replace('-', *r.pick(&["", "/", "--"])),
        8 => cut(0, i),
        _ => format!("{name}{name}"),
    }
}

pub fn unknown(r: &mut Rng, o: &Opts, kind: Kind, used: &mut Vec<String>) -> Option<MLine> {
    let name = match r.below(8) {
        0 => format!("X-{}", token(r, 12)),
        6 | 7 => near_name(r, kind),
        1 => {
            // a property of some other component
            let k = crate::model::KINDS[r.us(11)];
            r.pick(fields(k)).name.to_string()
        }
        _ => (*r.pick(UNKNOWN)).to_string(),
    };
    if used.contains(&name) || name.is_empty() || name == "BEGIN" || name == "END" || crate::model::field(kind, &name).is_some() {
        return None;
    }
    used.push(name.clone());
    let value = match o.mode {
        Mode::Wire | Mode::Raw => text(r, Mode::Raw),
        m => text(r, m),
    };
    Some(MLine { name, body: Body::Unknown(value), params: params(r, o.mode) })
}

// ---------------------------------------------------------------- components

pub fn comp(r: &mut Rng, o: &Opts, kind: Kind) -> MComp {
    let mut lines: Vec<MLine> = Vec::new();
    let density = r.below(4);
    for f in fields(kind) {
        match f.card {
            Card::Req => {
                if o.repeat && r.chance(1, 25) {
                    // an earlier line which the last one replaces
                    let mut l = known(r, o, kind, f);
                    if f.ty == Ty::Action {
                        let w = (*r.pick(&["AUDIO", "DISPLAY", "EMAIL", "X-OTHER"])).to_string();
                        l.body = Body::Known(f.name, vec![(MVal::Text(w.clone()), w)]);
                    }
                    lines.push(l);
                }
                lines.push(known(r, o, kind, f));
            }
            Card::Opt => {
                if r.chance(density, 4) {
                    lines.push(known(r, o, kind, f));
                    if o.repeat && r.chance(1, 25) {
                        lines.push(known(r, o, kind, f));
                    }
                }
            }
            Card::Many | Card::App => {
                if r.chance(density, 5) {
                    let n = if r.chance(1, 100) { 130 } else { 1 + r.small(3) };
                    for _ in 0..n {
                        lines.push(known(r, o, kind, f));
                    }
                }
            }
        }
    }
    let mut used = Vec::new();
    for _ in 0..r.small(5) {
        if let Some(l) = unknown(r, o, kind, &mut used) {
            lines.push(l);
        }
    }
    order(r, &mut lines);
    let mut kids = Vec::new();
    let kinds: Vec<Kind> = kind.kids().iter().flat_map(|(_, ks)| ks.iter().copied()).collect();
    if o.depth && !kinds.is_empty() {
        let n = if kind == Kind::VCalendar && r.chance(1, 40) { 20 } else { r.small(5) };
        let n = if kind == Kind::VTimezone { n + 1 } else { n };
        for _ in 0..n {
            let k = *r.pick(&kinds);
            kids.push(comp(r, o, k));
        }
    }
    let mut m = MComp { kind, lines, kids };
    if r.chance(1, 5) {
        echo(r, o, &mut m);
    }
    if o.depth && r.chance(1, 1200) {
        bulk(r, o, &mut m, &mut used);
    }
    m
}

/// Coincidences: values of different properties which are the same, lines and sub-components which come twice.
fn echo(r: &mut Rng, o: &Opts, m: &mut MComp) {
    let kind = m.kind;
    let mut dates: Vec<Dt> = Vec::new();
    let mut texts: Vec<(MVal, String)> = Vec::new();
    let mut items: Vec<(MVal, String)> = Vec::new();
    let mut unknown: Vec<String> = Vec::new();
    for l in &m.lines {
        match &l.body {
            Body::Known(n, v) => {
                let Some(f) = crate::model::field(kind, n) else { continue };
                for x in v {
                    match (&x.0, f.ty, f.card) {
                        (MVal::D(d), ..) => dates.push(*d),
                        (MVal::Dates(d), ..) => dates.extend(d.iter().take(3)),
                        (MVal::Text(_), Ty::Text, Card::App) => items.push(x.clone()),
                        (MVal::Text(_), Ty::Text, _) => texts.push(x.clone()),
                        _ => {}
                    }
                }
            }
            Body::Unknown(v) => unknown.push(v.clone()),
        }
    }
    let (d, t, i, u) = (
        (!dates.is_empty()).then(|| *r.pick(&dates)),
        (!texts.is_empty()).then(|| r.pick(&texts).clone()),
        (!items.is_empty()).then(|| r.pick(&items).clone()),
        (!unknown.is_empty()).then(|| r.pick(&unknown).clone()),
    );
    for l in &mut m.lines {
        if r.chance(1, 3) {
            continue;
        }
        match &mut l.body {
            Body::Known(n, v) => {
                let Some(f) = crate::model::field(kind, n) else { continue };
                for x in v.iter_mut() {
                    match (&x.0, f.ty, f.card, d, &t, &i) {
                        (MVal::D(_), Ty::Date, _, Some(d), ..) => *x = (MVal::D(d), d.wire()),
                        (MVal::D(old), Ty::DateTime, _, Some(d), ..) if !matches!(old, Dt::Date(_)) && !matches!(d, Dt::Date(_)) => *x = (MVal::D(d), d.wire()),
                        (MVal::Dates(old), _, _, Some(d), ..) => {
                            let mut v = old.clone();
                            if v.is_empty() || r.chance(1, 2) {
                                v = vec![d];
                            } else {
                                let at = r.us(v.len());
                                v[at] = d;
                            }
                            let v = MVal::Dates(v);
                            let w = v.wire();
                            *x = (v, w);
                        }
                        (MVal::Text(_), Ty::Text, Card::App, _, _, Some(i)) => *x = i.clone(),
                        (MVal::Text(_), Ty::Text, Card::Req | Card::Opt | Card::Many, _, Some(t), _) => *x = t.clone(),
                        _ => {}
                    }
                }
                l.params.retain(|p| p.1 != "DATE" && p.0 != "TZID");
            }
            Body::Unknown(v) => {
                if let Some(u) = &u {
                    *v = u.clone();
                }
            }
        }
    }
    // once more, somewhere behind
    for _ in 0..r.small(3) {
        let many: Vec<usize> = (0..m.lines.len())
            .filter(|i| matches!(&m.lines[*i].body, Body::Known(n, _) if crate::model::field(kind, n).is_some_and(|f| matches!(f.card, Card::Many | Card::App))))
            .collect();
        if many.is_empty() {
            break;
        }
        let l = m.lines[*r.pick(&many)].clone();
        let last = m.lines.iter().rposition(|x| x.name == l.name).unwrap_or(0);
        let at = last + 1 + r.us(m.lines.len() - last);
        m.lines.insert(at, l);
    }
    if !m.kids.is_empty() {
        for _ in 0..r.small(3) {
            let mut k = m.kids[r.us(m.kids.len())].clone();
            if r.chance(2, 3) {
                vary(r, o, &mut k);
            }
            let at = r.us(m.kids.len() + 1);
            m.kids.insert(at, k);
        }
        // the same in a component and in the one around it
        let mine: Vec<MLine> = m.lines.iter().filter(|l| r.chance(1, 2) && matches!(&l.body, Body::Known(n, _) if !matches!(*n, "ACTION" | "VERSION"))).cloned().collect();
        for k in &mut m.kids {
            for l in &mine {
                let Body::Known(n, _) = &l.body else { continue };
                let (Some(a), Some(b)) = (crate::model::field(kind, n), crate::model::field(k.kind, n)) else { continue };
                if (a.ty, a.card) == (b.ty, b.card)
                    && let Some(x) = k.lines.iter_mut().find(|x| x.name == l.name)
                {
                    *x = l.clone();
                }
            }
        }
    }
}

/// Changes a little: one or two values become others, as in another version of the same component.
fn vary(r: &mut Rng, o: &Opts, m: &mut MComp) {
    for _ in 0..1 + r.small(2) {
        let known_ones: Vec<usize> = (0..m.lines.len()).filter(|i| matches!(&m.lines[*i].body, Body::Known(n, _) if !matches!(*n, "ACTION" | "VERSION"))).collect();
        if known_ones.is_empty() {
            return;
        }
        // numbers as often as all the others
        let numbers: Vec<usize> = known_ones.iter().copied().filter(|i| matches!(&m.lines[*i].body, Body::Known(_, v) if matches!(v.first(), Some((MVal::U(_), _))))).collect();
        let any = numbers.is_empty() || r.chance(1, 2);
        let at = *r.pick(if any { &known_ones } else { &numbers });
        let Body::Known(n, _) = m.lines[at].body else { return };
        let Some(f) = crate::model::field(m.kind, n) else { return };
        m.lines[at] = known(r, &Opts { max_list: 2, ..o.clone() }, m.kind, f);
    }
}

/// A number just above one at which an implementation could have a limit.
fn many(r: &mut Rng, max: usize) -> usize {
    let n = *r.pick(&[8, 10, 16, 20, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10_000, 16_384, 20_000, 32_768, 65_536, 100_000]);
    if n > max { 1 + r.us(max) } else { n + 1 + r.us(5) }
}

/// Makes one dimension of a component large.
fn bulk(r: &mut Rng, o: &Opts, m: &mut MComp, used: &mut Vec<String>) {
    let kind = m.kind;
    let most = if r.chance(1, 20) { 110_000 } else { 5_100 };
    let pick = |r: &mut Rng, f: &dyn Fn(&Field) -> bool| {
        let v: Vec<&'static Field> = fields(kind).iter().filter(|x| f(x)).collect();
        if v.is_empty() { None } else { Some(*r.pick(&v)) }
    };
    match r.below(9) {
        0 | 1 => {
            let Some(f) = pick(r, &|f| matches!(f.card, Card::Many | Card::App)) else { return };
            for _ in 0..many(r, most) {
                let l = known(r, &Opts { max_list: 2, ..o.clone() }, kind, f);
                m.lines.push(l);
            }
        }
        2 => {
            let Some(f) = pick(r, &|f| f.card == Card::App) else { return };
            let n = many(r, most);
            let l = known_n(r, o, kind, f, n);
            m.lines.push(l);
        }
        3 => {
            for i in 0..many(r, most) {
                let name = format!("X-{}{i}", word(r, 3).to_uppercase());
                if !used.contains(&name) {
                    let v = text(r, o.mode);
                    m.lines.push(MLine { name, body: Body::Unknown(v), params: params(r, o.mode) });
                }
            }
        }
        4 | 5 => {
            // one line with many parameters, or a long one, or a long value, or a long name
            let name = if r.chance(1, 3) { format!("X-{}", "LONG-".repeat(many(r, most / 5))) } else { "X-BULK".to_string() };
            if used.contains(&name) {
                return;
            }
            let value = if r.chance(1, 3) {
                let n = many(r, most * 10);
                text_len(r, o.mode, n)
            } else {
                text(r, o.mode)
            };
            let mut ps = Vec::new();
            if r.chance(1, 2) {
                for i in 0..many(r, most) {
                    if let Some(mut p) = param(r, &mut Vec::new(), o.mode) {
                        p.0 = format!("{}{i}", p.0);
                        ps.push(p);
                    }
                }
            } else if let Some(mut p) = param(r, &mut Vec::new(), o.mode) {
                p.1 = p.1.repeat(many(r, most / 10));
                ps.push(p);
            }
            m.lines.push(MLine { name, body: Body::Unknown(value), params: ps });
        }
        6 => {
            let Some(f) = pick(r, &|f| f.ty == Ty::Text && f.card != Card::App) else { return };
            let n = many(r, most * 10);
            let t = text_len(r, o.mode, n);
            let mut l = known(r, o, kind, f);
            l.body = Body::Known(f.name, vec![(MVal::Text(t.clone()), t)]);
            if f.card != Card::Many {
                m.lines.retain(|x| x.name != f.name);
            }
            m.lines.push(l);
        }
        _ => {
            let kinds: Vec<Kind> = kind.kids().iter().flat_map(|(_, ks)| ks.iter().copied()).collect();
            if kinds.is_empty() {
                return;
            }
            let k = *r.pick(&kinds);
            for _ in 0..many(r, most / 3) {
                let c = comp(r, &Opts { depth: false, max_list: 2, ..o.clone() }, k);
                m.kids.push(c);
            }
        }
    }
}

/// Any order of lines in which lines of the same property keep theirs (it decides the meaning).
pub fn order(r: &mut Rng, lines: &mut Vec<MLine>) {
    if r.chance(1, 3) {
        return;
    }
    let mut idx: Vec<usize> = (0..lines.len()).collect();
    r.shuffle(&mut idx);
    // hand the lines of each name back in their original order
    let mut by_name: std::collections::HashMap<String, std::collections::VecDeque<MLine>> = std::collections::HashMap::new();
    let names: Vec<String> = lines.iter().map(|l| l.name.clone()).collect();
    for l in lines.drain(..) {
        by_name.entry(l.name.clone()).or_default().push_back(l);
    }
    for i in idx {
        lines.push(by_name.get_mut(&names[i]).unwrap().pop_front().unwrap());
    }
}

pub fn any_kind(r: &mut Rng) -> Kind {
    // calendars hold everything else, so they come up more often
    if r.chance(1, 4) { Kind::VCalendar } else { crate::model::KINDS[r.us(11)] }
}

//! Independent readers of property values in serialised text (RFC 5545 section 3.3).

use crate::cal;
use crate::model::{Dt, LEAP, MRecur, MVal, Ty};
use crate::reader::{RLine, split_unescaped, unescape};

fn digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}

pub fn read_dt(s: &str) -> Result<Dt, String> {
    if let Some(d) = cal::read_date(s) {
        return Ok(Dt::Date(d));
    }
    let (body, utc) = s.strip_suffix('Z').map_or((s, false), |b| (b, true));
    let (secs, leap) = cal::read_dt(body).ok_or_else(|| format!("not a date or date-time: {s:?}"))?;
    let n = if leap { LEAP } else { 0 };
    Ok(if utc { Dt::Utc(secs, n) } else { Dt::Naive(secs, n) })
}

fn read_datetime(s: &str) -> Result<Dt, String> {
    match read_dt(s)? {
        Dt::Date(_) => Err(format!("a date where a date-time is needed: {s:?}")),
        d => Ok(d),
    }
}

/// Seconds denoted by a duration.
pub fn read_dur(s: &str) -> Result<i128, String> {
    let bad = || format!("not a duration: {s:?}");
    let (neg, r) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let mut r = r.strip_prefix('P').ok_or_else(bad)?;
    let mut total: i128 = 0;
    let mut time = false;
    let mut any = false;
    let mut order = 0;
    while !r.is_empty() {
        if let Some(x) = r.strip_prefix('T') {
            if time || x.is_empty() {
                return Err(bad());
            }
            time = true;
            r = x;
            continue;
        }
        let e = r.find(|c: char| !c.is_ascii_digit()).ok_or_else(bad)?;
        if e == 0 {
            return Err(bad());
        }
        let n: i128 = r[..e].parse().map_err(|_| bad())?;
        let (rank, unit) = match (time, r.get(e..=e).unwrap_or("")) {
            (false, "W") => (1, 7 * 86_400),
            (false, "D") => (2, 86_400),
            (true, "H") => (3, 3600),
            (true, "M") => (4, 60),
            (true, "S") => (5, 1),
            _ => return Err(bad()),
        };
        if rank <= order {
            return Err(bad());
        }
        order = rank;
        total += n * unit;
        any = true;
        r = &r[e + 1..];
    }
    if !any {
        return Err(bad());
    }
    Ok(if neg { -total } else { total })
}

fn read_period(s: &str) -> Result<MVal, String> {
    let (a, b) = s.split_once('/').ok_or_else(|| format!("not a period: {s:?}"))?;
    let a = read_datetime(a)?;
    if b.starts_with(['P', '+', '-']) {
        Ok(MVal::PerDur(a, read_dur(b)? as i64))
    } else {
        Ok(MVal::PerEnd(a, read_datetime(b)?))
    }
}

fn list8(s: &str) -> Result<Vec<i8>, String> {
    s.split(',').map(|x| x.parse().map_err(|_| format!("not a small number: {x:?}"))).collect()
}

pub fn read_recur(s: &str) -> Result<MRecur, String> {
    let mut r = MRecur::new("");
    let mut seen = std::collections::BTreeSet::new();
    for part in s.split(';') {
        let (k, v) = part.split_once('=').ok_or_else(|| format!("rule part without =: {s:?}"))?;
        if !seen.insert(k) {
            return Err(format!("rule part {k} twice: {s:?}"));
        }
        if v.is_empty() {
            return Err(format!("empty rule part {k}: {s:?}"));
        }
        let bad = || format!("bad rule part {part:?}");
        match k {
            "FREQ" => {
                if !["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"].contains(&v) {
                    return Err(bad());
                }
                r.freq = v.to_string();
            }
            "UNTIL" => r.until = Some(read_dt(v)?),
            "COUNT" => r.count = Some(if digits(v) { v.parse().map_err(|_| bad())? } else { return Err(bad()) }),
            "INTERVAL" => r.interval = if digits(v) { v.parse().map_err(|_| bad())? } else { return Err(bad()) },
            "BYSECOND" => r.second = list8(v)?,
            "BYMINUTE" => r.minute = list8(v)?,
            "BYHOUR" => r.hour = list8(v)?,
            "BYMONTHDAY" => r.monthday = list8(v)?,
            "BYYEARDAY" => r.yearday = list8(v)?,
            "BYWEEKNO" => r.weekno = list8(v)?,
            "BYMONTH" => r.month = list8(v)?,
            "BYSETPOS" => r.setpos = list8(v)?,
            "BYDAY" => {
                for d in v.split(',') {
                    if !d.is_ascii() || d.len() < 2 {
                        return Err(bad());
                    }
                    let (o, w) = d.split_at(d.len() - 2);
                    if !["SU", "MO", "TU", "WE", "TH", "FR", "SA"].contains(&w) {
                        return Err(bad());
                    }
                    let o = if o.is_empty() { None } else { Some(o.parse::<i8>().map_err(|_| bad())?) };
                    r.day.push((o, w.to_string()));
                }
            }
            "WKST" => {
                if !["SU", "MO", "TU", "WE", "TH", "FR", "SA"].contains(&v) {
                    return Err(bad());
                }
                r.wkst = Some(v.to_string());
            }
            _ => return Err(bad()),
        }
    }
    if r.freq.is_empty() {
        return Err(format!("rule without FREQ: {s:?}"));
    }
    Ok(r)
}

pub fn read_offset(s: &str) -> Result<i32, String> {
    let bad = || format!("not a UTC offset: {s:?}");
    let (sign, r) = if let Some(r) = s.strip_prefix('-') {
        (-1, r)
    } else {
        (1, s.strip_prefix('+').ok_or_else(bad)?)
    };
    if !digits(r) || (r.len() != 4 && r.len() != 6) {
        return Err(bad());
    }
    let n = |i: usize| r.get(i..i + 2).map_or(0, |x| x.parse::<i32>().unwrap());
    if n(0) > 23 || n(2) > 59 || n(4) > 59 {
        return Err(bad());
    }
    Ok(sign * (n(0) * 3600 + n(2) * 60 + n(4)))
}

fn read_float(s: &str) -> Result<f32, String> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit() || b"+-.eE".contains(&b)) {
        return Err(format!("not a number: {s:?}"));
    }
    match s.parse::<f32>() {
        Ok(f) if f.is_finite() => Ok(f),
        _ => Err(format!("not a number: {s:?}")),
    }
}

fn num(s: &str, max: u64) -> Result<MVal, String> {
    if !digits(s) {
        return Err(format!("not a number: {s:?}"));
    }
    let n: u64 = s.parse().map_err(|_| format!("not a number: {s:?}"))?;
    if n > max { Err(format!("number out of range: {s:?}")) } else { Ok(MVal::U(n)) }
}

/// Values of one serialised line; texts and classes are returned unescaped.
pub fn read(ty: Ty, list: bool, l: &RLine) -> Result<Vec<MVal>, String> {
    let param = |k: &str| l.params.iter().find(|p| p.0 == k).map(|p| p.1.as_str());
    let v = l.value.as_str();
    if list {
        let parts = if ty == Ty::Text { split_unescaped(v, ',') } else { v.split(',').map(String::from).collect() };
        let mut out = Vec::new();
        for p in parts {
            let one = RLine { name: l.name.clone(), params: l.params.clone(), value: p };
            out.extend(read(ty, false, &one)?);
        }
        return Ok(out);
    }
    let value_type = |expect_date: bool| match (param("VALUE"), expect_date) {
        (Some("DATE"), true) | (None | Some("DATE-TIME"), false) => Ok(()),
        (p, _) => Err(format!("VALUE={p:?} does not fit the value in {l:?}")),
    };
    Ok(vec![match ty {
        Ty::Text | Ty::Action => MVal::Text(unescape(v)?),
        Ty::Uri => MVal::Uri(v.to_string()),
        Ty::DateTime => {
            value_type(false)?;
            MVal::D(read_datetime(v)?)
        }
        Ty::Date => {
            let d = read_dt(v)?;
            value_type(matches!(d, Dt::Date(_)))?;
            MVal::D(d)
        }
        Ty::Dur => MVal::Dur(read_dur(v)? as i64, 0),
        Ty::Pri => num(v, 9)?,
        Ty::Pct => num(v, 255)?,
        Ty::U32 => num(v, u64::from(u32::MAX))?,
        Ty::Status => {
            if !crate::ik::STATUSES.iter().any(|s| s.0 == v) {
                return Err(format!("not a status: {v:?}"));
            }
            MVal::Word(v.to_string())
        }
        Ty::Transp => {
            if v != "OPAQUE" && v != "TRANSPARENT" {
                return Err(format!("not a transparency: {v:?}"));
            }
            MVal::Word(v.to_string())
        }
        Ty::Class => MVal::Class(unescape(v)?),
        Ty::Geo => {
            let (a, b) = v.split_once(';').ok_or_else(|| format!("not a position: {v:?}"))?;
            MVal::Geo(read_float(a)?, read_float(b)?)
        }
        Ty::Recur => MVal::Recur(Box::new(read_recur(v)?)),
        Ty::RDate => {
            if param("VALUE") == Some("PERIOD") {
                MVal::Periods(v.split(',').map(read_period).collect::<Result<_, _>>()?)
            } else {
                let ds: Vec<Dt> = v.split(',').map(read_dt).collect::<Result<_, _>>()?;
                value_type(ds.iter().all(|d| matches!(d, Dt::Date(_))))?;
                MVal::Dates(ds)
            }
        }
        Ty::Offset => MVal::Off(read_offset(v)?),
        Ty::Trigger => {
            if v.starts_with(['P', '+', '-']) {
                if !matches!(param("VALUE"), None | Some("DURATION")) {
                    return Err(format!("VALUE does not fit the value in {l:?}"));
                }
                MVal::Dur(read_dur(v)? as i64, 0)
            } else {
                if param("VALUE") != Some("DATE-TIME") {
                    return Err(format!("VALUE does not fit the value in {l:?}"));
                }
                MVal::D(read_datetime(v)?)
            }
        }
        Ty::RStatus => {
            let parts = split_unescaped(v, ';');
            if parts.len() < 2 || parts.len() > 3 {
                return Err(format!("not a request status: {v:?}"));
            }
            MVal::RStat(
                read_float(&parts[0])?,
                unescape(&parts[1])?,
                parts.get(2).map(|e| unescape(e)).transpose()?,
            )
        }
        Ty::Period => read_period(v)?,
    }])
}

/// Meaning of a text given by the user, plain or escaped: what a reader must see after writing it.
pub fn sem(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\\' => match it.peek() {
                Some('\\' | ';' | ',') => out.push(it.next().unwrap()),
                Some('n' | 'N') => {
                    it.next();
                    out.push('\n');
                }
                _ => out.push('\\'),
            },
            '\r' => {
                it.next_if_eq(&'\n');
                out.push('\n');
            }
            c => out.push(c),
        }
    }
    out
}

/// The model value as `read` returns it.
pub fn semantic(v: &MVal) -> MVal {
    match v {
        MVal::Text(s) => MVal::Text(sem(s)),
        MVal::Class(s) => MVal::Class(sem(s)),
        MVal::RStat(c, d, e) => MVal::RStat(*c, sem(d), e.as_deref().map(sem)),
        v => v.clone(),
    }
}

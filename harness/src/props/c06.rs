//! C06: malformed documents are rejected, never silently altered.

use super::c05::short;
use crate::cal;
use crate::gen_::{self, Mode, Opts};
use crate::ik::{self, VIAS};
use crate::model::{Body, Card, Dt, Field, KINDS, Kind, MComp, MLine, Ty, fields};
use crate::mon::{Ctx, Prop};
use crate::rng::Rng;

pub const PROP: Prop = Prop {
    id: "C06",
    rule: "well-formed documents of all kinds with exactly one fault put in at a random place and depth: a required property missing, a BEGIN/END pair \
           broken, a component in a place it cannot stand, a line without a colon, a document cut off anywhere before its last line end, or one \
           malformed or out-of-range value of one typed property (alone or in a list); parsing must fail (as must \
           the conversion of such a value on its own), and the document without the fault must not; distinct = distinct faulty documents, non-trivial = the document without the fault is accepted",
    cases: |t| if t { 6_000_000 } else { 900_000 },
    zones: &["UTC", "Europe/Paris", "America/New_York"],
    case,
    once,
    need: &[
        ("distinct", 200_000),
        ("required property missing", 20_000),
        ("BEGIN/END mismatch", 20_000),
        ("component out of place", 5_000),
        ("line without colon", 20_000),
        ("empty line", 2_000),
        ("cut off", 20_000),
        ("malformed value", 100_000),
        ("inside a sub-component", 30_000),
        ("near-miss words", 20_000),
        ("malformed on its own", 20_000),
        ("near-miss BEGIN and END lines", 10_000),
    ],
    single_threaded_shards: true,
    assumptions: "faults in content after the end of the document, unknown or repeated parts of a rule and all but the last of several ACTION lines are not \
                  judged; BYxxx numbers only have to fit their type",
};

/// All components of the tree, by path.
fn paths(m: &MComp, at: &[usize], out: &mut Vec<Vec<usize>>) {
    out.push(at.to_vec());
    for (i, k) in m.kids.iter().enumerate() {
        let mut p = at.to_vec();
        p.push(i);
        paths(k, &p, out);
    }
}

fn get<'a>(m: &'a mut MComp, path: &[usize]) -> &'a mut MComp {
    path.iter().fold(m, |m, &i| &mut m.kids[i])
}

/// A malformed text converted to a value on its own.
fn alone(r: &mut Rng, c: &mut Ctx, via: ik::Via) {
    let o = Opts { mode: Mode::Wire, ..Opts::doc(true) };
    let (kind, f) = loop {
        let kind = *r.pick(&KINDS);
        let f = &fields(kind)[r.us(fields(kind).len())];
        if matches!(f.ty, Ty::DateTime | Ty::Date | Ty::Dur | Ty::Status | Ty::Transp | Ty::Geo | Ty::Recur | Ty::Period | Ty::Trigger | Ty::RStatus) {
            break (kind, f);
        }
    };
    let (ty, bad) = match r.below(12) {
        0 => ("Freq", bad_word(r, &ik::FREQS.iter().map(|w| w.0).collect::<Vec<_>>())),
        1 => ("Weekday", bad_word(r, &ik::WEEKDAYS.iter().map(|w| w.0).collect::<Vec<_>>())),
        2 => ("WeekdayNum", bad_weekday(r)),
        3 | 4 => (*r.pick(&["duration", "Trigger"]), no_duration(r)),
        _ => {
            let ty = match f.ty {
                Ty::DateTime => "DateTime",
                Ty::Date => "Date",
                Ty::Status => "Status",
                Ty::Transp => "TimeTransparency",
                Ty::Geo => "Geo",
                Ty::Recur => "Recur",
                Ty::Period => "Period",
                Ty::RStatus => "RequestStatus",
                Ty::Dur => return,
                _ => "Trigger",
            };
            let l = gen_::known(r, &o, kind, f);
            let bad = if ty == "Trigger" { bad_datetime(r, &o) } else { let Some(b) = malformed(r, &o, kind, f.ty, &l) else { return }; b };
            (ty, bad)
        }
    };
    match super::c01::value(&bad, ty, via) {
        Err(e) => c.fail(format!("{e}\nvalue: {bad:?}")),
        Ok(true) => c.fail(format!("accepted via {via:?} although malformed: {ty} {bad:?}")),
        Ok(false) => {
            c.count("malformed on its own");
            c.distinct(&format!("{ty} {bad}"));
        }
    }
}

/// What is no duration however leniently it is read.
fn no_duration(r: &mut Rng) -> String {
    match r.below(3) {
        0 => (*r.pick(&[
            "", "P", "-P", "+P", "PT", "-PT", "1D", "PD", "PTS", "P1", "PT1", "P-1D", "P+1D", "PT-1S", "--P1D", "+-P1D", "P1DT1", "P1DTT1S", "PT1D", "P1H", "P1S", "PT1W", "P1.5D", "PT0.5S", "P1,5D",
            "P 1D", "P1 D", "P1D ", " P1D", "P1DP1D", "P٣D", "PT1S,PT2S", "P0x1D", "P1_0D", "PT1E3S", "P1X", "PP1D", "P1D-", "P1DT1S1", "PT1SW", "-", "+", "T1S", "W", "P1D/P1D",
        ]))
        .to_string(),
        1 => (*r.pick(&[
            "P9223372036854775807W", "P9223372036854775808D", "PT9223372036854775807S", "PT9223372036854776S", "-PT9223372036854776S", "PT99999999999999999999999S", "P106751991168D", "P15250284453W",
            "PT2562047788016H", "PT153722867280913M", "P106751991167DT9999999H", "-P106751991167DT9999999H",
        ]))
        .to_string(),
        _ => {
            let n = r.range(1, 99);
            let good = format!("{}P{n}DT{n}H{n}M{n}S", r.pick(&["", "-", "+"]));
            let at = 1 + r.us(good.len()); // a sign in front is none
            format!("{}{}{}", &good[..at], r.pick(&["X", " ", "-", "+", "P", ",", ".", ";", ":", "/", "é", "d", "\r\n", "\0", "_", "Z"]), &good[at..])
        }
    }
}

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C06", idx);
    if r.chance(1, 12) {
        let via = *r.pick(&VIAS);
        return alone(&mut r, c, via);
    }
    let kind = gen_::any_kind(&mut r);
    let o = Opts { mode: Mode::Wire, repeat: false, max_list: 3, ..Opts::doc(true) };
    let mut m = gen_::comp(&mut r, &o, kind);
    let good = m.text();
    let valarm = r.chance(1, 2);
    let via = *r.pick(&VIAS);
    let mut all = Vec::new();
    paths(&m, &[], &mut all);
    // deep places are as interesting as the top
    let path = if r.chance(1, 2) { all[r.us(all.len())].clone() } else { all.last().unwrap().clone() };
    let nested = !path.is_empty();
    let Some((what, detail, text)) = fault(&mut r, &o, &mut m, &path, &good) else { return };
    let whole = match ik::parse(kind, valarm, &good, via) {
        Err(_) | Ok(Err(_)) => {
            // other properties speak about this; nothing can be concluded here
            c.count("documents rejected without any fault");
            return;
        }
        Ok(Ok(got)) => got,
    };
    match ik::parse(kind, valarm, &text, via) {
        Err(p) => c.fail(format!("{p}\n{what}: {detail}\ndocument:\n{text}")),
        Ok(Ok(got)) if end_suffix(&text, &good) && format!("{got:?}") == format!("{whole:?}") => {
            c.known("end-vcalendar-suffix", format!("accepted although its last line is not END:VCALENDAR:\n{text}"));
        }
        Ok(Ok(got)) => c.fail(format!(
            "accepted via {via:?} (as VAlarm: {valarm}) in spite of this fault: {what}: {detail}\ndocument:\n{text}\nparsed: {}",
            short(&format!("{got:?}"))
        )),
        Ok(Err(_)) => {
            c.count(what);
            if what == "malformed value" {
                c.count(&format!("malformed {}", detail.split(' ').next().unwrap_or("")));
            }
            if nested {
                c.count("inside a sub-component");
            }
            c.distinct(&text);
            c.sample(|| format!("{what}: {detail}\n{text}"));
        }
    }
}

/// Whether nothing but the last line differs, which is END:VCALENDAR with more behind it.
fn end_suffix(text: &str, good: &str) -> bool {
    good.strip_suffix("\r\n").is_some_and(|g| g.ends_with("\r\nEND:VCALENDAR") && text.len() > g.len() + 2 && text.starts_with(g))
}

/// Puts one fault in; None if this kind of fault cannot be put there.
fn fault(r: &mut Rng, o: &Opts, m: &mut MComp, path: &[usize], good: &str) -> Option<(&'static str, String, String)> {
    match r.below(12) {
        0 => {
            let k = get(m, path);
            let req: Vec<&Field> = fields(k.kind).iter().filter(|f| f.card == Card::Req).collect();
            let f = req[r.us(req.len())];
            k.lines.retain(|l| l.name != f.name);
            if r.chance(1, 4) {
                // a namesake is no substitute
                let name = (*r.pick(&["X-", "x", "-"])).to_string() + f.name;
                k.lines.push(MLine { name, body: Body::Unknown("20240101T000000".into()), params: vec![] });
            }
            Some(("required property missing", format!("{} in {:?}", f.name, k.kind), m.text()))
        }
        1 | 2 => {
            let lines: Vec<&str> = good.split_inclusive("\r\n").collect();
            let marks: Vec<usize> = (0..lines.len()).filter(|&i| lines[i].starts_with("BEGIN:") || lines[i].starts_with("END:")).collect();
            let i = *r.pick(&marks);
            let (word, tag) = lines[i].trim_end().split_once(':').unwrap();
            let mut out: Vec<String> = lines.iter().map(ToString::to_string).collect();
            let what = match r.below(7) {
                0 => {
                    out.remove(i);
                    "removed"
                }
                1 => {
                    let other = *r.pick(&["VCALENDAR", "VEVENT", "VTODO", "VALARM", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VJOURNAL", "VFREEBUSY", "X", "", "VEVENT2", " VEVENT", "vevent"]);
                    if other == tag {
                        return None;
                    }
                    out[i] = format!("{word}:{other}\r\n");
                    "renamed"
                }
                2 => {
                    out[i] = format!("{word}:{tag}{}\r\n", r.pick(&["X", " ", ":", ";", "-", "é", ",", "=", "\""]));
                    "extended"
                }
                3 => {
                    let cut = r.us(tag.len());
                    out[i] = format!("{word}:{}\r\n", &tag[..cut]);
                    "shortened"
                }
                4 => {
                    if word == "END" && i + 1 == lines.len() {
                        return None; // what follows the end of the document is not judged
                    }
                    out.insert(i, lines[i].to_string());
                    "doubled"
                }
                5 => {
                    let j = *r.pick(&marks);
                    if lines[j] == lines[i] {
                        return None;
                    }
                    out.swap(i, j);
                    if let Some(depth) = balanced(&out)
                        && depth
                    {
                        return None;
                    }
                    "swapped with another"
                }
                _ => {
                    out[i] = match word {
                        "BEGIN" => format!("END:{tag}\r\n"),
                        _ => format!("BEGIN:{tag}\r\n"),
                    };
                    "turned around"
                }
            };
            Some(("BEGIN/END mismatch", format!("{:?} {what}", lines[i].trim_end()), out.concat()))
        }
        3 => {
            // a component where it cannot stand
            let k = get(m, path);
            let here = k.kind;
            let allowed: Vec<Kind> = here.kids().iter().flat_map(|x| x.1.iter().copied()).collect();
            let other = *r.pick(&KINDS);
            if allowed.contains(&other) || (here == Kind::VTodo && other.is_alarm()) {
                return None;
            }
            let child = gen_::comp(r, &Opts { depth: false, ..o.clone() }, other);
            let at = r.us(k.kids.len() + 1);
            k.kids.insert(at, child);
            Some(("component out of place", format!("{other:?} in {here:?}"), m.text()))
        }
        4 => {
            let lines: Vec<&str> = good.split_inclusive("\r\n").collect();
            let i = r.us(lines.len());
            if i > 0 && r.chance(1, 8) {
                // nothing at all
                let empty = *r.pick(&["\r\n", "\r\n\r\n", "\n"]);
                return Some(("empty line", format!("before {:?}", lines[i]), [&lines[..i].concat(), empty, &lines[i..].concat()].concat()));
            }
            let mut out: Vec<String> = lines.iter().map(ToString::to_string).collect();
            let l = match r.below(4) {
                0 => (*r.pick(&["X", "SUMMARY", "END", "BEGIN", "-", "SUMMARY;LANGUAGE=fr", "X-A;B=\"c:d\"", "DTSTART", "X-A=b"])).to_string(),
                1 => {
                    let t = gen_::text(r, Mode::Wire).replace([':', '"'], "_");
                    if t.trim().is_empty() || t.starts_with([' ', '\t']) {
                        return None;
                    }
                    t
                }
                2 => {
                    if lines[i].contains('"') {
                        return None;
                    }
                    let l = lines[i].trim_end_matches(['\r', '\n']).replace(':', "");
                    out.remove(i);
                    l
                }
                _ => {
                    // the colon inside quotes does not count
                    format!("{};X-Q=\"{}\"", gen_::token(r, 6), gen_::uri(r, Mode::Wire).replace('"', ""))
                }
            };
            if l.starts_with([' ', '\t']) || l.is_empty() || (i == 0 && out.len() == lines.len()) {
                return None;
            }
            out.insert(i, format!("{l}\r\n"));
            Some(("line without colon", format!("{l:?}"), out.concat()))
        }
        5 => {
            // anywhere before the very end of the last END line
            let end = good.len() - 2;
            let mut i = if r.chance(1, 3) {
                let marks: Vec<usize> = good.match_indices("\r\n").map(|x| x.0).filter(|&x| x < end).collect();
                if marks.is_empty() { 0 } else { *r.pick(&marks) + 2 * r.us(2) }
            } else if r.chance(1, 4) {
                end - 1 - r.us(12.min(end))
            } else {
                r.us(end)
            };
            while !good.is_char_boundary(i) {
                i -= 1;
            }
            let mut t = good[..i].to_string();
            if r.chance(1, 2) {
                t.push_str("\r\n");
            }
            Some(("cut off", format!("after {i} of {} octets", good.len()), t))
        }
        _ => {
            // one malformed value
            let kinds = 4 * usize::from(r.chance(1, 2));
            let k = get(m, path);
            let typed: Vec<&'static Field> = fields(k.kind).iter().filter(|f| !matches!(f.ty, Ty::Text | Ty::Uri | Ty::Class)).collect();
            let typed: Vec<&'static Field> = if kinds > 0 {
                // rarer types as often as dates
                let mut tys: Vec<Ty> = typed.iter().map(|f| f.ty).collect();
                tys.sort_unstable();
                tys.dedup();
                let ty = tys.get(r.us(tys.len().max(1)))?;
                typed.into_iter().filter(|f| f.ty == *ty).collect()
            } else {
                typed
            };
            let f = *typed.get(r.us(typed.len().max(1)))?;
            let kind = k.kind;
            let mut l = gen_::known(r, o, kind, f);
            let bad = malformed(r, o, kind, f.ty, &l)?;
            // beside good lines of the same name as well as alone
            let beside = f.ty != Ty::Action && r.chance(1, 2);
            k.lines.retain(|x| f.card == Card::Many || beside || x.name != f.name);
            let parts = l.value();
            let period = l.params.iter().any(|p| p.1 == "PERIOD");
            let value = if f.card == Card::App || f.ty == Ty::RDate {
                let mut v: Vec<String> = if r.chance(1, 3) { vec![] } else { parts.split(',').map(String::from).collect() };
                let at = r.us(v.len() + 1);
                v.insert(at, bad.clone());
                v.join(",")
            } else {
                bad.clone()
            };
            let (v0, _) = match &l.body {
                Body::Known(_, v) => v[0].clone(),
                Body::Unknown(_) => unreachable!(),
            };
            l.body = Body::Known(f.name, vec![(v0, value)]);
            let at = r.us(k.lines.len() + 1);
            k.lines.insert(at, l);
            Some(("malformed value", format!("{:?} {} {:?}{}", f.ty, f.name, bad, if period { " among periods" } else { "" }), m.text()))
        }
    }
}

/// Whether the BEGIN and END lines of this text pair up by name.
fn balanced(lines: &[String]) -> Option<bool> {
    let mut stack: Vec<&str> = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        if i > 0 && stack.is_empty() {
            // complete already: what follows is not judged
            return Some(true);
        }
        if let Some(t) = l.strip_prefix("BEGIN:") {
            stack.push(t);
        } else if let Some(t) = l.strip_prefix("END:")
            && stack.pop() != Some(t)
        {
            return Some(false);
        }
    }
    Some(stack.is_empty())
}

// ---------------------------------------------------------------- malformed values

/// Inserts something that cannot be part of the value, or takes away something that must be.
fn garble(r: &mut Rng, s: &str) -> String {
    let junk = [" ", "x", "é", "_", "\t", "#", "%", "٣", "\u{a0}", "?", "(", "*", "\u{0}"];
    let j = *r.pick(&junk);
    match r.below(3) {
        0 => format!("{s}{j}"),
        1 => format!("{j}{s}"),
        _ => {
            let mut i = r.us(s.len() + 1);
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            format!("{}{j}{}", &s[..i], &s[i..])
        }
    }
}

fn bad_day(r: &mut Rng) -> String {
    let y = r.range(0, 9999);
    match r.below(6) {
        0 => format!("{y:04}{:02}{:02}", *r.pick(&[0, 13, 19, 20, 99]), r.range(1, 28)),
        1 => {
            let m = r.range(1, 12);
            format!("{y:04}{m:02}{:02}", r.range(cal::days_in_month(y, m) + 1, 99))
        }
        2 => format!("{y:04}{:02}00", r.range(1, 12)),
        3 => {
            // 29 February of a common year
            let y = loop {
                let y = if r.chance(1, 2) { r.range(0, 9999) } else { 100 * r.range(0, 99) };
                if !cal::is_leap(y) {
                    break y;
                }
            };
            format!("{y:04}0229")
        }
        4 => format!("{y:04}{:02}31", *r.pick(&[2, 4, 6, 9, 11])),
        _ => (*r.pick(&["2024011", "202401011", "2024-01-01", "24010101a", "", "20240a01", "+2024101", "-2024101", " 2024101", "2024 1 1", "20240101Z", "2024W011", "1e100000"])).to_string(),
    }
}

fn bad_datetime(r: &mut Rng, o: &Opts) -> String {
    let good = gen_::datetime(r, o).wire();
    let (d, t) = good.split_at(8);
    match r.below(8) {
        0 => loop {
            let b = bad_day(r);
            if b.len() == 8 && b.bytes().all(|c| c.is_ascii_digit()) {
                break format!("{b}{t}");
            }
        },
        1 => format!("{d}T{:02}0000", r.range(24, 99)),
        2 => format!("{d}T00{:02}00", r.range(60, 99)),
        3 => format!("{d}T0000{:02}", r.range(61, 99)),
        4 => format!("{d}T{}", r.pick(&["", "0", "00", "000", "0000", "00000", "0000000", "000000ZZ", "000000z", "000000+0100", "000000.5", "00:00:00", "Z", " 00000", "+00000", "00000 "])),
        5 => format!("{d}{}", r.pick(&["t000000", " 000000", "000000", "T-00000", "TT00000"])),
        6 => format!("{d}T24{}", r.pick(&["0000", "0000Z", "0001"])),
        _ => garble(r, &good),
    }
}

fn bad_date(r: &mut Rng, o: &Opts) -> String {
    match r.below(3) {
        0 => bad_day(r),
        1 => bad_datetime(r, o),
        _ => {
            let d = gen_::date(r, o).wire();
            garble(r, &d)
        }
    }
}

fn bad_duration(r: &mut Rng) -> String {
    let n = r.range(1, 99);
    match r.below(4) {
        0 => (*r.pick(&[
            "", "P", "-P", "+P", "PT", "-PT", "1D", "PD", "PTS", "P1", "PT1", "P-1D", "P+1D", "PT-1S", "--P1D", "+-P1D", "p1d", "P1d", "P1DT", "P1DTT1S", "PT1D", "P1H", "P1S", "PT1W", "P1.5D",
            "PT0.5S", "P1,5D", "P1Y", "P1M", "P 1D", "P1 D", "P1D ", " P1D", "P1DP1D", "PT1S1S", "PT1S1H", "PT1M1H", "P1D1W", "PT1H1H", "P٣D", "PT1S,PT2S", "P0x1D", "P1_0D", "PT1E3S",
        ]))
        .to_string(),
        1 => {
            // too large
            (*r.pick(&[
                "P9223372036854775807W", "P9223372036854775808D", "PT9223372036854775807S", "PT9223372036854776S", "-PT9223372036854776S", "PT99999999999999999999999S", "P106751991168D", "P15250284453W",
                "PT2562047788016H", "PT153722867280913M", "P106751991167DT9999999H", "-P106751991167DT9999999H",
            ]))
            .to_string()
        }
        2 => garble(r, &format!("P{n}DT{n}H{n}M{n}S")),
        _ => garble(r, &format!("-P{n}W")),
    }
}

fn bad_period(r: &mut Rng, o: &Opts) -> String {
    let start = gen_::datetime(r, o).wire();
    let end = gen_::datetime(r, o).wire();
    match r.below(8) {
        0 => start,
        1 => format!("{}/{end}", bad_datetime(r, o)),
        2 => format!("{start}/{}", bad_datetime(r, o)),
        3 | 4 => {
            let d = loop {
                let d = bad_duration(r);
                if !d.starts_with('-') && !d.contains(',') {
                    break d;
                }
            };
            format!("{start}/{d}")
        }
        5 => format!("{start}{}{end}", r.pick(&["//", " / ", "-", ";", "", "\\", "/ ", "/+", " /"])),
        6 => format!("{start}/{end}/{}", r.pick(&["", "PT1S", "20240101T000000"])),
        _ => format!("{}/{end}", r.pick(&["20240101", "", "P1D", "20240101T0000"])),
    }
}

fn overflow(r: &mut Rng, max: u64) -> String {
    match r.below(5) {
        0 => (max + 1).to_string(),
        1 => (u128::from(max) + 1 + u128::from(r.below(1000))).to_string(),
        2 => format!("{}", 10_u128 * u128::from(max) + 7),
        3 => (*r.pick(&["18446744073709551616", "18446744073709551617", "4294967296", "4294967297", "99999999999999999999999999999999999999999999"])).to_string(),
        _ => format!("-{}", r.range(1, 300)),
    }
}

fn bad_number(r: &mut Rng, max: u64) -> String {
    match r.below(4) {
        0 => overflow(r, max),
        1 => (*r.pick(&["", "-", "+", "a", "1a", "a1", " 1", "1 ", "1.0", "1,0", "0x1", "1e0", "one", "٣", "１", "½", "--1", "+-1", "1-", "1+", "1;2", "NaN", "1_0", "²"])).to_string(),
        _ => {
            let n = r.below(max.min(1000) + 1).to_string();
            garble(r, &n)
        }
    }
}

fn bad_word(r: &mut Rng, good: &[&str]) -> String {
    let g = *r.pick(good);
    let w = match r.below(7) {
        0 => g.to_lowercase(),
        1 => g[..r.us(g.len())].to_string(),
        2 => format!("{g}{}", r.pick(&["X", " ", "S", ",", ";", "-", "É"])),
        3 => format!("{}{g}", r.pick(&["X-", " ", "-", "N", "\""])),
        4 if r.chance(1, 2) => (*r.pick(OTHER_WORDS)).to_string(),
        4 => gen_::token(r, 12),
        5 => format!("{},{}", g, r.pick(good)),
        _ => garble(r, g),
    };
    if good.contains(&w.as_str()) { format!("{w}?") } else { w }
}

/// Words of other vocabularies, and what people write instead of the right ones.
const OTHER_WORDS: &[&str] = &[
    "IN-PROGRESS", "INPROCESS", "IN_PROCESS", "IN PROCESS", "INPROGRESS", "PROCESSING", "IN-PROCESSING", "CANCELED", "CANCEL", "CANCELLING", "COMPLETE", "DONE", "FINISHED", "FINISH", "CONFIRM", "CONFIRMS", "TENTATIV",
    "NEED-ACTION", "NEEDSACTION", "NEEDS_ACTION", "NEEDS ACTION", "NEEDS-ACTIONS", "ACTION", "NEEDS", "IN", "ACCEPTED", "DECLINED", "DELEGATED", "FINALIZED", "PENDING", "OPEN", "CLOSED", "NONE", "UNKNOWN", "DEFAULT", "TRUE", "FALSE",
    "YES", "NO", "0", "1", "BUSY", "FREE", "OPAQ", "TRANSP", "TRANSPARENCY", "OPACITY", "TRANSLUCENT", "BUSY-UNAVAILABLE", "BUSY-TENTATIVE", "OOF", "PROCEDURE", "SOUND", "MAIL", "E-MAIL", "SMS", "POPUP", "DISPLAYED", "AUDIO-VISUAL",
    "DAY", "DAYLY", "DIALY", "WEEK", "MONTH", "YEAR", "ANNUALLY", "BIWEEKLY", "FORTNIGHTLY", "QUARTERLY", "HOUR", "MINUTE", "SECOND", "MILLISECONDLY", "SECONDS", "MINUTES", "HOURS", "DAYS", "YEARS", "ONCE", "NEVER",
    "MON", "TUE", "WED", "THU", "FRI", "SAT", "SUN", "MONDAY", "TUESDAY", "SUNDAY", "LU", "MA", "ME", "JE", "VE", "DI", "SO", "DO", "MI", "M", "T", "W", "S", "WEEKDAY", "MO-FR", "TH1", "TU ", "PUBLIC", "STATUS", "OPAQUE;", "FINAL-DRAFT", "DRAFTS",
];

/// Every text one edit away from a word, and words of other vocabularies, where a word is needed.
/// Every text one small mistake away from this one.
fn misses(g: &str) -> std::collections::BTreeSet<String> {
    let mut bad = std::collections::BTreeSet::new();
    let b: Vec<char> = g.chars().collect();
    let join = |a: &[char], m: &str, z: &[char]| format!("{}{m}{}", a.iter().collect::<String>(), z.iter().collect::<String>());
    for i in 0..=b.len() {
        for x in ('A'..='Z').chain(" -_0.:/".chars()) {
            bad.insert(join(&b[..i], &x.to_string(), &b[i..]));
            if i < b.len() {
                bad.insert(join(&b[..i], &x.to_string(), &b[i + 1..]));
            }
        }
        bad.insert(join(&b[..i], "", &[]));
        bad.insert(join(&[], "", &b[i..]));
        if i < b.len() {
            bad.insert(join(&b[..i], "", &b[i + 1..]));
            bad.insert(join(&b[..i], &b[i].to_lowercase().to_string(), &b[i + 1..]));
        }
        if i + 1 < b.len() {
            bad.insert(join(&b[..i], &format!("{}{}", b[i + 1], b[i]), &b[i + 2..]));
        }
    }
    bad.insert(g.to_lowercase());
    bad.remove(g);
    bad
}

/// Every BEGIN and END line, alone and inside a parent, with every small mistake.
fn marks(c: &mut Ctx) {
    for kind in KINDS {
        let mut parents: Vec<Option<Kind>> = vec![None];
        parents.extend(KINDS.iter().filter(|p| p.kids().iter().any(|k| k.1.contains(&kind))).map(|k| Some(*k)));
        for parent in parents {
            let own: String = super::c01::required(kind).iter().map(|l| format!("{l}\r\n")).collect();
            let mut lines = vec![format!("BEGIN:{}\r\n", kind.tag()), own, format!("END:{}\r\n", kind.tag())];
            let mut first = 0;
            if let Some(p) = parent {
                let around: String = super::c01::required(p).iter().map(|l| format!("{l}\r\n")).collect();
                // with a sibling on both sides
                let sibling = lines.concat();
                lines.insert(0, format!("BEGIN:{}\r\n{around}{sibling}", p.tag()));
                lines.push(format!("{sibling}END:{}\r\n", p.tag()));
                first = 1;
            }
            let top = parent.unwrap_or(kind);
            let good = lines.concat();
            if !matches!(ik::parse(top, false, &good, VIAS[0]), Ok(Ok(_))) {
                c.count("documents rejected without any fault");
                continue;
            }
            for at in [first, first + 2] {
                let line = lines[at].clone();
                let line = line.trim_end();
                for miss in misses(line) {
                    if miss.is_empty() || miss.starts_with("END:VCALENDAR") {
                        continue; // the latter is the finding end-vcalendar-suffix
                    }
                    lines[at] = format!("{miss}\r\n");
                    let text = lines.concat();
                    c.count("near-miss BEGIN and END lines");
                    match ik::parse(top, false, &text, VIAS[c.evals as usize % VIAS.len()]) {
                        Err(p) => c.fail(format!("{p}\ndocument:\n{text}")),
                        Ok(Ok(_)) => c.fail(format!("accepted in spite of this fault: {line} written {miss:?}\ndocument:\n{text}")),
                        Ok(Err(_)) => {}
                    }
                    if !c.violations.is_empty() {
                        return;
                    }
                }
                lines[at] = format!("{line}\r\n");
            }
        }
    }
}

fn once(c: &mut Ctx) {
    marks(c);
    let statuses: Vec<&str> = ik::STATUSES.iter().map(|w| w.0).collect();
    let freqs: Vec<&str> = ik::FREQS.iter().map(|w| w.0).collect();
    let days: Vec<&str> = ik::WEEKDAYS.iter().map(|w| w.0).collect();
    let event = |l: &str| format!("BEGIN:VEVENT\r\nDTSTAMP:20240101T000000\r\nUID:u\r\nDTSTART:20240101\r\n{l}\r\nEND:VEVENT\r\n");
    let todo = |l: &str| format!("BEGIN:VTODO\r\nDTSTAMP:20240101T000000\r\nUID:u\r\n{l}\r\nEND:VTODO\r\n");
    let alarm = |l: &str| format!("BEGIN:VALARM\r\n{l}\r\nTRIGGER:PT1S\r\nDESCRIPTION:d\r\nSUMMARY:s\r\nATTENDEE:a\r\nEND:VALARM\r\n");
    type Make<'a> = (Kind, bool, Box<dyn Fn(&str) -> String + 'a>, Vec<&'a str>, &'a str);
    let tables: Vec<Make> = vec![
        (Kind::VTodo, false, Box::new(move |w| todo(&format!("STATUS:{w}"))), statuses.clone(), "STATUS of a VTODO"),
        (Kind::VEvent, false, Box::new(move |w| event(&format!("STATUS:{w}"))), statuses, "STATUS of a VEVENT"),
        (Kind::VEvent, false, Box::new(move |w| event(&format!("TRANSP:{w}"))), vec!["OPAQUE", "TRANSPARENT"], "TRANSP"),
        (Kind::Display, true, Box::new(move |w| alarm(&format!("ACTION:{w}"))), vec!["AUDIO", "DISPLAY", "EMAIL"], "ACTION"),
        (Kind::VEvent, false, Box::new(move |w| event(&format!("RRULE:FREQ={w};COUNT=2"))), freqs, "FREQ"),
        (Kind::VEvent, false, Box::new(move |w| event(&format!("RRULE:FREQ=DAILY;WKST={w}"))), days.clone(), "WKST"),
        (Kind::VEvent, false, Box::new(move |w| event(&format!("RRULE:FREQ=DAILY;BYDAY={w}"))), days.clone(), "BYDAY"),
        (Kind::VTodo, false, Box::new(move |w| todo(&format!("RRULE:BYDAY=1MO,-1{w},SU;FREQ=DAILY"))), days, "BYDAY with a number"),
    ];
    for (kind, valarm, make, good, what) in &tables {
        let mut bad: std::collections::BTreeSet<String> = OTHER_WORDS.iter().map(ToString::to_string).collect();
        for g in good {
            bad.extend(misses(g));
            bad.insert(g.replace('-', ""));
            for h in good {
                bad.insert(format!("{g}{h}"));
                bad.insert(format!("{g},{h};"));
            }
        }
        for w in bad {
            // two weekdays and an ordinal are no fault
            let fine = good.contains(&w.as_str())
                || what.starts_with("BYDAY") && {
                    let sign = w.trim_start_matches(|c: char| c.is_ascii_digit());
                    good.contains(&sign) || good.contains(&w.trim_start_matches(['-', '+']))
                }
                || (matches!(*what, "FREQ" | "WKST" | "BYDAY" | "BYDAY with a number") && w.contains([';', ':']));
            if fine {
                continue;
            }
            let text = make(&w);
            c.count("near-miss words");
            match ik::parse(*kind, *valarm, &text, VIAS[c.evals as usize % VIAS.len()]) {
                Err(p) => c.fail(format!("{p}\ndocument:\n{text}")),
                Ok(Ok(_)) => c.fail(format!("accepted in spite of this fault: malformed value: {what} {w:?}\ndocument:\n{text}")),
                Ok(Err(_)) => {}
            }
            if !c.violations.is_empty() {
                return;
            }
        }
        for g in good {
            let text = make(g);
            if !matches!(ik::parse(*kind, *valarm, &text, VIAS[0]), Ok(Ok(_))) && !(*kind == Kind::Display && *g != "DISPLAY") {
                c.count("documents rejected without any fault");
            }
        }
    }
}

fn bad_weekday(r: &mut Rng) -> String {
    let good: Vec<&str> = ik::WEEKDAYS.iter().map(|w| w.0).collect();
    let w = bad_word(r, &good);
    if w.contains([',', ';']) { "XX".into() } else { w }
}

fn bad_recur(r: &mut Rng, o: &Opts) -> String {
    let mut m = gen_::recur(r, o);
    let freqs: Vec<&str> = ik::FREQS.iter().map(|w| w.0).collect();
    let clean = |s: String| if s.contains([';', '=']) { "?".to_string() } else { s };
    let (part, value) = match r.below(13) {
        0 => ("FREQ", clean(bad_word(r, &freqs))),
        1 => ("UNTIL", clean(bad_date(r, o))),
        2 => ("COUNT", clean(bad_number(r, u64::from(u32::MAX)))),
        3 => ("INTERVAL", clean(bad_number(r, u64::from(u32::MAX)))),
        4 => ("WKST", clean(bad_weekday(r))),
        5 => {
            let w = ik::WEEKDAYS[r.us(7)].0;
            let b = match r.below(4) {
                0 => bad_weekday(r),
                1 => format!("{}{w}", r.pick(&["128", "-129", "1000", "99999999999", "--1", "+-1", "1.5", "a", "1 ", " ", "٣"])),
                2 => (*r.pick(&["1", "-1", "", "+", "-", "53", "M", "1M", "MO1", "MOTU", "mo", "1 MO"])).to_string(),
                _ => {
                    let t = format!("{}{w}", r.range(1, 53));
                    garble(r, &t)
                }
            };
            ("BYDAY", clean(b))
        }
        6 => ("FREQ", String::new()),
        7 => {
            // no FREQ at all
            let w: Vec<String> = m.parts().into_iter().filter(|p| p.0 != "FREQ").map(|(k, v)| format!("{k}={v}")).collect();
            return w.join(";");
        }
        8 => {
            return match r.below(4) {
                0 => format!("{}{}", m.wire(), r.pick(&[";;", ";COUNT", ";é", "; "])),
                1 => m.wire().replacen('=', "", 1),
                2 => m.wire().replacen('=', ":", 1),
                _ => format!(";{}", m.wire()),
            };
        }
        k => {
            let name = ["BYSECOND", "BYMINUTE", "BYHOUR", "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYMONTH", "BYSETPOS"][r.us(8)];
            let b = match k {
                9 => (*r.pick(&["", "a", "-", "+", "1.0", " 1", "1 ", "٣", "--1", "1e1", "MO", "1-2"])).to_string(),
                10 => (*r.pick(&["1000", "-1000", "99999999999999999999", "-99999999999999999999", "4294967297", "65537"])).to_string(),
                _ => {
                    let t = r.range(1, 12).to_string();
                    garble(r, &t)
                }
            };
            (name, clean(b))
        }
    };
    // put it among good ones where the part is a list
    let list = part.starts_with("BY");
    let mut parts: Vec<(String, String)> = m.parts().into_iter().filter(|p| p.0 != part).map(|(k, v)| (k.to_string(), v)).collect();
    let value = if list && r.chance(1, 2) {
        let g = if part == "BYDAY" { "MO" } else { "1" };
        if r.chance(1, 2) { format!("{g},{value}") } else { format!("{value},{g}") }
    } else {
        value
    };
    let at = r.us(parts.len() + 1);
    parts.insert(at, (part.to_string(), value));
    m.count = None;
    parts.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(";")
}

fn bad_float(r: &mut Rng) -> String {
    match r.below(3) {
        0 => (*r.pick(&["", "a", "-", "+", ".", "1.2.3", "--1", "1-", " 1", "1 ", "1,5", "٣", "0x1", "1e", "e5", "one", "1..2", "1.5N", "1_0", "½"])).to_string(),
        1 => {
            let f = gen_::float(r).to_string();
            garble(r, &f)
        }
        _ => (*r.pick(&["1e39", "-1e39", "9e99999", "inf", "-inf", "nan", "NaN", "infinity"])).to_string(),
    }
}

fn bad_offset(r: &mut Rng) -> String {
    match r.below(4) {
        0 => (*r.pick(&["", "+", "-", "0100", "+1", "+01", "+010", "+01000", "+0100000", "+01:00", "+-100", " +0100", "+0100 ", "Z", "UTC", "+1h", "+0x00", "é0000", "+é00", "+ 100", "+1 00", "*0100", "−0100"]))
            .to_string(),
        1 => format!("{}{:02}{:02}", r.pick(&["+", "-"]), r.range(24, 99), r.range(0, 59)),
        2 => format!("{}{:02}{:02}", r.pick(&["+", "-"]), r.range(0, 23), r.range(60, 99)),
        _ => {
            let s = crate::model::off_wire(60 * r.range(-1439, 1439) as i32);
            garble(r, &s)
        }
    }
}

/// A malformed text for this type, as one element of the line.
fn malformed(r: &mut Rng, o: &Opts, kind: Kind, ty: Ty, line: &MLine) -> Option<String> {
    let words = |v: &'static [(&'static str, ikal::Status)]| v.iter().map(|w| w.0).collect::<Vec<_>>();
    let s = match ty {
        Ty::Text | Ty::Uri | Ty::Class => return None,
        Ty::Action => {
            if !kind.is_alarm() {
                return None;
            }
            bad_word(r, &["AUDIO", "DISPLAY", "EMAIL"])
        }
        Ty::DateTime => {
            if r.chance(1, 8) {
                // a date is no date-time
                Dt::Date(gen_::day(r, o)).wire()
            } else {
                bad_datetime(r, o)
            }
        }
        Ty::Date => bad_date(r, o),
        Ty::Dur => bad_duration(r),
        Ty::Pri => {
            if r.chance(1, 2) {
                r.range(10, 300).to_string()
            } else {
                bad_number(r, 9)
            }
        }
        Ty::Pct => bad_number(r, 255),
        Ty::U32 => bad_number(r, u64::from(u32::MAX)),
        Ty::Status => bad_word(r, &words(&ik::STATUSES)),
        Ty::Transp => bad_word(r, &["OPAQUE", "TRANSPARENT"]),
        Ty::Geo => match r.below(5) {
            0 => format!("{};{}", bad_float(r), gen_::float(r)),
            1 => format!("{};{}", gen_::float(r), bad_float(r)),
            2 => format!("{}{}{}", gen_::float(r), r.pick(&["", ",", ";;", " ; ", ":", "/", " "]), gen_::float(r).abs()),
            3 => format!("{};{};{}", gen_::float(r), gen_::float(r), r.pick(&["", "1", "x"])),
            _ => gen_::float(r).to_string(),
        },
        Ty::Recur => bad_recur(r, o),
        Ty::RDate => {
            if line.params.iter().any(|p| p.1 == "PERIOD") {
                bad_period(r, o)
            } else if r.chance(1, 6) {
                gen_::period(r, o).1
            } else {
                bad_date(r, o)
            }
        }
        Ty::Period => bad_period(r, o),
        Ty::Offset => bad_offset(r),
        Ty::Trigger => {
            if r.chance(1, 2) {
                bad_duration(r)
            } else if r.chance(1, 6) {
                Dt::Date(gen_::day(r, o)).wire()
            } else {
                bad_datetime(r, o)
            }
        }
        Ty::RStatus => match r.below(4) {
            0 => format!("{};{}", bad_float(r), gen_::word(r, 8)),
            1 => "2.0".to_string(),
            2 => format!("{}{}", gen_::statcode(r), r.pick(&[",a", ":a", " ;a", "\\;a"])),
            _ => gen_::word(r, 8),
        },
    };
    // a comma would make two elements of it in a list
    let list = matches!(ty, Ty::RDate | Ty::Period) || crate::model::field(kind, &line.name).is_some_and(|f| f.card == Card::App);
    if list && s.contains(',') {
        return None;
    }
    if valid(ty, &s, line) {
        return None;
    }
    Some(s)
}

/// The fault must be one by the book as well.
fn valid(ty: Ty, s: &str, line: &MLine) -> bool {
    let l = crate::reader::RLine {
        name: line.name.clone(),
        params: line.params.iter().map(|p| (p.0.clone(), p.1.clone())).filter(|p| p.1 == "PERIOD").collect(),
        value: s.to_string(),
    };
    match ty {
        Ty::Action => ["AUDIO", "DISPLAY", "EMAIL"].contains(&s),
        Ty::Date | Ty::RDate if !l.params.iter().any(|p| p.1 == "PERIOD") => crate::wire::read_dt(s).is_ok(),
        Ty::Trigger => crate::wire::read_dt(s).is_ok_and(|d| !matches!(d, Dt::Date(_))) || crate::wire::read_dur(s).is_ok_and(|n| n.abs() <= i128::from(gen_::MAX_DUR)),
        Ty::Dur => crate::wire::read_dur(s).is_ok_and(|n| n.abs() <= i128::from(gen_::MAX_DUR)),
        Ty::Period => s.split_once('/').is_some_and(|(_, d)| d.starts_with('P') && crate::wire::read_dur(d).is_ok_and(|n| n.abs() <= i128::from(gen_::MAX_DUR))) && crate::wire::read(ty, false, &l).is_ok(),
        Ty::RDate => s.split_once('/').is_some_and(|(_, d)| !d.starts_with('P') || crate::wire::read_dur(d).is_ok_and(|n| n.abs() <= i128::from(gen_::MAX_DUR))) && crate::wire::read(ty, false, &l).is_ok(),
        _ => crate::wire::read(ty, false, &l).is_ok(),
    }
}

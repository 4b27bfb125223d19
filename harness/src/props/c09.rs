//! C09: recurrence rules are read and written part by part.

use super::c05::short;
use crate::gen_::{self, Mode, Opts};
use crate::ik::{self, Any, VIAS};
use crate::model::{Body, Kind, MComp, MLine, MRecur, MVal};
use crate::mon::{Ctx, Prop, Step, guard};
use crate::reader;
use crate::rng::Rng;
use crate::wire;

pub const PROP: Prop = Prop {
    id: "C09",
    rule: "recurrence rules with every value of every part alone, every pair and every subset of parts, in any order, with signs, leading zeros and \
           lists of up to 130 values, read through Recur's conversions and through RRULE of the five components that have one, compared member by \
           member; written by Recur and by those components and read by an independent reader: each present part once, under its name, with its \
           values in order; then parsed again; distinct = distinct rule texts, non-trivial = at least two parts",
    cases: |t| if t { 6_000_000 } else { 800_000 },
    zones: &["UTC", "UTC", "Europe/Paris"],
    case,
    once,
    need: &[
        ("distinct", 200_000),
        ("single values", 1_200),
        ("pairs", 2_000),
        ("subsets of parts", 16_000),
        ("RRULE in a component", 100_000),
        ("long lists", 5_000),
        ("parsed again", 300_000),
        ("finding probes", 4),
    ],
    single_threaded_shards: true,
    assumptions: "numbers within ikal's data model (known findings beyond it); UNTIL in UTC is written with TZ=UTC only (known finding of C07); an INTERVAL \
                  of one may be written or left out",
};

const RULED: [Kind; 5] = [Kind::VEvent, Kind::VTodo, Kind::VJournal, Kind::Standard, Kind::Daylight];

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C09", idx);
    let utc = c.tz == "UTC";
    let built = r.chance(1, 4);
    let o = Opts { leap: r.chance(1, 4), ..if built { Opts::built(Mode::Wire, utc) } else { Opts::doc(utc) } };
    let m = gen_::recur(&mut r, &o);
    let text = if built { String::new() } else { spell(&mut r, &m) };
    let step = if built { written(&mut r, c, &m, &ik::mk_recur(&m)) } else { both(&mut r, c, &m, &text) };
    match step {
        Err(e) => c.fail(format!("TZ={}: {e}\nrule: {}\ntext: {text}", c.tz, m.wire())),
        Ok(()) => {
            if m.parts().len() > 2 || (m.interval != 1 && m.parts().len() > 1) {
                c.distinct(&format!("{built}{text}{}", m.wire()));
            }
            if m.parts().iter().any(|p| p.1.matches(',').count() > 100) {
                c.count("long lists");
            }
            c.sample(|| m.wire());
        }
    }
}

/// One of many ways to write the rule.
fn spell(r: &mut Rng, m: &MRecur) -> String {
    let drop = r.chance(2, 3);
    let pad = r.chance(1, 8);
    let plus = r.chance(1, 6);
    let number = |r: &mut Rng, n: i8| -> String {
        match n {
            0.. if plus && r.chance(1, 2) => format!("+{n}"),
            0.. if pad => format!("{n:02}"),
            n if pad => format!("-{:02}", -i32::from(n)),
            n => n.to_string(),
        }
    };
    let list = |r: &mut Rng, v: &[i8]| v.iter().map(|n| number(r, *n)).collect::<Vec<_>>().join(",");
    let mut parts = vec![format!("FREQ={}", m.freq)];
    if let Some(u) = &m.until {
        parts.push(format!("UNTIL={}", u.wire()));
    }
    if let Some(n) = m.count {
        parts.push(if pad { format!("COUNT={n:04}") } else { format!("COUNT={n}") });
    }
    if m.interval != 1 || !drop {
        parts.push(if pad { format!("INTERVAL={:02}", m.interval) } else { format!("INTERVAL={}", m.interval) });
    }
    // seconds, minutes, hours, and months carry no sign
    for (n, v) in [("BYSECOND", &m.second), ("BYMINUTE", &m.minute), ("BYHOUR", &m.hour), ("BYMONTH", &m.month)] {
        if !v.is_empty() {
            parts.push(format!("{n}={}", v.iter().map(|x| if pad { format!("{x:02}") } else { x.to_string() }).collect::<Vec<_>>().join(",")));
        }
    }
    for (n, v) in [("BYMONTHDAY", &m.monthday), ("BYYEARDAY", &m.yearday), ("BYWEEKNO", &m.weekno), ("BYSETPOS", &m.setpos)] {
        if !v.is_empty() {
            parts.push(format!("{n}={}", list(r, v)));
        }
    }
    if !m.day.is_empty() {
        let days: Vec<String> = m.day.iter().map(|(o, d)| o.map_or(d.clone(), |o| format!("{}{d}", number(r, o)))).collect();
        parts.push(format!("BYDAY={}", days.join(",")));
    }
    if let Some(w) = &m.wkst {
        parts.push(format!("WKST={w}"));
    }
    if r.chance(3, 4) {
        r.shuffle(&mut parts);
    }
    parts.join(";")
}

fn both(r: &mut Rng, c: &mut Ctx, m: &MRecur, text: &str) -> Step {
    let got = if r.chance(1, 2) {
        direct(r, text)?
    } else {
        c.count("RRULE in a component");
        inside(r, text)?
    };
    let got = got.map_err(|e| format!("rejected: {}", short(&e)))?;
    let read = ik::rd_recur(&got);
    if read != *m {
        return Err(format!("read as {}", read.wire()));
    }
    if got.interval == 1 && !text.contains("INTERVAL") {
        c.count("INTERVAL absent");
    }
    written(r, c, m, &got)
}

fn direct(r: &mut Rng, text: &str) -> Step<Result<ikal::Recur, String>> {
    let k = r.below(3);
    Ok(guard("parsing a rule", || match k {
        0 => text.parse::<ikal::Recur>(),
        1 => ikal::Recur::try_from(text),
        _ => ikal::Recur::try_from(text.to_string()),
    })?
    .map_err(|e| e.to_string()))
}

fn rule_of(a: &Any) -> Option<&ikal::Recur> {
    match a {
        Any::VEvent(x) => x.rrule.as_ref(),
        Any::VTodo(x) => x.rrule.as_ref(),
        Any::VJournal(x) => x.rrule.as_ref(),
        Any::Standard(x) => x.rrule.as_ref(),
        Any::Daylight(x) => x.rrule.as_ref(),
        _ => None,
    }
}

fn around(r: &mut Rng, kind: Kind, rule: MVal, text: String) -> MComp {
    let o = Opts { depth: false, leap: false, repeat: false, max_list: 2, ..Opts::doc(false) };
    let mut m = gen_::comp(r, &o, kind);
    m.lines.retain(|l| l.name != "RRULE");
    let params = if r.chance(1, 8) { gen_::params(r, Mode::Wire) } else { vec![] };
    let at = r.us(m.lines.len() + 1);
    m.lines.insert(at, MLine { name: "RRULE".into(), body: Body::Known("RRULE", vec![(rule, text)]), params });
    m
}

fn inside(r: &mut Rng, text: &str) -> Step<Result<ikal::Recur, String>> {
    let kind = *r.pick(&RULED);
    let m = around(r, kind, MVal::Text(String::new()), text.to_string());
    let doc = m.text();
    match ik::parse(kind, false, &doc, *r.pick(&VIAS))? {
        Err(e) => Ok(Err(format!("{}\n{doc}", short(&e.to_string())))),
        Ok(a) => rule_of(&a).cloned().map(Ok).ok_or_else(|| format!("no rule read from\n{doc}")),
    }
}

/// Equal rules, but for an interval of one.
fn same(got: &MRecur, want: &MRecur) -> bool {
    got == want
}

fn written(r: &mut Rng, c: &mut Ctx, m: &MRecur, rule: &ikal::Recur) -> Step {
    let before = rule.clone();
    let text = if r.chance(1, 2) {
        guard("serialising a rule", || ikal::ser::ical(rule))?.map_err(|e| format!("serialising: {e}"))?
    } else {
        let kind = *r.pick(&RULED);
        let mc = around(r, kind, MVal::Recur(Box::new(m.clone())), m.wire());
        let a = Any::build(&mc, false);
        if rule_of(&a) != Some(rule) {
            return Err(format!("harness: {:?} is not {rule:?}", rule_of(&a)));
        }
        let s = ik::ser(&a)?;
        let node = reader::tree(&s).map_err(|e| format!("{e}\nserialised:\n{s}"))?;
        let v: Vec<&str> = node.lines.iter().filter(|l| l.name == "RRULE").map(|l| l.value.as_str()).collect();
        match v.as_slice() {
            [v] => (*v).to_string(),
            v => return Err(format!("{} RRULE lines written:\n{s}", v.len())),
        }
    };
    if *rule != before {
        return Err("serialising changes the rule".into());
    }
    let read = wire::read_recur(&text).map_err(|e| format!("written as {text:?}: {e}"))?;
    if !same(&read, m) {
        return Err(format!("written as {text:?}"));
    }
    let back = if r.chance(1, 2) { direct(r, &text)? } else { inside(r, &text)? };
    match back {
        Ok(b) if b == *rule => c.count("parsed again"),
        Ok(b) => return Err(format!("written as {text:?}, which is read back as {}", ik::rd_recur(&b).wire())),
        Err(e) => return Err(format!("written as {text:?}, which is rejected: {}", short(&e))),
    }
    Ok(())
}

// ---------------------------------------------------------------- tables

/// All rules with one value in one part.
fn singles() -> Vec<MRecur> {
    let mut v = Vec::new();
    let base = || MRecur::new("DAILY");
    for (f, _) in ik::FREQS {
        v.push(MRecur::new(f));
    }
    for n in 1..=255 {
        v.push(MRecur { count: Some(n), ..base() });
        v.push(MRecur { interval: n, ..base() });
    }
    for n in 0..=60 {
        v.push(MRecur { second: vec![n], ..base() });
    }
    for n in 0..=59 {
        v.push(MRecur { minute: vec![n], ..base() });
    }
    for n in 0..=23 {
        v.push(MRecur { hour: vec![n], ..base() });
    }
    for n in (-31..=31).filter(|n| *n != 0) {
        v.push(MRecur { monthday: vec![n], ..base() });
    }
    for n in (-128..=127).filter(|n| *n != 0) {
        v.push(MRecur { yearday: vec![n], ..base() });
        v.push(MRecur { setpos: vec![n], ..base() });
    }
    for n in (-53..=53).filter(|n| *n != 0) {
        v.push(MRecur { weekno: vec![n], ..base() });
    }
    for n in 1..=12 {
        v.push(MRecur { month: vec![n], ..base() });
    }
    for (w, _) in ik::WEEKDAYS {
        v.push(MRecur { day: vec![(None, w.into())], ..base() });
        v.push(MRecur { wkst: Some(w.into()), ..base() });
        for n in (-53..=53).filter(|n| *n != 0) {
            v.push(MRecur { day: vec![(Some(n), w.into())], ..base() });
        }
    }
    v
}

fn once(c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C09 once", 0);
    let mut run = |c: &mut Ctx, m: &MRecur, text: &str, what: &str| -> bool {
        c.count(what);
        let step = both(&mut r, c, m, text);
        if let Err(e) = &step {
            c.fail(format!("TZ={}: {e}\nrule: {}\ntext: {text}", c.tz, m.wire()));
        }
        step.is_ok()
    };
    for m in singles() {
        if !run(c, &m, &m.wire(), "single values") {
            return;
        }
    }
    // every pair of parts, in both orders, and every subset
    let mut g = Rng::new(c.seed, "C09 subsets", 0);
    let utc = c.tz == "UTC";
    let full = |g: &mut Rng| loop {
        let m = gen_::recur(g, &Opts { leap: false, ..Opts::doc(utc) });
        let mut m = MRecur { until: Some(gen_::date(g, &Opts { leap: false, ..Opts::doc(utc) })), count: Some(3), interval: 2, ..m };
        let fill = |g: &mut Rng, v: &mut Vec<i8>, lo: i64, hi: i64| {
            *v = (0..1 + g.us(3)).map(|_| g.range(lo, hi) as i8).collect();
        };
        fill(g, &mut m.second, 0, 60);
        fill(g, &mut m.minute, 0, 59);
        fill(g, &mut m.hour, 0, 23);
        fill(g, &mut m.monthday, -31, -1);
        fill(g, &mut m.yearday, 1, 127);
        fill(g, &mut m.weekno, -53, -1);
        fill(g, &mut m.month, 1, 12);
        fill(g, &mut m.setpos, 1, 127);
        m.day = vec![(Some(-1), "SU".into()), (None, "WE".into())];
        m.wkst = Some("MO".into());
        break m;
    };
    let only = |m: &MRecur, mask: u32| {
        let mut m = m.clone();
        let on = |i: u32| mask >> i & 1 == 1;
        if !on(0) { m.until = None }
        if !on(1) { m.count = None }
        if !on(2) { m.interval = 1 }
        if !on(3) { m.second.clear() }
        if !on(4) { m.minute.clear() }
        if !on(5) { m.hour.clear() }
        if !on(6) { m.monthday.clear() }
        if !on(7) { m.yearday.clear() }
        if !on(8) { m.weekno.clear() }
        if !on(9) { m.month.clear() }
        if !on(10) { m.setpos.clear() }
        if !on(11) { m.day.clear() }
        if !on(12) { m.wkst = None }
        m
    };
    for a in 0..13 {
        for b in 0..a {
            for rev in [false, true] {
                for first in [0, 1, 2] {
                    let m = only(&full(&mut g), 1 << a | 1 << b);
                    let mut parts: Vec<String> = m.parts().iter().filter(|p| p.0 != "INTERVAL" || m.interval != 1).map(|(k, v)| format!("{k}={v}")).collect();
                    if rev {
                        parts.reverse();
                    }
                    // FREQ first, in between, last
                    let f = parts.iter().position(|p| p.starts_with("FREQ")).unwrap();
                    let f = parts.remove(f);
                    parts.insert(first.min(parts.len()), f);
                    for _ in 0..5 {
                        if !run(c, &m, &parts.join(";"), "pairs") {
                            return;
                        }
                    }
                }
            }
        }
    }
    for mask in 0..1 << 13 {
        for _ in 0..2 {
            let m = only(&full(&mut g), mask);
            let text = gen_::recur_wire(&mut g, &m, true).replace("=+", "=");
            if !run(c, &m, &text, "subsets of parts") {
                return;
            }
        }
    }
    // numbers which fit their members and which RFC 5545 has no use for: rejected, or kept
    for m in beyond() {
        let text = m.wire();
        match guard("parsing a rule", || text.parse::<ikal::Recur>()) {
            Ok(Err(_)) => c.count("beyond RFC 5545, rejected"),
            _ => {
                if !run(c, &m, &text, "beyond RFC 5545") {
                    return;
                }
            }
        }
    }
    probes(c);
}

fn beyond() -> Vec<MRecur> {
    let base = || MRecur::new("YEARLY");
    let mut v = Vec::new();
    for n in -128..=127i8 {
        let week = n == 0 || n.unsigned_abs() > 53;
        if n == 0 || n.unsigned_abs() > 31 {
            v.push(MRecur { monthday: vec![n], ..base() });
            v.push(MRecur { monthday: vec![1, n, -1], ..base() });
        }
        if week {
            v.push(MRecur { weekno: vec![n, 1], ..base() });
            for (w, _) in ik::WEEKDAYS {
                v.push(MRecur { day: vec![(Some(n), w.into())], ..base() });
            }
        }
        if !(0..=60).contains(&n) {
            v.push(MRecur { second: vec![n], ..base() });
        }
        if !(0..=59).contains(&n) {
            v.push(MRecur { minute: vec![n], ..base() });
        }
        if !(0..=23).contains(&n) {
            v.push(MRecur { hour: vec![n, 2], ..base() });
        }
        if !(1..=12).contains(&n) {
            v.push(MRecur { month: vec![2, n], ..base() });
        }
        if n == 0 {
            v.push(MRecur { yearday: vec![n], ..base() });
            v.push(MRecur { setpos: vec![n], ..base() });
        }
    }
    v
}

/// Values of RFC 5545 which ikal's data model has no room for.
fn probes(c: &mut Ctx) {
    let right = |t: &str, part: &str| match t.parse::<ikal::Recur>() {
        Err(e) => Err(e.to_string()),
        Ok(r) => {
            let s = ikal::ser::ical(&r).unwrap_or_default();
            if s.split(';').any(|p| p == part) { Ok(()) } else { Err(format!("read as {r:?}")) }
        }
    };
    for (id, part) in [("yearday", "BYYEARDAY=366"), ("yearday", "BYYEARDAY=-200"), ("setpos", "BYSETPOS=-366"), ("setpos", "BYSETPOS=128"), ("count", "COUNT=256"), ("count", "COUNT=65536"), ("interval", "INTERVAL=256"), ("interval", "INTERVAL=1000")] {
        c.count("finding probes");
        let t = format!("FREQ=YEARLY;{part}");
        match guard("parsing a rule", || t.parse::<ikal::Recur>().map_err(|e| e.to_string())) {
            Err(p) => c.fail(format!("{p}: {t}")),
            Ok(Err(e)) => c.known(id, format!("{t} is rejected: {}", short(&e))),
            Ok(Ok(_)) => {
                if let Err(e) = right(&t, part) {
                    c.fail(format!("{t}: {e}"));
                }
            }
        }
    }
}

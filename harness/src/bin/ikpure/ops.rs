//! Operations on ikal whose results are compared across histories, threads and processes.

use ikmon::gen_::{self, Mode, Opts};
use ikmon::hostile;
use ikmon::ik::{self, Any, Via};
use ikmon::model::{Dt, Kind, MVal};
use ikmon::mon::guard;
use ikmon::props::c01::required;
use ikmon::props::{c13, c15};
use ikmon::rec;
use ikmon::rng::Rng;

/// A document from which a component shared by all threads is read.
pub struct Doc {
    pub kind: Kind,
    pub valarm: bool,
    pub text: String,
}

#[derive(Debug)]
pub enum Op {
    Parse(Kind, bool, Via, String),
    Value(&'static str, String),
    Ser(usize),
    Iterate(usize, usize),
    Query(usize, c15::Query),
    /// Two iterations taken in turns, with parsing in between.
    Turns(usize, usize, usize, String),
    /// Fails or succeeds many times in a row.
    Burst(Kind, String, usize),
    /// Date plus rule.
    Add(String, String),
    Compare(usize, usize),
    Clone(usize),
}

impl Op {
    pub fn group(&self) -> &'static str {
        match self {
            Op::Parse(..) => "parse",
            Op::Value(..) => "value",
            Op::Ser(_) => "serialise",
            Op::Iterate(..) => "iterate",
            Op::Query(..) => "query",
            Op::Turns(..) => "interleaved iterations",
            Op::Burst(..) => "burst",
            Op::Add(..) => "add",
            Op::Compare(..) => "compare",
            Op::Clone(_) => "clone",
        }
    }
}

pub struct Pool {
    pub docs: Vec<Doc>,
    pub ops: Vec<Op>,
}

/// All there is to see of a component: its fields and its text.
pub fn seen(a: &Any) -> String {
    format!("{:?}\n{}", a.dump(), a.ser().unwrap_or_else(|e| format!("error {e}")))
}

fn parsed(r: &ikal::Result<Any>) -> String {
    match r {
        Ok(a) => format!("ok {}", seen(a)),
        Err(e) => format!("error {e} / {e:?}"),
    }
}

fn value(ty: &str, s: &str) -> String {
    fn f<T: std::str::FromStr<Err = ikal::Error> + std::fmt::Debug>(s: &str, show: impl Fn(&T) -> String) -> String {
        match s.parse::<T>() {
            Ok(v) => format!("ok {v:?} {}", show(&v)),
            Err(e) => format!("error {e} / {e:?}"),
        }
    }
    match ty {
        "Date" => f::<ikal::Date>(s, |d| format!("{d} {:?} {}", d.date_naive(), d.has_time())),
        "DateTime" => f::<ikal::DateTime>(s, |d| format!("{d} {:?} {:?}", d.naive(), chrono::DateTime::<chrono::Local>::try_from(*d).map_err(|_| ()))),
        "Period" => f::<ikal::Period>(s, |p| format!("{p} {:?}", p.duration())),
        "Recur" => f::<ikal::Recur>(s, |r| format!("{:?}", ik::rd_recur(r))),
        "Weekday" => f::<ikal::Weekday>(s, ToString::to_string),
        "WeekdayNum" => f::<ikal::WeekdayNum>(s, ToString::to_string),
        "Status" => f::<ikal::Status>(s, ToString::to_string),
        "Class" => f::<ikal::Class>(s, ToString::to_string),
        "TimeTransparency" => f::<ikal::TimeTransparency>(s, ToString::to_string),
        "Geo" => f::<ikal::Geo>(s, ToString::to_string),
        "RequestStatus" => f::<ikal::RequestStatus>(s, |r| format!("{r:?}")),
        "Trigger" => f::<ikal::Trigger>(s, |r| format!("{r:?}")),
        _ => format!("{:?}", ikal::parse_duration(s).map_err(|e| e.to_string())),
    }
}

const TYPES: &[&str] = &[
    "Date", "DateTime", "Period", "Recur", "Weekday", "WeekdayNum", "Status", "Class", "TimeTransparency", "Geo", "RequestStatus", "Trigger", "duration",
];

impl Op {
    /// The result, in a form in which equal results are equal texts.
    pub fn run(&self, comps: &[Option<Any>]) -> String {
        let at = |i: usize| comps[i].as_ref();
        guard("it", || match self {
            Op::Parse(kind, valarm, via, s) => parsed(&Any::parse(*kind, *valarm, s, *via)),
            Op::Value(ty, s) => value(ty, s),
            Op::Ser(i) => at(*i).map_or(String::new(), |a| format!("{:?}", a.ser().map_err(|e| e.to_string()))),
            Op::Iterate(i, n) => at(*i).map_or(String::new(), |a| rec::iterate(a, |it| it.take(*n).map(|x| seen(&x)).collect::<Vec<_>>().join("\n"))),
            Op::Query(i, q) => at(*i).map_or(String::new(), |a| format!("{:?}", c15::run(a, *q, 6).map(|v| v.iter().map(seen).collect::<Vec<_>>()))),
            Op::Turns(i, j, n, s) => {
                let (Some(a), Some(b)) = (at(*i), at(*j)) else { return String::new() };
                let mut out = String::new();
                rec::iterate(a, |x| {
                    rec::iterate(b, |y| {
                        for k in 0..*n {
                            out.push_str(&x.next().map_or("-".into(), |v| seen(&v)));
                            if k % 2 == 0 {
                                out.push_str(&parsed(&Any::parse(Kind::VEvent, false, s, Via::FromStr)));
                            }
                            out.push_str(&y.next().map_or("-".into(), |v| seen(&v)));
                        }
                    });
                });
                out
            }
            Op::Burst(kind, s, n) => {
                let mut all: Vec<String> = (0..*n).map(|_| parsed(&Any::parse(*kind, false, s, Via::FromStr))).collect();
                all.dedup();
                all.join("\n--- but a later time ---\n")
            }
            Op::Add(d, rule) => match (d.parse::<ikal::Date>(), rule.parse::<ikal::Recur>()) {
                (Ok(d), Ok(r)) => format!("{:?}", r + d),
                (d, r) => format!("{d:?} {r:?}"),
            },
            Op::Compare(i, j) => format!("{:?}", at(*i) == at(*j)),
            Op::Clone(i) => at(*i).map_or(String::new(), |a| seen(&a.clone())),
        })
        .unwrap_or_else(|e| e)
    }
}

/// Almost the same text: one letter or digit of a value replaced, so that length, UID and most else stay.
fn nearly(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..50 {
        let i = r.us(v.len());
        // in a value, not in a name
        let in_value = v[..i].iter().rev().take_while(|c| **c != '\n').any(|c| *c == ':');
        if !in_value {
            continue;
        }
        let new = match v[i] {
            c if c.is_ascii_digit() => char::from(b'0' + r.below(10) as u8),
            c if c.is_ascii_lowercase() => char::from(b'a' + r.below(26) as u8),
            _ => continue,
        };
        if new != v[i] {
            v[i] = new;
            break;
        }
    }
    v.into_iter().collect()
}

fn recurring(r: &mut Rng, uid: &str, like: Option<(Dt, Kind)>) -> (String, Kind, c15::Query) {
    let (start, kind) = like.unwrap_or_else(|| (rec::start(r, (1950, 2100)), *r.pick(&rec::RECURRING)));
    let mut rule = rec::rule(r);
    let free: Vec<Dt> = rec::Series::new(start, &rule).take(30).collect();
    if r.chance(1, 2) {
        c13::bounds(r, &mut rule, &free);
    }
    let ex = c13::exceptions(r, &free);
    let mut m = rec::plain(kind, start, &rule, &ex);
    m.lines[1] = rec::known("UID", MVal::Text(uid.into()));
    // bounds on occurrences: a window far away takes as long as walking there does
    let (a, b) = (*r.pick(&free[..15]), *r.pick(&free[..15]));
    let (a, b) = (c15::bound(r, &a), c15::bound(r, &b));
    let q = match r.below(3) {
        0 => c15::Query::Between(a, b),
        1 => c15::Query::After(a),
        _ => c15::Query::At(a),
    };
    (m.text(), kind, q)
}

pub fn pool(seed: u64, idx: u64) -> Pool {
    let mut r = Rng::new(seed, "C19", idx);
    let o = Opts { mode: if r.chance(1, 3) { Mode::Raw } else { Mode::Wire }, ..Opts::doc(true) };
    let mut docs = Vec::new();
    let add = |docs: &mut Vec<Doc>, r: &mut Rng, kind: Kind, text: String| docs.push(Doc { kind, valarm: r.chance(1, 2), text });
    // two families of documents, each with near-duplicates
    for _ in 0..2 {
        let kind = gen_::any_kind(&mut r);
        let text = gen_::comp(&mut r, &o, kind).text();
        for _ in 0..1 + r.us(2) {
            let near = nearly(&mut r, &text);
            add(&mut docs, &mut r, kind, near);
        }
        add(&mut docs, &mut r, kind, text);
    }
    // recurring components with the same UID, start or rule
    let start = rec::start(&mut r, (1950, 2100));
    let kind = *r.pick(&rec::RECURRING);
    let mut queries = Vec::new();
    for k in 0..4 {
        let like = if k < 3 { Some((start, kind)) } else { None };
        let (text, kind, q) = recurring(&mut r, "same", like);
        queries.push(Op::Query(docs.len(), q));
        if r.chance(1, 3) {
            let near = nearly(&mut r, &text);
            add(&mut docs, &mut r, kind, text);
            add(&mut docs, &mut r, kind, near);
        } else {
            add(&mut docs, &mut r, kind, text);
        }
    }
    let mut ops = Vec::new();
    for d in &docs {
        ops.push(Op::Parse(d.kind, d.valarm, *r.pick(&ik::VIAS), d.text.clone()));
        // broken copies
        for _ in 0..1 + r.us(2) {
            let mut s = d.text.clone();
            hostile::mutate(&mut r, &mut s, &d.text);
            ops.push(Op::Parse(d.kind, d.valarm, Via::FromStr, s));
        }
        if r.chance(1, 4) {
            ops.push(Op::Parse(gen_::any_kind(&mut r), d.valarm, Via::FromStr, d.text.clone()));
        }
    }
    let n = docs.len();
    for i in 0..n {
        ops.push(Op::Ser(i));
        if r.chance(1, 3) {
            ops.push(Op::Clone(i));
        }
        ops.push(Op::Compare(i, r.us(n)));
        if i >= n - 5 {
            ops.push(Op::Iterate(i, 1 + r.us(12)));
            ops.push(Op::Iterate(i, 1 + r.us(12)));
        }
    }
    ops.append(&mut queries);
    for _ in 0..3 {
        let s = docs[r.us(n)].text.clone();
        ops.push(Op::Turns(n - 1 - r.us(4), n - 1 - r.us(4), 1 + r.us(6), s));
    }
    for _ in 0..6 {
        let ty = *r.pick(TYPES);
        let s = match ty {
            "Weekday" => (*r.pick(&ik::WEEKDAYS)).0.to_string(),
            "WeekdayNum" => format!("{}{}", r.range(-140, 140), r.pick(&ik::WEEKDAYS).0),
            "Date" => gen_::date(&mut r, &o).wire(),
            "DateTime" => gen_::datetime(&mut r, &o).wire(),
            "duration" => gen_::duration(&mut r, &o).1,
            "Recur" => rec::rule(&mut r).wire(),
            _ => (*r.pick(hostile::PIECES)).to_string(),
        };
        ops.push(Op::Value(ty, s.clone()));
        let near = nearly(&mut r, &format!(":{s}x"));
        ops.push(Op::Value(ty, near[1..near.len() - 1].to_string()));
        ops.push(Op::Value(*r.pick(TYPES), s));
    }
    for _ in 0..3 {
        let (d, rule) = (rec::start(&mut r, (1950, 2100)).wire(), rec::rule(&mut r).wire());
        ops.push(Op::Add(d.clone(), rule.clone()));
        ops.push(Op::Add(d, rec::rule(&mut r).wire()));
    }
    if r.chance(1, 8) {
        let d = &docs[r.us(n)];
        let mut s = d.text.clone();
        hostile::mutate(&mut r, &mut s, &d.text);
        ops.push(Op::Burst(d.kind, s, 40 + r.us(200)));
    }
    Pool { docs, ops }
}

/// Operations to be repeated many times, those which take little time first (and how many these are): a quarter of all.
pub fn endurance(seed: u64, part: usize) -> (Pool, usize) {
    let mut r = Rng::new(seed, "C19 endurance", part as u64);
    let (mut docs, mut ops) = (Vec::new(), Vec::new());
    let o = Opts { mode: Mode::Wire, depth: false, ..Opts::doc(true) };
    for kind in ikmon::model::KINDS.iter().skip(part).step_by(4) {
        let lines = required(*kind).join("\r\n");
        let tag = kind.tag();
        let good = format!("BEGIN:{tag}\r\n{lines}\r\nEND:{tag}\r\n");
        let inner = match kind.kids().iter().flat_map(|k| k.1).next() {
            Some(k) => format!("BEGIN:{0}\r\n{1}\r\nX-A;B=\"c:d\r\nEND:{0}\r\n", k.tag(), required(*k).join("\r\n")),
            None => "BEGIN:VNONE\r\nEND:VNONE\r\n".into(),
        };
        for s in [
            good.clone(),
            format!("BEGIN:{tag}\r\n{lines}\r\n"),
            format!("BEGIN:{tag}\r\n{lines}\r\nX-A;B=\"c\r\nEND:{tag}\r\n"),
            format!("BEGIN:{tag}\r\n{lines}\r\n{inner}END:{tag}\r\n"),
            format!("BEGIN:{tag}\r\nEND:{tag}\r\n"),
        ] {
            ops.push(Op::Parse(*kind, r.chance(1, 2), *r.pick(&ik::VIAS), s));
        }
        docs.push(Doc { kind: *kind, valarm: false, text: good });
        ops.push(Op::Ser(docs.len() - 1));
    }
    for (i, ty) in TYPES.iter().enumerate() {
        if i % 4 == part {
            for s in ["20240101T000000Z", "20240101T000000Z/PT1H", "PT1H", "FREQ=DAILY;BYDAY=MO", "FREQ=DAILY;BYDAY=XX", "CONFIRMED", "2.8;a;b", "1.5;2.5", "", "-1MO", "99999999999999999999"] {
                ops.push(Op::Value(ty, s.into()));
            }
        }
    }
    let start = rec::start(&mut r, (1950, 2100)).wire();
    ops.push(Op::Add(start.clone(), rec::rule(&mut r).wire()));
    ops.push(Op::Add(start, "FREQ=NEVER".into()));
    let light = ops.len();
    for kind in ikmon::model::KINDS.iter().skip(part).step_by(4) {
        let text = gen_::comp(&mut r, &o, *kind).text();
        ops.push(Op::Parse(*kind, true, Via::FromStr, text.clone()));
        for _ in 0..3 {
            let mut s = text.clone();
            hostile::mutate(&mut r, &mut s, &text);
            ops.push(Op::Parse(*kind, true, Via::FromStr, s));
        }
        docs.push(Doc { kind: *kind, valarm: true, text });
        ops.push(Op::Ser(docs.len() - 1));
    }
    for _ in 0..3 {
        let (text, kind, q) = recurring(&mut r, "same", None);
        docs.push(Doc { kind, valarm: false, text });
        let i = docs.len() - 1;
        ops.push(Op::Iterate(i, 2));
        ops.push(Op::Query(i, q));
        ops.push(Op::Compare(i, 0));
        ops.push(Op::Clone(i));
    }
    (Pool { docs, ops }, light)
}

/// The shared components of a pool: those documents which can be read.
pub fn components(p: &Pool) -> Vec<Option<Any>> {
    p.docs
        .iter()
        .map(|d| guard("parsing", || Any::parse(d.kind, d.valarm, &d.text, Via::FromStr)).ok().and_then(Result::ok))
        .collect()
}

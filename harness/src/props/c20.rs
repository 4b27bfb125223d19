//! C20: work and memory grow linearly with the input.

use super::c01::required;
use super::c15;
use crate::gen_::{self, Mode, Opts};
use crate::ik::{self, Any, Via};
use crate::model::{Body, Card, Dt, Field, KINDS, Kind, MComp, MLine, MRecur, MVal, Ty, fields};
use crate::mon::{Ctx, Prop, allocated};
use crate::rec;
use crate::rng::Rng;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C20",
    rule: "some 300 families of documents and components, one for each way of being large: every property of every component repeated, every list and text \
           long, long and folded lines, many parameters, unknown lines, sub-components of all kinds, garbage; each at n, 2n and 4n, parsed, made invalid at \
           the end and rejected, serialised and iterated while callgrind counts the instructions ikal executes and the allocator counts the bytes it asks \
           for; the growth (w(4n)-w(2n))/(w(2n)-w(n)) is 2 for work proportional to the size and 4 for quadratic work, and judged above 2.6; distinct = \
           distinct (family, operation), non-trivial = the work at 4n is at least twice that at n",
    cases: |t| chunks() * if t { SIZES.len() as u64 } else { 1 },
    zones: &["UTC"],
    case,
    once: |_| {},
    need: &[("distinct", 400), ("parsing judged", 150), ("rejecting judged", 150), ("serialising judged", 100), ("iterating judged", 20), ("values judged", 15), ("instructions (millions)", 1_000)],
    single_threaded_shards: true,
    assumptions: "instructions as counted by callgrind in the optimised build with overflow checks and debug assertions on; growth is judged between some \
                  10 KiB and some 100 KiB; a factor of log n (maps of unknown names) is within the threshold",
};

/// Families run by one process.
const CHUNK: u64 = 4;
/// Sizes of a thorough run; a quick one has the first.
const SIZES: [usize; 4] = [1, 3, 10, 25];

fn chunks() -> u64 {
    (families().len() as u64).div_ceil(CHUNK)
}

const LIMIT: f64 = 2.6;

// ---------------------------------------------------------------- families

#[derive(Clone, Debug)]
enum Family {
    /// The same property again and again, in this kind of component.
    Lines(Kind, &'static Field),
    /// One long list.
    List(Kind, &'static Field),
    /// One long text, with some characters to escape; folded or not.
    Long(Kind, &'static Field, bool),
    /// Unknown lines: with the same name, or each with its own.
    Unknown(Kind, bool),
    /// One line with many parameters: all distinct, or all the same; quoted or not.
    Params(Kind, bool, bool),
    /// Many lines with some parameters each.
    LinesParams(Kind),
    /// One long parameter value.
    LongParam(Kind, bool),
    /// One long name.
    LongName(Kind),
    /// Many sub-components of this kind.
    Kids(Kind, Kind),
    /// Sub-components with sub-components.
    Tree,
    /// One long run of the same character, in a value of this property or a parameter.
    Run(Kind, &'static str, &'static str),
    /// Folds and nothing else: after every character, or many in a row.
    Folds(Kind, bool),
    /// What is no document.
    Garbage(Kind, &'static str),
    /// A value of this type, from pieces.
    Value(&'static str, &'static str, &'static str, &'static str),
    /// Occurrences of a component of fixed size.
    Occurrences(Kind, &'static str, bool),
    /// A fixed number of occurrences of a component of growing size.
    Size(Kind, &'static str),
    /// Window queries over growing distances.
    Window(Kind, bool),
    /// Window queries with growing numbers of occurrences.
    Windows(Kind, &'static str, u8),
}

fn families() -> Vec<Family> {
    let mut v = Vec::new();
    for kind in KINDS {
        for f in fields(kind) {
            v.push(Family::Lines(kind, f));
            if f.card == Card::App || matches!(f.ty, Ty::RDate | Ty::Recur) {
                v.push(Family::List(kind, f));
            }
            if matches!(f.ty, Ty::Text | Ty::Uri | Ty::RStatus | Ty::Class) {
                v.push(Family::Long(kind, f, false));
                v.push(Family::Long(kind, f, true));
            }
        }
        for b in [false, true] {
            v.push(Family::Unknown(kind, b));
            v.push(Family::Params(kind, b, false));
            v.push(Family::Params(kind, b, true));
            v.push(Family::LongParam(kind, b));
            v.push(Family::Folds(kind, b));
        }
        v.push(Family::LinesParams(kind));
        v.push(Family::LongName(kind));
        for (_, kids) in kind.kids() {
            for k in *kids {
                v.push(Family::Kids(kind, *k));
            }
        }
    }
    v.push(Family::Tree);
    // every place a value can stand in, and every character which means something in one of them
    for (i, place) in ["SUMMARY:", "CATEGORIES:", "URL:", "CLASS:", "RSTATUS:2.0;", "RSTATUS:2.0;x;", "X-LINE:", "X-LINE;P=", "X-LINE;P=\"", "SUMMARY;P=\"", "ATTENDEE;CN="].iter().enumerate() {
        for (j, piece) in ["\\", "\\\\,", "\\n", ",", ";", ":", "=", "\"", "'", " ", "\t", "^", "%20", "é", "\u{1F600}"].iter().enumerate() {
            let param = place.contains("P=") || place.contains("CN=");
            if param && (*piece == "\"" || !place.ends_with('"') && (*piece == ";" || *piece == ":")) {
                continue;
            }
            v.push(Family::Run([Kind::VEvent, Kind::VTodo][(i + j) % 2], place, piece));
        }
    }
    for (i, g) in [
        "a", "\r\n", ";", ":", "\\", "\"", "BEGIN:VEVENT\r\n", "BEGIN:VCALENDAR\r\n", "BEGIN:VALARM\r\n", "END:VCALENDAR\r\n", "END:VEVENT\r\n", "X;", "X-A;B=\"", "X-A;B=c", "é", "X-A:b\r\n", "\r\n ", "\n", "\r", " ",
        "BEGIN:VTIMEZONE\r\nBEGIN:STANDARD\r\n", "BEGIN:VEVENT\r\nBEGIN:VALARM\r\n",
    ]
    .iter()
    .enumerate()
    {
        v.push(Family::Garbage(KINDS[i % 11], g));
    }
    for (ty, head, piece, tail) in [
        ("duration", "PT", "0", "1S"),
        ("duration", "P", "1", "D"),
        ("duration", "P", "1D", ""),
        ("duration", "-P1DT1H", "0", "1M"),
        ("Geo", "", "1", ".5;1"),
        ("Geo", "1;1.", "3", ""),
        ("Recur", "FREQ=DAILY;BYDAY=", "-1MO,", "SU"),
        ("Recur", "FREQ=DAILY;BYSECOND=", "1,", "59"),
        ("Recur", "FREQ=DAILY;BYMONTH=", "12,", "1"),
        ("Recur", "FREQ=DAILY", ";COUNT=1", ""),
        ("Recur", "FREQ=DAILY;BYDAY=", "-1MO,", "X"),
        ("Recur", "", "FREQ=DAILY;", "INTERVAL=2"),
        ("RequestStatus", "2.0;", "a\\;", ""),
        ("RequestStatus", "2.0;a;", "b", ""),
        ("Class", "", "X", ""),
        ("Period", "20240101T000000Z/PT", "0", "1S"),
        ("Date", "", "2", ""),
        ("DateTime", "20240101T000000", "Z", ""),
        ("Status", "", "CONFIRMED", ""),
        ("Weekday", "", "MO", ""),
        ("WeekdayNum", "", "1", "MO"),
        ("Trigger", "-PT", "0", "1M"),
        ("TimeTransparency", "", "OPAQUE", ""),
    ] {
        v.push(Family::Value(ty, head, piece, tail));
    }
    for kind in rec::RECURRING {
        for (freq, _) in ik::FREQS {
            v.push(Family::Occurrences(kind, freq, false));
            v.push(Family::Size(kind, freq));
        }
        v.push(Family::Occurrences(kind, "DAILY", true));
        v.push(Family::Window(kind, false));
        v.push(Family::Window(kind, true));
        for (freq, _) in ik::FREQS {
            for how in 0..3 {
                // no day has more than one occurrence of these
                if how < 2 || rec::is_subdaily(&MRecur::new(freq)) {
                    v.push(Family::Windows(kind, freq, how));
                }
            }
        }
    }
    v
}

/// A document without its last line, its last line, and what it takes to make it invalid right before that.
struct Doc {
    kind: Kind,
    body: String,
}

impl Doc {
    fn valid(&self) -> String {
        format!("{}END:{}\r\n", self.body, self.kind.tag())
    }
    fn broken(&self, how: u64) -> String {
        let (b, t) = (&self.body, self.kind.tag());
        match how {
            // nothing more
            0 => b.clone(),
            // a line which is none
            1 => format!("{b}nothing\r\nEND:{t}\r\n"),
            // the end of something else
            2 => format!("{b}END:X{t}\r\n"),
            // a component which does not end
            _ => format!("{b}BEGIN:VALARM\r\nACTION:AUDIO\r\nEND:{t}\r\n"),
        }
    }
}

fn line(kind: Kind, f: &Field, r: &mut Rng) -> String {
    let o = Opts { leap: false, max_list: 1, depth: false, ..Opts::doc(true) };
    let mut value = || match f.ty {
        Ty::Text if f.card == Card::App => "one\\, two".to_string(),
        Ty::Text => "some text\\; with escapes\\, and words".to_string(),
        Ty::Uri => "mailto:someone@example.com".to_string(),
        Ty::Recur => "FREQ=MONTHLY;INTERVAL=2;BYDAY=1MO,-1SU".to_string(),
        Ty::Class => "PRIVATE".to_string(),
        Ty::RStatus => "2.8;Success\\, really;with data".to_string(),
        Ty::RDate => "20240101T120000Z,20240102T120000Z".to_string(),
        ty => gen_::value(r, &Opts { mode: Mode::Wire, variants: false, ..o.clone() }, kind, ty).1,
    };
    let v = value();
    format!("{}:{v}\r\n", f.name)
}

fn open(kind: Kind) -> String {
    let mut s = format!("BEGIN:{}\r\n", kind.tag());
    for l in required(kind) {
        s.push_str(&l);
        s.push_str("\r\n");
    }
    s
}

fn small(kind: Kind) -> String {
    let mut s = open(kind);
    if !kind.is_alarm() {
        s.push_str("X-NOTE;LANGUAGE=fr:une note\r\nCOMMENT:a comment\r\n");
    }
    format!("{s}END:{}\r\n", kind.tag())
}

/// The document of this family with `n` bytes, more or less.
fn doc(f: &Family, n: usize, r: &mut Rng) -> Option<Doc> {
    let fill = |piece: &str, n: usize| piece.repeat((n / piece.len()).max(1));
    // pieces which differ by a number
    let numbered = |n: usize, piece: &dyn Fn(usize) -> String| {
        let mut s = String::with_capacity(n + 100);
        let mut i = 0;
        while s.len() < n {
            s.push_str(&piece(i));
            i += 1;
        }
        s
    };
    let (kind, lines) = match f {
        Family::Lines(kind, f) => (*kind, fill(&line(*kind, f, r), n)),
        Family::List(kind, f) => {
            let l = match f.ty {
                Ty::Recur => format!("{}:FREQ=YEARLY;BYYEARDAY={}1\r\n", f.name, fill("-100,", n)),
                Ty::RDate if r.chance(1, 2) => format!("{};VALUE=PERIOD:{}20240101T000000Z/PT1S\r\n", f.name, fill("20240101T000000Z/PT1H,", n)),
                Ty::RDate => format!("{}:{}20240101\r\n", f.name, fill("20240101,", n)),
                Ty::Date | Ty::DateTime => format!("{}:{}20240101T000000\r\n", f.name, fill("20240101T000000,", n)),
                Ty::Period => format!("{}:{}20240101T000000Z/P1D\r\n", f.name, fill("20240101T000000Z/P1D,", n)),
                _ => format!("{}:{}end\r\n", f.name, fill("word\\,\\;,", n)),
            };
            (*kind, l)
        }
        Family::Long(kind, f, folded) => {
            let text = fill(if f.ty == Ty::Uri { "http://example.com/é?a=b&" } else { "wörd\\, word\\; \\n中 " }, n);
            let text = if f.ty == Ty::RStatus { format!("2.0;{text}") } else { text };
            let mut l = format!("{}:{text}", f.name);
            if *folded {
                let mut out = String::with_capacity(n * 2);
                for (i, ch) in l.chars().enumerate() {
                    if i % 60 == 59 {
                        out.push_str("\r\n ");
                    }
                    out.push(ch);
                }
                l = out;
            }
            (*kind, l + "\r\n")
        }
        Family::Unknown(kind, same) => (*kind, numbered(n, &|i| if *same { "X-SAME:some value\r\n".into() } else { format!("X-{}:some value {i}\r\n", i * 7919 % 1_000_003) })),
        Family::Params(kind, same, quoted) => {
            let q = if *quoted { "\"" } else { "" };
            (*kind, format!("X-LINE{}:x\r\n", numbered(n, &|i| if *same { format!(";SAME={q}value{q}") } else { format!(";P{}={q}value{q}", i * 7919 % 1_000_003) })))
        }
        Family::LinesParams(kind) => (*kind, numbered(n, &|i| format!("X-L{i};LANGUAGE=fr;CN=\"a: b; c\";ROLE=CHAIR:value\r\n"))),
        Family::LongParam(kind, quoted) => {
            (*kind, if *quoted { format!("X-LINE;P=\"{}\":x\r\n", fill("va;l:u,e é ", n)) } else { format!("X-LINE;P={}:x\r\n", fill("value é ", n)) })
        }
        Family::LongName(kind) => (*kind, format!("X-{}:x\r\n", fill("NAME-", n))),
        Family::Kids(kind, kid) => (*kind, fill(&small(*kid), n)),
        Family::Tree => {
            let alarms = small(Kind::Display).repeat(3);
            let event = format!("{}{alarms}END:VEVENT\r\n", open(Kind::VEvent));
            let zone = format!("{}{}{}END:VTIMEZONE\r\n", open(Kind::VTimezone), small(Kind::Standard), small(Kind::Daylight));
            (Kind::VCalendar, fill(&format!("{event}{zone}{}", small(Kind::VTodo)), n))
        }
        Family::Run(kind, place, piece) => {
            let end = match (place.ends_with('"'), place.contains(':')) {
                (true, _) => "\":x",
                (_, false) => ":x",
                _ => "",
            };
            (*kind, format!("{place}{}{end}\r\n", fill(piece, n)))
        }
        Family::Folds(kind, runs) => (*kind, format!("X-LINE:{}\r\n", if *runs { fill("\r\n ", n) } else { fill("a\r\n ", n) })),
        _ => return None,
    };
    // values the component needs come first, so that a required property repeated is not missing before
    Some(Doc { kind, body: format!("{}{lines}", open(kind)) })
}

fn recurring(kind: Kind, freq: &str, m: impl FnOnce(&mut MComp)) -> Any {
    let rule = MRecur::new(freq);
    let mut c = rec::plain(kind, Dt::Naive(1_700_000_000, 0), &rule, &[]);
    m(&mut c);
    Any::build(&c, false)
}

fn size(f: &Family) -> usize {
    match f {
        Family::Kids(..) | Family::Tree | Family::Lines(..) | Family::Unknown(..) | Family::LinesParams(_) => 16_000,
        Family::Occurrences(..) | Family::Window(..) | Family::Windows(..) => 100,
        Family::Size(..) => 4_000,
        _ => 8_000,
    }
}

/// One counted call.
struct Run {
    what: &'static str,
    work: Box<dyn FnOnce()>,
}

fn keep<T>(x: T) {
    // freeing is work, too
    drop(std::hint::black_box(x));
}

fn runs(f: &Family, n: usize, r: &mut Rng, how: u64) -> Vec<Run> {
    let mut v: Vec<Run> = Vec::new();
    let mut add = |what: &'static str, work: Box<dyn FnOnce()>| v.push(Run { what, work });
    if let Some(d) = doc(f, n, r) {
        let (kind, good, bad) = (d.kind, d.valid(), d.broken(how));
        if let Ok(a) = Any::parse(kind, false, &good, Via::FromStr) {
            add("serialising", Box::new(move || keep(a.ser())));
        }
        add("parsing", Box::new(move || keep(Any::parse(kind, false, &good, Via::FromStr))));
        add("rejecting", Box::new(move || keep(Any::parse(kind, false, &bad, Via::FromStr).map_err(|e| e.to_string()))));
        return v;
    }
    match f {
        Family::Garbage(kind, piece) => {
            let (kind, s) = (*kind, piece.repeat(n.div_ceil(piece.len())));
            add("rejecting", Box::new(move || keep(Any::parse(kind, false, &s, Via::FromStr).map_err(|e| e.to_string()))));
        }
        Family::Value(ty, head, piece, tail) => {
            let s = format!("{head}{}{tail}", piece.repeat(n.div_ceil(piece.len())));
            let ty = *ty;
            add("values", Box::new(move || keep(crate::props::c01::value(&s, ty, Via::FromStr))));
        }
        Family::Occurrences(kind, freq, ex) => {
            let a = recurring(*kind, freq, |c| {
                if *ex {
                    let vals = (1..200).map(|i| {
                        let d = Dt::Naive(1_700_000_000 + i * 2 * 86_400, 0);
                        (MVal::D(d), d.wire())
                    });
                    c.lines.push(MLine { name: "EXDATE".into(), body: Body::Known("EXDATE", vals.collect()), params: vec![] });
                }
            });
            add("iterating", Box::new(move || keep(rec::iterate(&a, |it| it.take(n).count()))));
        }
        Family::Size(kind, freq) => {
            let a = recurring(*kind, freq, |c| {
                for i in 0..n / 20 {
                    c.lines.push(rec::known("CATEGORIES", MVal::Text(format!("category {i}"))));
                }
            });
            add("iterating", Box::new(move || keep(rec::iterate(&a, |it| it.take(8).count()))));
        }
        Family::Window(kind, at) => {
            let a = recurring(*kind, "DAILY", |_| ());
            let far = Dt::Naive(1_700_000_000 + n as i64 * 86_400, 0);
            let further = Dt::Naive(1_700_000_000 + n as i64 * 86_400 + 10 * 86_400, 0);
            let (b, c) = (c15::Bound::Date(ik::mk_date(&far)), c15::Bound::Date(ik::mk_date(&further)));
            let q = if *at { c15::Query::At(b) } else { c15::Query::Between(b, c) };
            add("iterating", Box::new(move || keep(c15::run(&a, q, 5))));
        }
        Family::Windows(kind, freq, how) => {
            let a = recurring(*kind, freq, |_| ());
            let day = Dt::Date(1_700_000_000 / 86_400 - i64::from(*how == 0));
            let far = Dt::Date(1_700_000_000 / 86_400 + 150_000);
            let q = match how {
                0 => c15::Query::After(c15::Bound::Date(ik::mk_date(&day))),
                1 => c15::Query::Between(c15::Bound::Date(ik::mk_date(&day)), c15::Bound::Date(ik::mk_date(&far))),
                _ => c15::Query::At(c15::Bound::Date(ik::mk_date(&Dt::Date(1_700_000_000 / 86_400 + 1)))),
            };
            let n = if *freq == "YEARLY" || (*freq == "HOURLY" && *how == 2) { n / 20 } else { n };
            add("iterating", Box::new(move || keep(c15::run(&a, q, n))));
        }
        _ => unreachable!(),
    }
    v
}

// ---------------------------------------------------------------- counting

/// What callgrind counts. It must stay a function of its own with this name.
#[inline(never)]
#[unsafe(no_mangle)]
extern "C" fn ikmon_counted(f: &mut Option<Box<dyn FnOnce()>>) {
    if let Some(f) = f.take() {
        f();
    }
    std::hint::black_box(());
}

/// Subcommand: runs the families of one chunk at three sizes, printing a line before and after each counted call.
pub fn probe(seed: &str, chunk: &str, only: &str, times: &str) -> i32 {
    use std::io::Write as _;
    crate::mon::install_hook();
    let (seed, chunk): (u64, u64) = (seed.parse().expect("seed"), chunk.parse().expect("chunk"));
    let (only, times): (Option<usize>, usize) = (only.parse().ok(), times.parse().expect("factor"));
    let all = families();
    let mut out = std::io::stdout();
    for (i, f) in all.iter().enumerate().skip((chunk * CHUNK) as usize).take(CHUNK as usize) {
        if only.is_some_and(|o| o != i) {
            continue;
        }
        let mut r = Rng::new(seed, "C20", i as u64);
        let how = r.below(4);
        let again = r.u64();
        // another size each time, as buffers and copies have steps of their own
        let mut j = Rng::new(seed, &format!("C20 times {times}"), i as u64);
        let base = size(f) * times + j.us(size(f) * times / 4);
        for k in [1, 2, 4] {
            let mut r = Rng::new(again, "C20", 0);
            for run in runs(f, base * k, &mut r, how) {
                writeln!(out, "run {i} {} {k}", run.what).expect("write");
                let mut work = Some(run.work);
                let before = allocated().0;
                ikmon_counted(&mut work);
                writeln!(out, "bytes {}", allocated().0 - before).expect("write");
            }
        }
    }
    writeln!(out, "done").expect("write");
    0
}

struct Probe {
    /// (family, operation, factor) -> (instructions, bytes).
    seen: Vec<(usize, String, u64, u64, u64)>,
    last: String,
    done: bool,
    status: String,
}

/// Runs a chunk under callgrind, with this many seconds of CPU time.
fn count(seed: u64, chunk: u64, only: Option<usize>, times: usize, cpu: u64) -> Probe {
    let dir = std::env::temp_dir().join(format!("ikmon-c20-{}-{chunk}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let mut child = std::process::Command::new("/bin/sh")
        .arg("-c")
        .arg(format!(
            "ulimit -t {cpu}; exec valgrind --tool=callgrind --toggle-collect=ikmon_counted --dump-after=ikmon_counted --callgrind-out-file=cg --quiet \"$0\" cost {seed} {chunk} {} {times}",
            only.map_or("all".into(), |o| o.to_string())
        ))
        .arg(std::env::current_exe().expect("own path"))
        .current_dir(&dir)
        .env("TZ", "UTC")
        // copying bytes counts as 1 or as 1/32 per byte, depending on addresses, with the string instructions
        .env("GLIBC_TUNABLES", "glibc.cpu.x86_rep_movsb_threshold=1000000000000:glibc.cpu.x86_rep_stosb_threshold=1000000000000")
        .stdin(std::process::Stdio::null())
        .stdout(std::fs::File::create(dir.join("stdout")).expect("scratch file"))
        .stderr(std::fs::File::create(dir.join("stderr")).expect("scratch file"))
        .spawn()
        .expect("valgrind");
    let status = loop {
        if let Some(status) = child.try_wait().expect("valgrind") {
            break status;
        }
        if stopped() {
            let _ = child.kill();
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    };
    let text = String::from_utf8_lossy(&std::fs::read(dir.join("stdout")).expect("output")).into_owned();
    let mut seen = Vec::new();
    let (mut last, mut head) = (String::new(), None);
    let mut n = 0;
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("run ") {
            last = x.to_string();
            let p: Vec<&str> = x.split(' ').collect();
            head = Some((p[0].parse().expect("family"), p[1].to_string(), p[2].parse().expect("factor")));
        } else if let (Some(b), Some(h)) = (l.strip_prefix("bytes "), head.take()) {
            n += 1;
            let dump = std::fs::read_to_string(dir.join(format!("cg.{n}"))).unwrap_or_default();
            let ir = dump.lines().find_map(|l| l.strip_prefix("summary: ").or(l.strip_prefix("totals: "))).and_then(|s| s.trim().parse().ok()).unwrap_or(0);
            seen.push((h.0, h.1, h.2, ir, b.parse().unwrap_or(0)));
        }
    }
    let err = String::from_utf8_lossy(&std::fs::read(dir.join("stderr")).expect("output")).into_owned();
    let _ = std::fs::remove_dir_all(&dir);
    Probe { seen, last, done: text.ends_with("done\n"), status: format!("{status} {}", err.lines().rev().take(3).collect::<Vec<_>>().join(" | ")) }
}

/// Judging again takes long, and one growth beyond the limit is enough.
fn stopped() -> bool {
    std::env::var_os("IKMON_STOP").is_some_and(|s| std::path::Path::new(&s).exists())
}

fn stop() {
    if let Some(s) = std::env::var_os("IKMON_STOP") {
        let _ = std::fs::write(s, "");
    }
}

fn case(idx: u64, c: &mut Ctx) {
    let all = families();
    let (idx, times) = (idx % chunks(), SIZES[(idx / chunks()) as usize]);
    if stopped() {
        return;
    }
    let cpu = 60 * times as u64;
    let mut p = count(c.seed, idx, None, times, cpu);
    if !p.done && stopped() {
        return;
    }
    if !p.done {
        // some fifty times what linear work takes; once more, to tell it from an accident
        let q = count(c.seed, idx, None, times, cpu + 20);
        if stopped() {
            return;
        }
        if !q.done && !q.last.is_empty() && (q.status.contains("signal: 9") || q.status.contains("signal: 24")) {
            let i: usize = q.last.split(' ').next().unwrap().parse().unwrap();
            stop();
            c.fail(format!("{:?}: {} does not finish within {} s of CPU time under callgrind (smaller sizes: {:?})", all[i], q.last, cpu + 20, q.seen.iter().filter(|s| s.0 == i).collect::<Vec<_>>()));
            return;
        }
        assert!(q.done, "counting does not work: {} at {}", q.status, q.last);
        p = q;
    }
    let suspects = judge(c, &all, &p);
    let mut families: Vec<usize> = suspects.iter().map(|s| s.0).collect();
    families.dedup();
    for i in families {
        if stopped() {
            return;
        }
        // the steps in which buffers grow can look like this; real growth does at all sizes
        c.count("families looked at again at larger sizes");
        // linear work takes a tenth of this
        let ir: u64 = p.seen.iter().filter(|s| s.0 == i).map(|s| s.3).sum();
        let mut left: Vec<(&str, &str, String)> = suspects.iter().filter(|s| s.0 == i).map(|s| (s.1.as_str(), s.2, s.3.clone())).collect();
        for more in [5, 6, 7] {
            let cpu = 60 + 10 * more * ir / 20_000_000;
            let q = count(c.seed, idx, Some(i), more as usize * times, cpu);
            if stopped() {
                return;
            }
            if !q.done {
                // another accident than time running out is none of ours; what else it ran then, took as long
                let late = q.status.contains("signal: 9") || q.status.contains("signal: 24");
                let Some((_, _, text)) = left.first().filter(|_| late) else {
                    panic!("counting does not work: {} at {}", q.status, q.last);
                };
                stop();
                c.fail(format!("{text}\n and at {more} times the size it does not finish within {cpu} s of CPU time under callgrind"));
                return;
            }
            let again = growth(&q);
            left.retain_mut(|(what, name, text)| match again.iter().find(|g| g.i == i && g.what == *what && g.name == *name) {
                Some(g) if g.bad() => {
                    text.push_str(&format!("\n and at {more} times the size {:?}: growth {:.2}", g.w, g.ratio()));
                    true
                }
                _ => false,
            });
            if left.is_empty() {
                break;
            }
        }
        if let Some((_, _, text)) = left.pop() {
            stop();
            c.fail(text);
            return;
        }
    }
}

struct Growth {
    i: usize,
    what: String,
    name: &'static str,
    w: [u64; 3],
}

impl Growth {
    fn steps(&self) -> (f64, f64) {
        (self.w[1] as f64 - self.w[0] as f64, self.w[2] as f64 - self.w[1] as f64)
    }
    fn ratio(&self) -> f64 {
        let (a, b) = self.steps();
        b / a.max(1.0)
    }
    fn bad(&self) -> bool {
        // work that hardly grows has no growth to judge
        let floor = if self.name == "instructions" { 20_000.0 } else { 4_096.0 };
        let b = self.steps().1;
        b > floor && self.ratio() > LIMIT && b > 0.2 * self.w[0] as f64
    }
}

fn growth(p: &Probe) -> Vec<Growth> {
    let mut by: BTreeMap<(usize, &str), Vec<(u64, u64, u64)>> = BTreeMap::new();
    for (i, what, k, ir, b) in &p.seen {
        assert!(*ir > 0, "no instructions counted for family {i} {what} {k}");
        by.entry((*i, what)).or_default().push((*k, *ir, *b));
    }
    let mut out = Vec::new();
    for ((i, what), v) in by {
        // accepted at one size and not at another: nothing to compare
        if let [a, b, c] = v[..] {
            out.push(Growth { i, what: what.to_string(), name: "instructions", w: [a.1, b.1, c.1] });
            out.push(Growth { i, what: what.to_string(), name: "allocated bytes", w: [a.2, b.2, c.2] });
        }
    }
    out
}

fn judge(c: &mut Ctx, all: &[Family], p: &Probe) -> Vec<(usize, String, &'static str, String)> {
    let mut bad = Vec::new();
    for g in growth(p) {
        let text = format!("{:?}: {} takes {:?} {} at sizes n, 2n, 4n: growth {:.2} (2 is linear, 4 quadratic)", all[g.i], g.what, g.w, g.name, g.ratio());
        if g.name == "instructions" {
            c.evals += 1;
            c.count(&format!("{} judged", g.what));
            c.add("instructions (millions)", g.w.iter().sum::<u64>() / 1_000_000);
            if g.w[2] >= 2 * g.w[0] {
                c.distinct(&format!("{} {}", g.i, g.what));
            }
        }
        let r = g.ratio();
        c.count(&format!("growth of {} {}", g.name, if r < 1.8 { "below 1.8" } else if r < 2.2 { "1.8 to 2.2" } else if r < LIMIT { "2.2 to 2.6" } else { "above 2.6" }));
        c.sample(|| text.clone());
        if g.bad() {
            bad.push((g.i, g.what.clone(), g.name, text));
        }
    }
    bad
}

//! C02: serialisation never fails and always emits well-formed iCalendar.

use crate::gen_::{self, Mode, Opts};
use crate::ik::{self, Any, Via};
use crate::model::{Body, Card, MComp, MVal, Ty, field};
use crate::mon::{Ctx, Prop, Step};
use crate::reader::{self, RNode};
use crate::rng::Rng;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C02",
    rule: "random components with hostile texts, URIs, classes, statuses and parameter values (quotes, CR, LF, backslashes, injected lines, \
           multi-byte characters around the folding width), half set up through public fields and half parsed from raw documents, serialised and \
           read by a strict reader; the lines, parameters and components found must be exactly those of the component; distinct = distinct \
           shapes, non-trivial = at least 3 content lines",
    cases: |t| if t { 3_000_000 } else { 500_000 },
    zones: &["UTC", "America/New_York", "Asia/Kathmandu"],
    case,
    once,
    need: &[("distinct", 2000), ("physical lines", 500_000), ("continuation lines", 100_000), ("full physical lines", 10_000), ("built", 10_000), ("parsed", 10_000), ("large documents", 500)],
    single_threaded_shards: true,
    assumptions: "names of unknown properties and of parameters are valid tokens (the statement covers values); dates within 250,000 years of \
                  1970",
};

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C02", idx);
    let kind = gen_::any_kind(&mut r);
    let valarm = r.chance(1, 2);
    let built = r.chance(1, 2);
    let (m, any) = if built {
        let years = if r.chance(1, 4) { (-250_000, 250_000) } else { (0, 9999) };
        let o = Opts { years, ..Opts::built(*r.pick(&[Mode::Hostile, Mode::Hostile, Mode::Plain]), true) };
        let mut m = gen_::comp(&mut r, &o, kind);
        spice(&mut m, &mut r);
        let any = Any::build(&m, valarm);
        (m, any)
    } else {
        let o = Opts { mode: Mode::Raw, ..Opts::doc(true) };
        let m = gen_::comp(&mut r, &o, kind);
        match ik::parse(kind, valarm, &m.text(), Via::FromStr) {
            Ok(Ok(any)) => (m, any),
            Ok(Err(_)) => {
                c.count("rejected");
                return;
            }
            Err(e) => return c.fail(e),
        }
    };
    c.count(if built { "built" } else { "parsed" });
    match check(&m, &any, c) {
        Err(e) => c.fail(format!("{e}\ncomponent:\n{any:#?}")),
        Ok(s) => {
            if m.count_lines() >= 3 {
                c.distinct(&m.shape());
            }
            c.sample(|| s);
        }
    }
}

/// Values no document can carry.
fn spice(m: &mut MComp, r: &mut Rng) {
    for l in &mut m.lines {
        if let Body::Known(n, vals) = &mut l.body {
            for (v, _) in vals.iter_mut() {
                match v {
                    MVal::Geo(a, _) if r.chance(1, 4) => *a = *r.pick(&[f32::NAN, f32::INFINITY, -0.0, f32::MIN_POSITIVE, f32::MAX]),
                    MVal::RStat(a, ..) if r.chance(1, 4) => *a = *r.pick(&[f32::NAN, f32::NEG_INFINITY, -0.0, f32::MAX]),
                    MVal::Dur(_, n) if r.chance(1, 4) => *n = r.range(-999_999_999, 999_999_999) as i32,
                    MVal::Dates(v) if r.chance(1, 8) => v.clear(),
                    MVal::Periods(v) if r.chance(1, 8) => v.clear(),
                    MVal::Off(o) => *o = r.range(-86_399, 86_399) as i32,
                    MVal::U(u) if r.chance(1, 4) => *u = r.u64(),
                    _ => {}
                }
            }
            let f = field(m.kind, n).unwrap();
            if f.card == Card::App && f.ty == Ty::Text && r.chance(1, 4) {
                l.params = gen_::params(r, Mode::Hostile);
            }
        }
    }
    for k in &mut m.kids {
        spice(k, r);
    }
}

fn check(m: &MComp, any: &Any, c: &mut Ctx) -> Step<String> {
    let s = ik::ser(any)?;
    for l in s.split("\r\n") {
        c.count("physical lines");
        if l.starts_with(' ') {
            c.count("continuation lines");
        }
        if l.len() >= 73 {
            c.count("full physical lines");
        }
    }
    let node = reader::tree(&s).map_err(|e| format!("{e}\nserialised:\n{s:?}"))?;
    skeleton(m, &node).map_err(|e| format!("{e}\nserialised:\n{s:?}"))?;
    Ok(s)
}

/// The names, parameters and nesting written must be those of the component.
fn skeleton(m: &MComp, node: &RNode) -> Step {
    if node.name != m.kind.tag() {
        return Err(format!("component {} written for {:?}", node.name, m.kind));
    }
    // name -> sorted lists of parameter names, one per value
    let mut want: BTreeMap<String, Vec<Vec<String>>> = BTreeMap::new();
    for l in &m.lines {
        let mut ps: Vec<String> = l.param_map().into_keys().collect();
        let (n, single) = match &l.body {
            Body::Unknown(_) => (1, true),
            Body::Known(n, vals) => {
                let f = field(m.kind, n).unwrap();
                if !matches!(f.ty, Ty::Text | Ty::Uri | Ty::Action) {
                    ps = vec![];
                }
                (vals.len(), matches!(f.card, Card::Req | Card::Opt))
            }
        };
        let e = want.entry(l.name.clone()).or_default();
        if single {
            e.clear();
        }
        for _ in 0..n {
            e.push(ps.clone());
        }
    }
    let mut got: BTreeMap<String, Vec<Vec<String>>> = BTreeMap::new();
    for l in &node.lines {
        let mut ps: Vec<String> = reader::param_map(l)?.into_keys().collect();
        if let Some(f) = field(m.kind, &l.name)
            && !matches!(f.ty, Ty::Text | Ty::Uri | Ty::Action)
        {
            ps.retain(|p| p != "VALUE");
        }
        got.entry(l.name.clone()).or_default().push(ps);
    }
    if want.keys().ne(got.keys()) {
        return Err(format!(
            "{:?}: properties {:?} hold values, {:?} are written",
            m.kind,
            want.keys().collect::<Vec<_>>(),
            got.keys().collect::<Vec<_>>()
        ));
    }
    for (n, w) in &want {
        let g = &got[n];
        let list = field(m.kind, n).is_some_and(|f| f.card == Card::App);
        let fits = if list {
            // values without parameters may share a line
            g.len() <= w.len() && (g == w || (g.len() == 1 && g[0].is_empty()))
        } else {
            g == w
        };
        // parameters of lists read from a document are not kept
        let fits = fits || (list && g.iter().all(Vec::is_empty) && g.len() <= w.len());
        if !fits {
            return Err(format!("{:?}.{n}: parameters per line {g:?}, expected {w:?}", m.kind));
        }
    }
    if m.kids.len() != node.kids.len() {
        return Err(format!("{:?}: {} sub-components, {} written", m.kind, m.kids.len(), node.kids.len()));
    }
    let tags: std::collections::BTreeSet<&str> = m.kids.iter().map(|k| k.kind.tag()).collect();
    for tag in tags {
        let a: Vec<_> = m.kids.iter().filter(|k| k.kind.tag() == tag).collect();
        let b: Vec<_> = node.kids.iter().filter(|k| k.name == tag).collect();
        if a.len() != b.len() {
            return Err(format!("{:?}: {} sub-components {tag}, {} written", m.kind, a.len(), b.len()));
        }
        for (a, b) in a.into_iter().zip(b) {
            skeleton(a, b)?;
        }
    }
    Ok(())
}

fn once(c: &mut Ctx) {
    crate::big::each(c, |n, _, m, _| {
        let any = if n % 2 == 0 { Any::build(&m, false) } else { ik::parse(m.kind, true, &m.text(), Via::FromStr)?.map_err(|e| format!("rejected: {e}"))? };
        let s = ik::ser(&any)?;
        let node = reader::tree(&s)?;
        skeleton(&m, &node)
    });
    // every length of a text across two folds, of every character width
    for ch in ["a", "é", "€", "😀", "\\", ",", "\n", "\\n", " "] {
        for n in 0..260usize {
            let e = ikal::valarm::Display { description: ch.repeat(n).as_str().into(), ..Default::default() };
            let m = MComp {
                kind: crate::model::Kind::Display,
                lines: vec![],
                kids: vec![],
            };
            c.count("lengths");
            let r = (|| -> Step {
                let s = ik::ser(&Any::Display(e))?;
                let node = reader::tree(&s).map_err(|e| format!("{e}\nserialised:\n{s:?}"))?;
                if node.lines.len() != 3 || node.name != m.kind.tag() {
                    return Err(format!("{n} times {ch:?} writes {} lines:\n{s:?}", node.lines.len()));
                }
                Ok(())
            })();
            if let Err(e) = r {
                c.fail(e);
            }
        }
    }
}

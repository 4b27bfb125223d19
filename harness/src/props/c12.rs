//! C12: parse, serialise, parse again is the identity, and serialisation is a fixed point.

use super::c05::short;
use crate::gen_::{self, Opts};
use crate::ik::{self, Any, Via};
use crate::model::{Dump, Kind, MVal};
use crate::mon::{Ctx, Prop, Step};
use crate::rng::Rng;

pub const PROP: Prop = Prop {
    id: "C12",
    rule: "random documents of all kinds with texts in escaped form (all properties, lists, parameters, unknown properties, sub-components, \
           line lengths around the folding width) taken through three parse/serialise cycles, each compared with the first by value, field by \
           field and byte by byte; and some 50 documents people wrote, the accepted ones of \
           ikal's tests whose texts are in escaped form; distinct = distinct shapes, non-trivial = at least 3 content lines",
    cases: |t| if t { 3_000_000 } else { 250_000 },
    zones: &["UTC", "America/New_York", "UTC", "Europe/Paris"],
    case,
    once,
    need: &[("distinct", 2000), ("cycles", 100_000), ("folded lines seen", 50_000), ("UTC date-times", 1000), ("documents people wrote", 60), ("large documents", 500)],
    single_threaded_shards: true,
    assumptions: "custom classes are upper-case tokens (they compare without regard to case); UTC date-times only with TZ=UTC (known finding \
                  C07 elsewhere); unknown property names once per component",
};

pub fn opts(tz: &str) -> Opts {
    Opts { tame_class: true, ..Opts::doc(tz == "UTC") }
}

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C12", idx);
    let kind = gen_::any_kind(&mut r);
    let m = gen_::comp(&mut r, &opts(&c.tz), kind);
    let valarm = r.chance(1, 2);
    match cycles(kind, &m.text(), valarm, c) {
        Err(e) => c.fail(format!("{e}\ndocument:\n{}", m.text())),
        Ok(()) => {
            if m.count_lines() >= 3 {
                c.distinct(&m.shape());
            }
            if m.has_utc() {
                c.count("UTC date-times");
            }
            c.sample(|| m.text());
        }
    }
}

fn cycles(kind: Kind, text: &str, valarm: bool, c: &mut Ctx) -> Step {
    let parse = |s: &str| -> Step<Any> {
        ik::parse(kind, valarm, s, Via::FromStr)?.map_err(|e| format!("rejected: {}\ntext:\n{s}", short(&e.to_string())))
    };
    let first = parse(text)?;
    let d1 = first.dump();
    let s1 = ik::ser(&first)?;
    let (mut s, mut cur) = (s1.clone(), first.clone());
    for n in 1..=3 {
        let again = parse(&s).map_err(|e| format!("cycle {n}: serialised text {e}"))?;
        if let Some(d) = d1.diff(&again.dump()) {
            return Err(format!("cycle {n}: {d}\nserialised:\n{s}"));
        }
        if again != cur {
            return Err(format!("cycle {n}: the re-parsed component is not equal to the one serialised\nserialised:\n{s}"));
        }
        s = ik::ser(&again)?;
        if s != s1 {
            return Err(format!("cycle {n}: serialisation drifts\nfirst:\n{s1}\nnow:\n{s}"));
        }
        cur = again;
        c.count("cycles");
    }
    c.add("folded lines seen", s1.matches("\r\n ").count() as u64);
    Ok(())
}

/// Whether all texts are in escaped form and there are no absolute times (for zones other than UTC).
fn escaped(d: &Dump, utc: bool) -> bool {
    d.fields.values().flatten().all(|(v, _)| match v {
        MVal::Text(s) => crate::reader::split_unescaped(s, ',').len() == 1 && crate::reader::split_unescaped(s, ';').len() == 1 && crate::reader::unescape(s).is_ok(),
        v => utc || !v.has_utc(),
    }) && d.slots.values().flatten().all(|k| escaped(k, utc))
}

fn once(c: &mut Ctx) {
    if c.tz == "UTC" {
        crate::big::each(c, |n, _, m, c| {
            cycles(m.kind, &m.text(), n % 2 == 0, c)
        });
    }
    for d in crate::corpus::docs() {
        let Ok(Ok(a)) = ik::parse(d.kind, true, &d.text, Via::FromStr) else { continue };
        if !escaped(&a.dump(), c.tz == "UTC") {
            continue;
        }
        c.count("documents people wrote");
        if let Err(e) = cycles(d.kind, &d.text, true, c) {
            c.fail(format!("{}: {e}", d.name));
        }
    }
    // ATTACH holds URIs, but ikal keeps it as a text.
    let doc = "BEGIN:VALARM\r\nACTION:AUDIO\r\nTRIGGER:PT0S\r\nATTACH:http://example.com/a,b;c\r\nEND:VALARM\r\n";
    c.count("finding probes");
    let r = (|| -> Step<(String, String)> {
        let a = ik::parse(crate::model::Kind::Audio, false, doc, Via::FromStr)?.map_err(|e| e.to_string())?;
        let s = ik::ser(&a)?;
        let b = ik::parse(crate::model::Kind::Audio, false, &s, Via::FromStr)?.map_err(|e| e.to_string())?;
        let get = |x: &Any| match x {
            Any::Audio(x) => x.attach[0].text.clone(),
            _ => String::new(),
        };
        Ok((get(&a), get(&b)))
    })();
    match r {
        Ok((a, b)) if a == b => {}
        Ok((a, b)) if b == a.replace(',', "\\,").replace(';', "\\;") => c.known("attach-uri", format!("{a} becomes {b}")),
        other => c.fail(format!("ATTACH with a URI: {other:?}")),
    }
}

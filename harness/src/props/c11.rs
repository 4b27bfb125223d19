//! C11: serialisation writes every populated field exactly once.

use crate::gen_::{self, Mode, Opts};
use crate::ik::{self, Any};
use crate::model::{Body, Card, MComp, MVal, Params, Ty, field};
use crate::mon::{Ctx, Prop, Step};
use crate::reader::{self, RNode};
use crate::rng::Rng;
use crate::wire;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C11",
    rule: "random components of all kinds set up through their public fields (plain or escaped texts, parameters, lists, unknown properties, \
           sub-components), serialised and read back by an independent RFC 5545 reader: per component, the values and parameters under each \
           property name must be exactly those set, in order; distinct = distinct shapes, non-trivial = at least 3 values",
    cases: |t| if t { 3_000_000 } else { 300_000 },
    zones: &["UTC", "UTC", "America/New_York"],
    case,
    once,
    need: &[("distinct", 2000), ("lines written", 100_000), ("sub-components written", 10_000), ("lists with parameters", 100), ("large documents", 500)],
    single_threaded_shards: true,
    assumptions: "names of unknown properties and of parameters are valid tokens and do not clash with recognised ones; UTC date-times only with \
                  TZ=UTC (known finding C07 elsewhere); plain texts hold no backslash; URIs and unknown values hold no line break; years 0000 to 9999",
};

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C11", idx);
    let kind = gen_::any_kind(&mut r);
    let mode = if r.chance(1, 2) { Mode::Plain } else { Mode::Wire };
    let mut m = gen_::comp(&mut r, &Opts::built(mode, c.tz == "UTC"), kind);
    tidy(&mut m, &mut r, mode);
    let any = Any::build(&m, r.chance(1, 2));
    match check(&m, &any, c) {
        Err(e) => c.fail(format!("{e}\ncomponent:\n{any:#?}")),
        Ok(s) => {
            if m.count_lines() >= 3 {
                c.distinct(&m.shape());
            }
            c.sample(|| s);
        }
    }
}

/// URIs and unknown values without line breaks; list values with parameters of their own at times.
fn tidy(m: &mut MComp, r: &mut Rng, mode: Mode) {
    let clean = |s: &mut String| s.retain(|c| c != '\r' && c != '\n');
    for l in &mut m.lines {
        match &mut l.body {
            Body::Unknown(v) => clean(v),
            Body::Known(n, vals) => {
                for (v, _) in vals.iter_mut() {
                    if let MVal::Uri(u) = v {
                        clean(u);
                    }
                }
                let f = field(m.kind, n).unwrap();
                if f.card == Card::App && f.ty == Ty::Text && r.chance(1, 4) {
                    l.params = gen_::params(r, mode);
                }
            }
        }
    }
    for k in &mut m.kids {
        tidy(k, r, mode);
    }
}

fn check(m: &MComp, any: &Any, c: &mut Ctx) -> Step<String> {
    let s = ik::ser(any)?;
    let node = reader::tree(&s).map_err(|e| format!("{e}\nserialised:\n{s}"))?;
    compare(m, &node, c).map_err(|e| format!("{e}\nserialised:\n{s}"))?;
    Ok(s)
}

pub fn compare(m: &MComp, node: &RNode, c: &mut Ctx) -> Step {
    if node.name != m.kind.tag() {
        return Err(format!("component {} written for {:?}", node.name, m.kind));
    }
    let mut want: BTreeMap<&str, Vec<(MVal, Params)>> = BTreeMap::new();
    let mut raw: BTreeMap<&str, (String, Params)> = BTreeMap::new();
    for l in &m.lines {
        match &l.body {
            Body::Known(n, vals) => {
                let e = want.entry(n).or_default();
                let f = field(m.kind, n).unwrap();
                if matches!(f.card, Card::Req | Card::Opt) {
                    e.clear();
                }
                let typed = !matches!(f.ty, Ty::Text | Ty::Uri | Ty::Action);
                for v in vals {
                    e.push((wire::semantic(&v.0), if typed { Params::new() } else { l.param_map() }));
                }
                if f.card == Card::App && !l.params.is_empty() {
                    c.count("lists with parameters");
                }
            }
            Body::Unknown(v) => {
                raw.insert(&l.name, (v.clone(), l.param_map()));
            }
        }
    }
    let mut got: BTreeMap<&str, Vec<(MVal, Params)>> = BTreeMap::new();
    let mut got_raw: BTreeMap<&str, (String, Params)> = BTreeMap::new();
    for l in &node.lines {
        c.count("lines written");
        let params = reader::param_map(l)?;
        if let Some(f) = field(m.kind, &l.name) {
            let list = f.card == Card::App;
            let typed = !matches!(f.ty, Ty::Text | Ty::Uri | Ty::Action);
            if typed && params.keys().any(|k| k != "VALUE") {
                return Err(format!("unexpected parameters in {l:?}"));
            }
            for v in wire::read(f.ty, list, l)? {
                got.entry(f.name).or_default().push((v, if typed { Params::new() } else { params.clone() }));
            }
            // one line per value unless the property holds lists
        } else if got_raw.insert(&l.name, (l.value.clone(), params)).is_some() {
            return Err(format!("unknown property {} written twice", l.name));
        }
    }
    if raw != got_raw {
        return Err(format!("unknown properties: set {raw:?}, written {got_raw:?}"));
    }
    for name in want.keys().chain(got.keys()) {
        let empty = Vec::new();
        let (a, b) = (want.get(name).unwrap_or(&empty), got.get(name).unwrap_or(&empty));
        let ca: Vec<_> = a.iter().map(|(v, p)| (v.canon(), p)).collect();
        let cb: Vec<_> = b.iter().map(|(v, p)| (v.canon(), p)).collect();
        if ca != cb {
            return Err(format!("{name}: set {ca:?}, written {cb:?}"));
        }
    }
    // sub-components, by name, in order
    for tag in m.kids.iter().map(|k| k.kind.tag()).chain(node.kids.iter().map(|k| k.name.as_str())) {
        let a: Vec<&MComp> = m.kids.iter().filter(|k| k.kind.tag() == tag).collect();
        let b: Vec<&RNode> = node.kids.iter().filter(|k| k.name == tag).collect();
        if a.len() != b.len() {
            return Err(format!("{} sub-components {tag} set, {} written", a.len(), b.len()));
        }
    }
    let tags: std::collections::BTreeSet<&str> = m.kids.iter().map(|k| k.kind.tag()).collect();
    for tag in tags {
        let a = m.kids.iter().filter(|k| k.kind.tag() == tag);
        let b = node.kids.iter().filter(|k| k.name == tag);
        for (a, b) in a.zip(b) {
            compare(a, b, c)?;
            c.count("sub-components written");
        }
    }
    Ok(())
}

fn once(c: &mut Ctx) {
    if c.tz == "UTC" {
        crate::big::each(c, |n, _, m, c| {
            let any = Any::build(&m, n % 2 == 0);
            let s = ik::ser(&any)?;
            compare(&m, &reader::tree(&s)?, c)
        });
    }
    // a component with nothing set writes its required properties only
    for k in crate::model::KINDS {
        let m = MComp { kind: k, lines: vec![], kids: vec![] };
        let any = Any::build(&m, false);
        let r = (|| -> Step {
            let s = ik::ser(&any)?;
            let node = reader::tree(&s).map_err(|e| format!("{e}\nserialised:\n{s}"))?;
            let names: Vec<&str> = node.lines.iter().map(|l| l.name.as_str()).collect();
            let mut want: Vec<&str> = crate::model::fields(k).iter().filter(|f| f.card == Card::Req).map(|f| f.name).collect();
            let mut sorted = names.clone();
            sorted.sort_unstable();
            want.sort_unstable();
            if sorted != want || !node.kids.is_empty() {
                return Err(format!("default {k:?} writes\n{s}"));
            }
            Ok(())
        })();
        c.count("default components");
        if let Err(e) = r {
            c.fail(e);
        }
    }
    // ATTACH holds URIs, but ikal keeps it as a text.
    let uri = "http://example.com/a,b;c";
    let mut a = ikal::valarm::Audio::default();
    a.attach.push(uri.into());
    c.count("finding probes");
    let r = ik::ser(&Any::Audio(a)).and_then(|s| reader::tree(&s));
    match r {
        Ok(n) => {
            let v: Vec<&str> = n.lines.iter().filter(|l| l.name == "ATTACH").map(|l| l.value.as_str()).collect();
            if v == [uri] {
            } else if v == ["http://example.com/a\\,b\\;c"] {
                c.known("attach-uri", format!("{uri} is written as {}", v[0]));
            } else {
                c.fail(format!("ATTACH:{uri} is written as {v:?}"));
            }
        }
        Err(e) => c.fail(e),
    }
}

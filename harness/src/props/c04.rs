//! C04: content lines are decomposed exactly.

use super::c05::short;
use crate::gen_::{self, Mode, Opts};
use crate::ik::{self, Any, VIAS};
use crate::model::{Body, Card, Dump, Kind, MComp, MLine, MVal, Ty, fields};
use crate::mon::{Ctx, Prop, Step};
use crate::rng::Rng;

pub const PROP: Prop = Prop {
    id: "C04",
    rule: "components whose text, URI and unknown properties carry hostile values and parameters (quotes, colons, semicolons, commas, backslashes, \
           controls, multi-byte text, values which look like properties or components), compared byte by byte with the lines written; in a third of \
           the cases a malformed line (unbalanced quote, broken parameter) stands among them and must be rejected or leave every other line as it \
           is; distinct = distinct documents, non-trivial = at least one parameter or special character",
    cases: |t| if t { 4_000_000 } else { 1_000_000 },
    zones: &["UTC"],
    case,
    once,
    need: &[("distinct", 50_000), ("parameters", 100_000), ("quoted parameters", 50_000), ("values", 200_000), ("malformed rejected", 10_000)],
    single_threaded_shards: true,
    assumptions: "parameter names are unique within a line; several quoted values in one parameter are the known finding quoted-param-list of C05",
};

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C04", idx);
    let kind = crate::model::KINDS[r.us(11)];
    let mut m = hostile(&mut r, kind);
    if r.chance(1, 3) {
        // also inside its parents
        let up = match kind {
            Kind::Standard | Kind::Daylight => Some(Kind::VTimezone),
            k if k.is_alarm() => Some(*r.pick(&[Kind::VEvent, Kind::VCalendar])),
            Kind::VCalendar => None,
            _ => Some(Kind::VCalendar),
        };
        if let Some(up) = up {
            let mut p = hostile(&mut r, up);
            let before = hostile(&mut r, kind);
            p.kids = vec![before, m];
            m = p;
        }
    }
    let via = *r.pick(&VIAS);
    let valarm = r.chance(1, 2);
    if r.chance(1, 3) {
        return malformed(&mut r, c, &m, valarm);
    }
    let text = m.text();
    match ik::parse(m.kind, valarm, &text, via) {
        Err(e) => c.fail(format!("{e}\ndocument:\n{text:?}")),
        Ok(Err(e)) => c.fail(format!("rejected: {}\ndocument:\n{text:?}", short(&e.to_string()))),
        Ok(Ok(got)) => {
            if let Some(d) = m.dump().diff(&got.dump()) {
                return c.fail(format!("{d}\ndocument:\n{text:?}"));
            }
            count(&m, c);
            c.distinct(&text);
            c.sample(|| text);
        }
    }
}

fn count(m: &MComp, c: &mut Ctx) {
    for l in &m.lines {
        c.add("parameters", l.params.len() as u64);
        c.add("quoted parameters", l.params.iter().filter(|p| p.2).count() as u64);
        c.count("values");
    }
    for k in &m.kids {
        count(k, c);
    }
}

/// A component with the least of typed properties and many texts, URIs and unknown properties.
fn hostile(r: &mut Rng, kind: Kind) -> MComp {
    let o = Opts { mode: Mode::Raw, depth: false, repeat: false, typed_params: false, ..Opts::doc(true) };
    let mut lines = Vec::new();
    for f in fields(kind) {
        let textual = matches!(f.ty, Ty::Text | Ty::Uri) && f.card != Card::App;
        if f.card == Card::Req || (textual && r.chance(1, 2)) {
            let n = if f.card == Card::Many { 1 + r.small(3) } else { 1 };
            for _ in 0..n {
                lines.push(gen_::known(r, &o, kind, f));
            }
        }
    }
    let mut used = Vec::new();
    for _ in 0..1 + r.small(4) {
        if let Some(l) = gen_::unknown(r, &o, kind, &mut used) {
            lines.push(l);
        }
    }
    for l in &mut lines {
        if r.chance(1, 8) {
            let v = tricky(r);
            match &mut l.body {
                Body::Unknown(x) => *x = v,
                Body::Known(_, vals) => {
                    if let MVal::Text(_) | MVal::Uri(_) = vals[0].0
                        && l.name != "ACTION"
                    {
                        vals[0] = (if matches!(vals[0].0, MVal::Uri(_)) { MVal::Uri(v.clone()) } else { MVal::Text(v.clone()) }, v);
                    }
                }
            }
        }
    }
    gen_::order(r, &mut lines);
    MComp { kind, lines, kids: vec![] }
}

/// Values which look like something else.
fn tricky(r: &mut Rng) -> String {
    if r.chance(1, 2) {
        return (*r.pick(gen_::SPELLINGS)).to_string();
    }
    (*r.pick(&[
        "", ":", "::", ";", ";X=1:", "\"", "\"\"", "a\"b:c\"d", "END:VEVENT", "BEGIN:VALARM", "X;Y=Z:W", " lead", "trail ", "\tlead", "=", "\\", "\\\\", "\\n", "\\",
        "VALUE=DATE:20240101", "\";X=\":", "a;b=\"c:d\"", "^n^'", "\u{85}next", "\u{2028}", "x\u{0}y", "\u{feff}", "a\u{b}b", "a\u{c}b", "é:é",
    ]))
    .to_string()
}

fn malformed(r: &mut Rng, c: &mut Ctx, m: &MComp, valarm: bool) {
    let bad = (*r.pick(&[
        "X-MALFORMED;A=\"abc:def", "X-MALFORMED;A=\"abc", "X-MALFORMED;A=b\"c:d", "X-MALFORMED;A=\"b\"c:d", "X-MALFORMED;A:v", "X-MALFORMED;A", "X-MALFORMED;",
        "X-MALFORMED;A=b", "X-MALFORMED;A=\"b\"", "X-MALFORMED;A=b;B=\"c", "X-MALFORMED;A=\"", "X-MALFORMED;A=\"b;C=d:e", "X-MALFORMED", "X-MALFORMED;A=\"b\";C:d",
        "X-MALFORMED;A B=c:d", "X-MALFORMED;=\"x", "X-MALFORMED;A=x\"y\"z\"", "X-MALFORMED;A==\"q:r", "X-MALFORMED;A=\"b\"\"c:d", "X-MALFORMED A=b:c",
        "X-MALFORMED;A=\"b:c;D=\"e", "X-MALFORMED;É=b:c", "X-MALFORMED;A=b;;C=d:e",
    ]))
    .to_string();
    // inside one of the components
    let mut logical = m.logical();
    let spots: Vec<usize> = (0..logical.len()).filter(|i| *i > 0 && !logical[*i].starts_with("BEGIN:") || logical[*i].starts_with("BEGIN:") && *i > 0).collect();
    let at = *r.pick(&spots);
    // a line after a sub-component would be rejected for its place, not for its form
    logical.insert(at, bad.clone());
    let text: String = logical.iter().map(|l| format!("{l}\r\n")).collect();
    let step = (|| -> Step {
        match ik::parse(m.kind, valarm, &text, VIAS[at % 3])? {
            Err(_) => {
                c.count("malformed rejected");
                Ok(())
            }
            Ok(got) => {
                c.count("malformed accepted");
                let mut d = got.dump();
                strip(&mut d);
                m.dump().diff(&d).map_or(Ok(()), |e| Err(format!("a malformed line changes another line: {e}")))
            }
        }
    })();
    match step {
        Err(e) => c.fail(format!("{e}\nmalformed line: {bad:?}\ndocument:\n{text:?}")),
        Ok(()) => c.distinct(&text),
    }
}

fn strip(d: &mut Dump) {
    d.x.remove("X-MALFORMED");
    for v in d.slots.values_mut() {
        v.iter_mut().for_each(strip);
    }
}

fn once(c: &mut Ctx) {
    crate::big::each(c, |_, r, m, c| {
        let text = m.text();
        let got = ik::parse(m.kind, false, &text, *r.pick(&VIAS))?.map_err(|e| format!("rejected: {}", short(&e.to_string())))?;
        if let Some(d) = m.dump().diff(&got.dump()) {
            return Err(d);
        }
        count(&m, c);
        Ok(())
    });
    // one parameter, every printable character in its quoted and unquoted value and in the value
    for n in 0x20u32..0x7f {
        let ch = char::from_u32(n).unwrap();
        for (quoted, pv) in [(true, format!("a{ch}b")), (false, format!("a{ch}b"))] {
            if ch == '"' || (!quoted && (ch == ';' || ch == ':')) {
                continue;
            }
            let line = MLine {
                name: "SUMMARY".into(),
                body: Body::Known("SUMMARY", vec![(MVal::Text(format!("x{ch}y")), format!("x{ch}y"))]),
                params: vec![("X-P".into(), pv, quoted), ("B".into(), "1".into(), false)],
            };
            let mk = |n: &'static str, v: MVal| MLine { name: n.into(), body: Body::Known(n, vec![(v.clone(), v.wire())]), params: vec![] };
            let m = MComp {
                kind: Kind::VTodo,
                lines: vec![
                    mk("DTSTAMP", MVal::D(crate::model::Dt::Naive(0, 0))),
                    line,
                    mk("UID", MVal::Text("u".into())),
                ],
                kids: vec![],
            };
            c.count("characters");
            match ik::parse(Kind::VTodo, false, &m.text(), ik::Via::FromStr) {
                Ok(Ok(got)) => {
                    if let Some(d) = m.dump().diff(&got.dump()) {
                        c.fail(format!("{d}\ndocument:\n{:?}", m.text()));
                    }
                    let _: &Any = &got;
                }
                other => c.fail(format!("{:?}\ndocument:\n{:?}", other.map(|r| r.err()), m.text())),
            }
        }
    }
}

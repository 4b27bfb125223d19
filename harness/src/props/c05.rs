//! C05: parsing puts every property and sub-component into exactly one place.

use crate::gen_::{self, Opts};
use crate::ik::{self, VIAS};
use crate::model::Dt;
use crate::mon::{Ctx, Prop};
use crate::rng::Rng;

pub const PROP: Prop = Prop {
    id: "C05",
    rule: "random documents of all 11 component kinds (all properties of ikal's model in any order, repeated, with parameters and unknown \
           neighbours; sub-components in any number and order), parsed through every entry point and compared field by field with the model; \
           distinct = distinct shapes (kinds, properties, list and parameter counts, nesting), non-trivial = at least 3 content lines",
    cases: |t| if t { 6_000_000 } else { 800_000 },
    zones: &["UTC", "America/New_York", "Europe/Paris", "Asia/Kathmandu"],
    case,
    once,
    need: &[("distinct", 2000), ("lines", 100_000), ("sub-components", 10_000), ("parsed VTimezone", 500), ("large documents", 500)],
    single_threaded_shards: true,
    assumptions: "names written in upper case; an unknown property name occurs once per component; parameter names are unique per line; \
                  parameters of typed values and lists are not kept by ikal's data model; RECURID/RSTATUS are the names under which ikal recognises \
                  RECURRENCE-ID/REQUEST-STATUS",
};

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C05", idx);
    let kind = gen_::any_kind(&mut r);
    let o = Opts::doc(true);
    let m = gen_::comp(&mut r, &o, kind);
    let text = m.text();
    let via = *r.pick(&VIAS);
    let valarm = r.chance(1, 2);
    match ik::parse(kind, valarm, &text, via) {
        Err(p) => c.fail(format!("{p}\ndocument:\n{text}")),
        Ok(Err(e)) => c.fail(format!("well-formed {kind:?} rejected via {via:?}: {}\ndocument:\n{text}", short(&format!("{e}")))),
        Ok(Ok(got)) => {
            if let Some(d) = m.dump().diff(&got.dump()) {
                c.fail(format!("{d}\nvia {via:?}, document:\n{text}"));
            }
            c.count(&format!("parsed {kind:?}"));
            c.add("lines", m.count_lines() as u64);
            c.add("sub-components", m.kids.len() as u64);
            if m.count_lines() >= 3 {
                c.distinct(&m.shape());
            }
            c.sample(|| text);
        }
    }
}

pub fn short(s: &str) -> String {
    s.chars().take(300).collect()
}

/// A deviation listed in known-findings.txt: the probe passes if ikal does it right, and reports
/// the finding if it deviates in exactly the listed way.
fn probe(c: &mut Ctx, id: &str, doc: &str, right: impl Fn(&ikal::VEvent) -> bool, wrong: impl Fn(&ikal::Result<ikal::VEvent>) -> bool) {
    let got = match crate::mon::guard("parsing", || doc.parse::<ikal::VEvent>()) {
        Ok(g) => g,
        Err(p) => return c.fail(format!("{p}\ndocument:\n{doc}")),
    };
    c.count("finding probes");
    if got.as_ref().is_ok_and(right) {
        return;
    }
    let what = format!("{got:?}\ndocument:\n{doc}");
    if wrong(&got) {
        c.known(id, short(&what));
    } else {
        c.fail(what);
    }
}

fn once(c: &mut Ctx) {
    if c.tz == "UTC" {
        crate::big::each(c, |n, _, m, _| {
            let got = ik::parse(m.kind, n % 2 == 0, &m.text(), VIAS[n % 3])?.map_err(|e| format!("rejected: {}", short(&e.to_string())))?;
            m.dump().diff(&got.dump()).map_or(Ok(()), Err)
        });
    }
    let doc = |l: &str| format!("BEGIN:VEVENT\r\nDTSTAMP:20240101T000000Z\r\nUID:u\r\nDTSTART:20240101\r\n{l}END:VEVENT\r\n");
    probe(
        c,
        "recurrence-id",
        &doc("RECURRENCE-ID;VALUE=DATE:20240203\r\n"),
        |e| e.recurid.map(|d| ik::rd_any(&d)) == Some(Dt::Date(crate::cal::days(2024, 2, 3))) && e.iana_prop.is_empty(),
        |r| r.as_ref().is_ok_and(|e| e.recurid.is_none() && e.iana_prop.get("RECURRENCE-ID").is_some_and(|l| l.value == "20240203")),
    );
    probe(
        c,
        "request-status",
        &doc("REQUEST-STATUS:2.0;Success\r\n"),
        |e| e.rstatus.len() == 1 && e.rstatus[0].statdesc == "Success" && e.iana_prop.is_empty(),
        |r| r.as_ref().is_ok_and(|e| e.rstatus.is_empty() && e.iana_prop.get("REQUEST-STATUS").is_some_and(|l| l.value == "2.0;Success")),
    );
    probe(
        c,
        "repeated-unknown",
        &doc("X-A:1\r\nX-A:2\r\n"),
        |e| format!("{:?}", e.x_prop).contains("\"1\"") && format!("{:?}", e.x_prop).contains("\"2\""),
        |r| r.as_ref().is_ok_and(|e| e.x_prop.len() == 1 && e.x_prop["X-A"].value == "2"),
    );
    probe(
        c,
        "list-params",
        &doc("CATEGORIES;LANGUAGE=fr:A,B\r\n"),
        |e| e.categories.len() == 2 && e.categories.iter().all(|t| t.params.get("LANGUAGE").is_some_and(|v| v == "fr")),
        |r| r.as_ref().is_ok_and(|e| e.categories.len() == 2 && e.categories.iter().all(|t| t.params.is_empty())),
    );
    probe(
        c,
        "quoted-param-list",
        &doc("ATTENDEE;MEMBER=\"mailto:a@x.org\",\"mailto:b@x.org\":mailto:c@x.org\r\n"),
        |e| e.attendee.len() == 1 && e.attendee[0].params.get("MEMBER").is_some_and(|v| v.contains("a@x.org") && v.contains("b@x.org")),
        Result::is_err,
    );
}

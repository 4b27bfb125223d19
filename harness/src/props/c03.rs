//! C03: line folding is transparent to parsing.

use super::c05::short;
use crate::gen_::{self, Mode, Opts};
use crate::ik::{self, Any, VIAS};
use crate::mon::{Ctx, Prop, Step};
use crate::rng::Rng;

pub const PROP: Prop = Prop {
    id: "C03",
    rule: "random documents of all kinds, a quarter of them broken by an edit, parsed unfolded and folded at random places of random lines (space or \
           tab, between any two characters, repeated, sometimes between all characters); both must fail or give components equal field by field; \
           every single fold of \
           70 documents people wrote; distinct = distinct pairs of shape and fold places, non-trivial = at least one fold",
    cases: |t| if t { 3_000_000 } else { 500_000 },
    zones: &["UTC", "Europe/Paris"],
    case,
    once,
    need: &[("distinct", 20_000), ("folds", 500_000), ("tab folds", 100_000), ("both accepted", 50_000), ("both rejected", 5_000), ("folds beside a multi-byte character", 5_000), ("single folds of documents people wrote", 40_000), ("large documents", 500)],
    single_threaded_shards: true,
    assumptions: "content lines themselves hold no CR or LF",
};

/// Folds a line: a fold may stand between any two characters.
pub fn fold(r: &mut Rng, line: &str, density: u64, c: &mut Ctx) -> String {
    let mut out = String::new();
    let mut prev: Option<char> = None;
    for ch in line.chars() {
        if prev.is_some() && (density == 0 || r.chance(1, density)) {
            let times = if r.chance(1, 20) { 2 } else { 1 };
            for _ in 0..times {
                let tab = r.chance(1, 2);
                out.push_str(if tab { "\r\n\t" } else { "\r\n " });
                c.count("folds");
                if tab {
                    c.count("tab folds");
                }
                if !ch.is_ascii() {
                    c.count("folds beside a multi-byte character");
                }
            }
        }
        out.push(ch);
        prev = Some(ch);
    }
    out
}

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C03", idx);
    let kind = gen_::any_kind(&mut r);
    let mode = if r.chance(1, 2) { Mode::Wire } else { Mode::Raw };
    let m = gen_::comp(&mut r, &Opts { mode, ..Opts::doc(true) }, kind);
    let mut lines = m.logical();
    if r.chance(1, 4) {
        spoil(&mut r, &mut lines);
    }
    let plain: String = lines.iter().map(|l| format!("{l}\r\n")).collect();
    let density = *r.pick(&[0, 2, 5, 20, 60, 200]);
    let every = r.chance(1, 2);
    let folded: String = lines
        .iter()
        .map(|l| if every || r.chance(1, 3) { fold(&mut r, l, density, c) } else { l.clone() } + "\r\n")
        .collect();
    let valarm = r.chance(1, 2);
    let via = *r.pick(&VIAS);
    let step = (|| -> Step {
        let a = ik::parse(kind, valarm, &plain, via)?;
        let b = ik::parse(kind, valarm, &folded, via)?;
        match (a, b) {
            (Ok(a), Ok(b)) => {
                c.count("both accepted");
                same(&a, &b)
            }
            (Err(_), Err(_)) => {
                c.count("both rejected");
                Ok(())
            }
            (Ok(_), Err(e)) => Err(format!("accepted unfolded, rejected folded: {}", short(&e.to_string()))),
            (Err(e), Ok(_)) => Err(format!("rejected unfolded, accepted folded: {}", short(&e.to_string()))),
        }
    })();
    match step {
        Err(e) => c.fail(format!("{e}\nunfolded:\n{plain:?}\nfolded:\n{folded:?}")),
        Ok(()) => {
            if folded != plain {
                c.distinct(&folded);
            }
            c.sample(|| folded);
        }
    }
}

fn large_fold(r: &mut Rng, line: &str, density: u64, n: &mut u64) -> String {
    let mut out = String::with_capacity(line.len() * 2);
    for (i, ch) in line.chars().enumerate() {
        if i > 0 && r.chance(1, density) {
            out.push_str(if r.chance(1, 2) { "\r\n " } else { "\r\n\t" });
            *n += 1;
        }
        out.push(ch);
    }
    out
}

/// Every place where a fold can be, one at a time, and large documents.
fn once(c: &mut Ctx) {
    crate::big::each(c, |n, r, m, c| {
        let density = *r.pick(&[3, 40, 75, 500]);
        let mut folds = 0;
        let text: String = m.logical().iter().map(|l| large_fold(r, l, density, &mut folds) + "\r\n").collect();
        c.add("folds of large documents", folds);
        let a = ik::parse(m.kind, n % 2 == 0, &m.text(), VIAS[n % 3])?.map_err(|e| format!("rejected unfolded: {}", short(&e.to_string())))?;
        let b = ik::parse(m.kind, n % 2 == 0, &text, VIAS[n % 3])?.map_err(|e| format!("rejected folded: {}", short(&e.to_string())))?;
        same(&a, &b)
    });
    for d in crate::corpus::docs() {
        let plain: String = d.text.replace("\r\n ", "").replace("\r\n\t", "");
        let Ok(whole) = ik::parse(d.kind, true, &plain, VIAS[0]) else {
            c.fail(format!("parsing {} panics", d.name));
            return;
        };
        let want = whole.as_ref().ok().map(Any::dump);
        for (i, ch) in plain.char_indices() {
            if i == 0 || matches!(ch, '\r' | '\n') || plain[..i].ends_with('\n') {
                continue;
            }
            let fold = if (i as u64 + c.seed) % 2 == 0 { "\r\n " } else { "\r\n\t" };
            let text = format!("{}{fold}{}", &plain[..i], &plain[i..]);
            c.count("single folds of documents people wrote");
            match (&want, ik::parse(d.kind, true, &text, VIAS[i % 3])) {
                (Some(a), Ok(Ok(b))) if a.diff(&b.dump()).is_none() => {}
                (None, Ok(Err(_))) => {}
                (_, got) => {
                    c.fail(format!("{}: a fold at {i} changes the result from accepted: {} to {}\n{text:?}", d.name, want.is_some(), short(&format!("{got:?}"))));
                    return;
                }
            }
        }
    }
}

fn same(a: &Any, b: &Any) -> Step {
    if let Some(d) = a.dump().diff(&b.dump()) {
        return Err(format!("folding changes the result: {d}"));
    }
    if a != b {
        return Err("folding changes the result (components not equal)".into());
    }
    Ok(())
}

fn spoil(r: &mut Rng, lines: &mut Vec<String>) {
    let i = r.us(lines.len());
    match r.below(5) {
        0 => {
            lines.remove(i);
        }
        1 => {
            let mut cs: Vec<char> = lines[i].chars().collect();
            if !cs.is_empty() {
                let k = r.us(cs.len());
                cs.remove(k);
                lines[i] = cs.into_iter().collect();
            }
        }
        2 => {
            let mut cs: Vec<char> = lines[i].chars().collect();
            let k = r.us(cs.len() + 1);
            cs.insert(k, *r.pick(&['"', ';', ':', '=', 'X', '0', ' ', '\\', 'é', '-']));
            lines[i] = cs.into_iter().collect();
        }
        3 => {
            let j = r.us(lines.len());
            lines.swap(i, j);
        }
        _ => {
            let l = lines[i].clone();
            lines.insert(i, l);
        }
    }
}

//! Documents of sizes at which buffers, counters and limits change.

use crate::gen_::{self, Mode, Opts};
use crate::model::{Body, Card, Kind, MComp, MLine, MVal, Ty, fields};
use crate::mon::{Ctx, Step};
use crate::rng::Rng;

pub const SIZES: &[usize] = &[
    74, 75, 76, 127, 128, 129, 255, 256, 257, 511, 512, 513, 997, 998, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10_000, 16_384, 32_767, 32_768, 32_769,
    65_535, 65_536, 65_537, 100_000, 131_073, 262_145, 524_289, 1_048_577,
];

/// One way of being large.
pub const SHAPES: &[&str] =
    &["text", "wide text", "unknown value", "unknown name", "parameter value", "quoted parameter value", "parameters", "lines", "unknown lines", "list", "sub-components", "description of a sub-component"];

fn filled(r: &mut Rng, n: usize, wide: bool) -> String {
    let mut s = String::with_capacity(n + 4);
    while s.len() < n {
        match r.below(12) {
            0 => s.push(' '),
            1 if wide => s.push('é'),
            2 if wide => s.push('😀'),
            3 => s.push_str("\\,"),
            _ => s.push((b'a' + r.below(26) as u8) as char),
        }
    }
    while s.len() > n {
        s.pop();
    }
    s.push_str(&"x".repeat(n - s.len()));
    // no backslash left dangling before the end
    if s.ends_with('\\') {
        s.pop();
        s.push('x');
    }
    s
}

fn least(r: &mut Rng, kind: Kind) -> MComp {
    let o = Opts { mode: Mode::Wire, depth: false, repeat: false, typed_params: false, ..Opts::doc(false) };
    let lines = fields(kind).iter().filter(|f| f.card == Card::Req).map(|f| gen_::known(r, &o, kind, f)).collect();
    MComp { kind, lines, kids: vec![] }
}

fn unknown(name: String, value: String, params: Vec<(String, String, bool)>) -> MLine {
    MLine { name, body: Body::Unknown(value), params }
}

/// A component of this kind, large in this way, where there is one.
pub fn large(r: &mut Rng, kind: Kind, shape: &str, n: usize) -> Option<MComp> {
    let mut m = least(r, kind);
    let text = |s: String| (MVal::Text(s.clone()), s);
    let at = |r: &mut Rng, want: &dyn Fn(&crate::model::Field) -> bool| {
        let v: Vec<_> = fields(kind).iter().filter(|f| want(f)).collect();
        if v.is_empty() { None } else { Some(*r.pick(&v)) }
    };
    // the least is there once
    let put = |m: &mut MComp, l: MLine| {
        m.lines.retain(|x| x.name != l.name);
        m.lines.push(l);
    };
    match shape {
        "text" | "wide text" => {
            let f = at(r, &|f| f.ty == Ty::Text && f.card != Card::App)?;
            let v = filled(r, n, shape != "text");
            put(&mut m, MLine { name: f.name.into(), body: Body::Known(f.name, vec![text(v)]), params: vec![] });
        }
        "unknown value" => m.lines.push(unknown("X-LARGE".into(), filled(r, n, true), vec![])),
        "unknown name" => m.lines.push(unknown(format!("X-{}", "LARGE-9".repeat(n / 7 + 1)[..n].to_owned()), "v".into(), vec![])),
        "parameter value" => m.lines.push(unknown("X-LARGE".into(), "v".into(), vec![("P".into(), filled(r, n, true), false)])),
        "quoted parameter value" => {
            let f = at(r, &|f| f.ty == Ty::Text && f.card != Card::App)?;
            let p = ("P".into(), filled(r, n, true), true);
            put(&mut m, MLine { name: f.name.into(), body: Body::Known(f.name, vec![text("v".into())]), params: vec![p] });
        }
        "parameters" => {
            let ps = (0..n).map(|i| (format!("P{i}"), format!("v{i}"), i % 2 == 0)).collect();
            m.lines.push(unknown("X-LARGE".into(), "v".into(), ps));
        }
        "lines" => {
            let f = at(r, &|f| f.card == Card::Many && matches!(f.ty, Ty::Text | Ty::Uri))?;
            for i in 0..n {
                let v = format!("v{i}");
                let v = if f.ty == Ty::Text { text(v) } else { (MVal::Uri(v.clone()), v) };
                m.lines.push(MLine { name: f.name.into(), body: Body::Known(f.name, vec![v]), params: vec![] });
            }
        }
        "unknown lines" => (0..n).for_each(|i| m.lines.push(unknown(format!("X-L{i}"), format!("v{i}"), vec![]))),
        "list" => {
            let f = at(r, &|f| f.card == Card::App && f.ty == Ty::Text)?;
            m.lines.push(MLine { name: f.name.into(), body: Body::Known(f.name, (0..n).map(|i| text(format!("v{i}"))).collect()), params: vec![] });
        }
        "sub-components" | "description of a sub-component" => {
            let kinds: Vec<Kind> = kind.kids().iter().flat_map(|(_, ks)| ks.iter().copied()).collect();
            if kinds.is_empty() {
                return None;
            }
            let k = *r.pick(&kinds);
            if shape == "sub-components" {
                m.kids = (0..n).map(|_| least(r, k)).collect();
            } else {
                m.kids = vec![large(r, k, "text", n)?];
            }
        }
        _ => return None,
    }
    Some(m)
}

/// Runs on every shape at every size, each on some kinds of component; stops at the first failure.
pub fn each(c: &mut Ctx, mut f: impl FnMut(usize, &mut Rng, MComp, &mut Ctx) -> Step) {
    let thorough = c.thorough;
    for (i, shape) in SHAPES.iter().enumerate() {
        for (j, n) in SIZES.iter().enumerate() {
            let most = match *shape {
                "sub-components" => 10_000,
                "parameters" | "lines" | "unknown lines" | "list" => 70_000,
                _ => usize::MAX,
            };
            if thorough && *n / 4 > most || !thorough && *n > most {
                continue;
            }
            let mut r = Rng::new(c.seed, "large", (i * 1000 + j) as u64);
            let mut left = if thorough { 6 } else { 2 };
            let mut kinds = crate::model::KINDS[..11].to_vec();
            r.shuffle(&mut kinds);
            for kind in kinds {
                if left == 0 {
                    break;
                }
                if let Some(m) = large(&mut r, kind, shape, *n) {
                    left -= 1;
                    c.count("large documents");
                    if let Err(e) = f(*n, &mut r, m, c) {
                        return c.fail(format!("{kind:?}, {shape} of size {n}: {}", e.chars().take(1500).collect::<String>()));
                    }
                }
            }
        }
    }
}

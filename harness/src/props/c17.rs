//! C17: date ordering and arithmetic are chronological.

use super::c16::ZONES;
use crate::cal;
use crate::gen_::{self, Opts};
use crate::ik;
use crate::model::Dt;
use crate::mon::{Ctx, Prop, Step, guard};
use crate::rng::Rng;
use crate::zones;
use std::cmp::Ordering;

pub const PROP: Prop = Prop {
    id: "C17",
    rule: "groups of 2 to 14 plain dates, floating date-times or absolute date-times (near and far, equal ones included, from the years 0000 to 9999, \
           from the limits of the calendar, from around the offset changes of 24 system zones with instants that share a wall-clock time), and dates \
           with date-times: every pair compared with every operator, the group sorted, put into ordered sets, its extremes taken; durations of any sign, \
           down to nanoseconds, added and the results subtracted and compared; all against integer time lines; distinct = distinct (zone, group), \
           non-trivial = at least two different points in time",
    cases: |t| if t { 20_000_000 } else { 4_000_000 },
    zones: ZONES,
    case,
    once,
    need: &[
        ("distinct", 300_000),
        ("pairs compared", 5_000_000),
        ("equal pairs", 50_000),
        ("pairs sharing a wall-clock time", 20_000),
        ("pairs ordered otherwise by wall clock", 5_000),
        ("dates with date-times", 500_000),
        ("durations subtracted", 100_000),
        ("sums", 1_000_000),
        ("sums over an offset change", 50_000),
    ],
    single_threaded_shards: true,
    assumptions: "a plain date is moved by whole days; floating and absolute date-times are not compared with each other, nor are mixtures of dates and \
                  date-times sorted (the comparison by day is not a total order); no leap seconds; sums stay within the calendar's range",
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Day,
    Naive,
    Utc,
}

/// Room kept to the limits of the calendar by instants: the zones are looked up around them.
const EDGE: i64 = 8 * cal::DAY;
const G: i128 = 1_000_000_000;

/// The point on the time line.
fn key(d: &Dt) -> i128 {
    match *d {
        Dt::Date(d) => i128::from(d),
        Dt::Naive(s, n) | Dt::Utc(s, n) => i128::from(s) * G + i128::from(n),
    }
}

fn day(d: &Dt) -> i64 {
    match *d {
        Dt::Date(d) => d,
        Dt::Naive(s, _) => s.div_euclid(cal::DAY),
        Dt::Utc(s, _) => ik::local_wall(s).div_euclid(cal::DAY),
    }
}

fn limits() -> (i64, i64) {
    let day = |d: chrono::NaiveDate| ik::rd_date(d) * cal::DAY;
    (day(chrono::NaiveDate::MIN), day(chrono::NaiveDate::MAX) + cal::DAY - 1)
}

fn point(r: &mut Rng, what: What) -> Dt {
    let o = Opts { leap: false, ..Opts::doc(true) };
    let nanos = if r.chance(1, 6) { *r.pick(&[1, 999_999_999, 500_000_000, 1_000_000]) } else { 0 };
    let (lo, hi) = limits();
    match what {
        What::Day => Dt::Date(match r.below(8) {
            0 => zones::near_wall(r).div_euclid(cal::DAY),
            1 => *r.pick(&[lo, hi]) / cal::DAY,
            2 => r.range(lo / cal::DAY + 1, hi / cal::DAY - 1),
            _ => gen_::day(r, &o),
        }),
        What::Naive => Dt::Naive(
            match r.below(8) {
                0..=2 => zones::near_wall(r),
                3 => *r.pick(&[lo, hi]),
                4 => r.range(lo, hi),
                _ => gen_::day(r, &o) * cal::DAY + gen_::time(r),
            },
            nanos,
        ),
        What::Utc => Dt::Utc(
            match r.below(8) {
                0..=3 => zones::near_change(r),
                4 => *r.pick(&[lo + EDGE, hi - EDGE]),
                5 => r.range(lo + EDGE, hi - EDGE),
                _ => gen_::day(r, &o) * cal::DAY + gen_::time(r),
            },
            nanos,
        ),
    }
}

/// Another point, often close to the given one or, for instants, at the same wall-clock time.
fn other(r: &mut Rng, d: &Dt) -> Dt {
    let (lo, hi) = limits();
    let what = match d {
        Dt::Date(_) => What::Day,
        Dt::Naive(..) => What::Naive,
        Dt::Utc(..) => What::Utc,
    };
    match (*d, r.below(7)) {
        (d, 0) => d,
        (Dt::Date(x), 1..=3) => Dt::Date((x + r.range(-2, 2)).clamp(lo / cal::DAY, hi / cal::DAY)),
        (Dt::Date(x), 4) => Dt::Date((x + *r.pick(&[-365, 365, 366, -7, 28, 29, 30, 31])).clamp(lo / cal::DAY, hi / cal::DAY)),
        (Dt::Naive(s, n), 1) => Dt::Naive(s, if n == 0 { 1 } else { n - 1 }),
        (Dt::Naive(s, n), 2..=4) => {
            let by = *r.pick(&[1, -1, 60, 3600, -3600, 86_399, 86_400, -86_401]);
            Dt::Naive((s + by).clamp(lo, hi), n)
        }
        (Dt::Utc(s, n), 1) => Dt::Utc(s, if n == 0 { 1 } else { n - 1 }),
        (Dt::Utc(s, n), 2) => Dt::Utc((s + *r.pick(&[1, -1, 1800, -1800, 3600, -3600, 7200, -86_400])).clamp(lo + EDGE, hi - EDGE), n),
        (Dt::Utc(s, n), 3..=5) => match zones::instants(ik::local_wall(s)).0.as_slice() {
            v if v.len() > 1 => Dt::Utc(*r.pick(v), n),
            _ => {
                // around a change which sets the clock back
                let back: Vec<_> = zones::changes().iter().filter(|c| c.after < c.before).collect();
                if back.is_empty() {
                    point(r, what)
                } else {
                    Dt::Utc((*r.pick(&back)).at + r.range(-5400, 5400), n)
                }
            }
        },
        _ => point(r, what),
    }
}

// ---------------------------------------------------------------- judging

fn pair<T: Ord + std::fmt::Debug>(a: &T, b: &T, want: Ordering) -> Step {
    let (ab, ba, p) = (a.cmp(b), b.cmp(a), a.partial_cmp(b));
    let ops = (a < b, a <= b, a > b, a >= b);
    let say = |what: &str| Err(format!("{a:?} and {b:?}: {what}, expected {want:?}"));
    if ab != want {
        return say(&format!("cmp gives {ab:?}"));
    }
    if ba != want.reverse() {
        return say(&format!("the other way round cmp gives {ba:?}"));
    }
    if p != Some(want) {
        return say(&format!("partial_cmp gives {p:?}"));
    }
    if ops != (want == Ordering::Less, want != Ordering::Greater, want == Ordering::Greater, want != Ordering::Less) {
        return say(&format!("<, <=, >, >= give {ops:?}"));
    }
    Ok(())
}

fn equal<T: PartialEq + std::fmt::Debug>(a: &T, b: &T, want: bool) -> Step {
    if (a == b) == want && (a != b) != want { Ok(()) } else { Err(format!("{a:?} == {b:?} is {}", a == b)) }
}

fn group(c: &mut Ctx, v: &[Dt]) -> Step {
    let dates: Vec<ikal::Date> = v.iter().map(ik::mk_date).collect();
    let times: Vec<ikal::DateTime> = v.iter().filter(|d| !matches!(d, Dt::Date(_))).map(ik::mk_datetime).collect();
    guard("comparing", || -> Step {
        for i in 0..v.len() {
            for j in 0..v.len() {
                let want = key(&v[i]).cmp(&key(&v[j]));
                c.count("pairs compared");
                pair(&dates[i], &dates[j], want)?;
                equal(&dates[i], &dates[j], want == Ordering::Equal)?;
                if let (Dt::Utc(a, _), Dt::Utc(b, _)) = (v[i], v[j]) {
                    let wall = ik::local_wall(a).cmp(&ik::local_wall(b));
                    if a != b && wall == Ordering::Equal {
                        c.count("pairs sharing a wall-clock time");
                    } else if a != b && wall != a.cmp(&b) {
                        c.count("pairs ordered otherwise by wall clock");
                    }
                }
                if want == Ordering::Equal && i != j {
                    c.count("equal pairs");
                }
                if !times.is_empty() {
                    pair(&times[i], &times[j], want)?;
                    equal(&times[i], &times[j], want == Ordering::Equal)?;
                    let d = times[i] - times[j];
                    let got = i128::from(d.num_seconds()) * G + i128::from(d.subsec_nanos());
                    if got != key(&v[i]) - key(&v[j]) {
                        return Err(format!("{:?} - {:?} gives {d:?}", times[i], times[j]));
                    }
                }
            }
        }
        let mut want: Vec<Dt> = v.to_vec();
        want.sort_by_key(key);
        let mut got = dates.clone();
        got.sort();
        if got != want.iter().map(ik::mk_date).collect::<Vec<_>>() {
            return Err(format!("sorted as {got:?}"));
        }
        let mut uniq = want.clone();
        uniq.dedup();
        let set: std::collections::BTreeSet<Ordered> = dates.iter().map(|d| Ordered(*d)).collect();
        if set.iter().map(|d| d.0).collect::<Vec<_>>() != uniq.iter().map(ik::mk_date).collect::<Vec<_>>() {
            return Err("an ordered set holds other values".to_string());
        }
        if dates.iter().max().map(ik::rd_any) != want.last().copied() || dates.iter().min().map(ik::rd_any) != want.first().copied() {
            return Err(format!("the extremes are {:?} and {:?}", dates.iter().min(), dates.iter().max()));
        }
        if let [a, b, x, ..] = dates.as_slice() {
            let (lo, hi) = (*a.min(b), *a.max(b));
            let w = key(&v[2]).clamp(key(&v[0]).min(key(&v[1])), key(&v[0]).max(key(&v[1])));
            if key(&ik::rd_any(&(*x).clamp(lo, hi))) != w {
                return Err(format!("{x:?} is clamped to {:?}", (*x).clamp(lo, hi)));
            }
        }
        Ok(())
    })?
}

#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Ordered(ikal::Date);

/// Dates against date-times of any kind.
fn by_day(c: &mut Ctx, r: &mut Rng, v: &[Dt]) -> Step {
    for d in v {
        let near = day(d) + r.range(-1, 1);
        let (lo, hi) = limits();
        if near < lo / cal::DAY || near > hi / cal::DAY || matches!(d, Dt::Date(_)) {
            continue;
        }
        let date = ik::mk_date(&Dt::Date(near));
        let dt = ik::mk_date(d);
        c.count("dates with date-times");
        guard("comparing", || pair(&date, &dt, near.cmp(&day(d))).and_then(|()| equal(&date, &dt, false)))??;
    }
    Ok(())
}

fn length(r: &mut Rng, from: &Dt) -> (i64, i32) {
    if matches!(from, Dt::Date(_)) {
        let n = match r.below(4) {
            0 => r.range(-3, 3),
            1 => r.range(-400, 400),
            2 => r.range(-4_000_000, 4_000_000),
            _ => *r.pick(&[7, -7, 28, 30, 31, 365, 366, -1, 1, 0]),
        };
        return (n * cal::DAY, 0);
    }
    let s = match r.below(7) {
        0 => 0,
        1 => r.range(-2, 2),
        2 => *r.pick(&[3600, -3600, 1800, 7200, 86_400, -86_400, 86_399, 604_800]),
        3 => r.range(-200_000, 200_000),
        4 => r.range(-40_000_000, 40_000_000),
        5 => r.range(-300_000_000_000, 300_000_000_000),
        _ => r.range(-86_400, 86_400),
    };
    let n = if r.chance(1, 5) { *r.pick(&[1, -1, 999_999_999, -999_999_999, 500_000_000]) } else { 0 };
    (s, n)
}

fn sums(c: &mut Ctx, r: &mut Rng, v: &[Dt]) -> Step {
    let (lo, hi) = limits();
    for a in v {
        let (s, n) = length(r, a);
        let by = i128::from(s) * G + i128::from(n);
        let d = ik::dur(s) + chrono::Duration::nanoseconds(i64::from(n));
        let unit = if matches!(a, Dt::Date(_)) { i128::from(cal::DAY) * G } else { 1 };
        let want = key(a) + by / unit;
        let (min, max) = match a {
            Dt::Date(_) => (i128::from(lo / cal::DAY), i128::from(hi / cal::DAY)),
            Dt::Naive(..) => (i128::from(lo) * G, i128::from(hi) * G),
            Dt::Utc(..) => (i128::from(lo + EDGE) * G, i128::from(hi - EDGE) * G),
        };
        if want < min || want > max {
            continue;
        }
        c.count("sums");
        if let Dt::Utc(x, _) = a {
            if zones::offset(*x) != zones::offset(x + s) {
                c.count("sums over an offset change");
            }
        }
        guard("adding", || -> Step {
            let x = ik::mk_date(a);
            let y = x + d;
            let what = format!("{x:?} + {d:?} gives {y:?}");
            if key(&ik::rd_any(&y)) != want || std::mem::discriminant(&ik::rd_any(&y)) != std::mem::discriminant(a) {
                return Err(what);
            }
            pair(&y, &x, by.cmp(&0)).map_err(|e| format!("{what}: {e}"))?;
            if !matches!(a, Dt::Date(_)) {
                let (p, q) = (ik::mk_datetime(a), ik::mk_datetime(a) + d);
                if ikal::Date::from(q) != y {
                    return Err(format!("{p:?} + {d:?} gives {q:?}"));
                }
                if q - p != d || p - q != -d {
                    return Err(format!("({p:?} + {d:?}) - {p:?} gives {:?}", q - p));
                }
                pair(&q, &p, by.cmp(&0))?;
                // what is left is a wall-clock time, and only across an offset change is there a choice which
                let earlier = match *a {
                    Dt::Utc(x, f) if zones::offset(x) == zones::offset(i64::try_from(want.div_euclid(G)).unwrap()) => Some(Dt::Naive(ik::local_wall(x), f)),
                    Dt::Utc(..) => None,
                    a => Some(a),
                };
                if let Some(earlier) = earlier {
                    let back = q - d;
                    c.count("durations subtracted");
                    if ik::rd_naive(back) != earlier {
                        return Err(format!("{q:?} - {d:?} gives {back:?}"));
                    }
                }
            }
            Ok(())
        })??;
    }
    Ok(())
}

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C17", idx);
    let what = *r.pick(&[What::Day, What::Naive, What::Utc, What::Utc]);
    let mut v = vec![point(&mut r, what)];
    for _ in 0..1 + r.us(2) * r.us(12) + r.us(2) {
        let from = *r.pick(&v);
        v.push(other(&mut r, &from));
    }
    r.shuffle(&mut v);
    let step = group(c, &v).and_then(|()| by_day(c, &mut r, &v)).and_then(|()| sums(c, &mut r, &v));
    if let Err(e) = step {
        c.fail(format!("TZ={}: {v:?}: {e}", c.tz));
    }
    if v.iter().any(|d| d != &v[0]) {
        c.distinct(&format!("{}{v:?}", c.tz));
    }
    let tz = c.tz.clone();
    c.sample(|| format!("TZ={tz} {v:?}"));
}

/// Every offset change of the zone: an ascending run of instants over it.
fn once(c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C17 once", 0);
    for ch in zones::changes() {
        let v: Vec<Dt> = (-8..=8).map(|k| Dt::Utc(ch.at + k * 900, 0)).collect();
        let step = group(c, &v).and_then(|()| by_day(c, &mut r, &v)).and_then(|()| sums(c, &mut r, &v));
        if let Err(e) = step {
            c.fail(format!("TZ={}: {v:?}: {e}", c.tz));
            return;
        }
    }
}

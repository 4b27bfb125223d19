//! Offset changes of the system time zone, to aim workloads at them.

use crate::cal;
use crate::ik;
use crate::rng::Rng;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug)]
pub struct Change {
    /// First instant with the new offset.
    pub at: i64,
    pub before: i64,
    pub after: i64,
}

pub fn offset(at: i64) -> i64 {
    ik::local_wall(at) - at
}

/// All changes between 1880 and 2040 (nothing shorter than six days apart is resolved).
pub fn changes() -> &'static [Change] {
    static C: OnceLock<Vec<Change>> = OnceLock::new();
    C.get_or_init(|| {
        scan(cal::days(1880, 1, 1) * cal::DAY, cal::days(2040, 1, 1) * cal::DAY, 6 * cal::DAY)
    })
}

fn scan(mut s: i64, end: i64, step: i64) -> Vec<Change> {
    let mut v = Vec::new();
    while s < end {
        if offset(s) != offset(s + step) {
            let (mut lo, mut hi) = (s, s + step);
            while hi - lo > 1 {
                let mid = lo + (hi - lo) / 2;
                if offset(mid) == offset(s) {
                    lo = mid;
                } else {
                    hi = mid;
                }
            }
            v.push(Change { at: hi, before: offset(lo), after: offset(hi) });
        }
        s += step;
    }
    v
}

/// An instant near a change (or anywhere, if there are none).
pub fn near_change(r: &mut Rng) -> i64 {
    let c = changes();
    if c.is_empty() {
        return r.range(cal::days(1880, 1, 1), cal::days(2040, 1, 1)) * cal::DAY + r.range(0, cal::DAY - 1);
    }
    r.pick(c).at + distance(r)
}

/// A wall-clock time near a change, often one which does not exist or exists twice.
pub fn near_wall(r: &mut Rng) -> i64 {
    let c = changes();
    if c.is_empty() {
        return near_change(r);
    }
    let c = *r.pick(c);
    let (a, b) = (c.at + c.before, c.at + c.after);
    match r.below(4) {
        0 | 1 => r.range(a.min(b), a.max(b)),
        2 => *r.pick(&[a, b, a - 1, b - 1, a + 1, b + 1]),
        _ => a + distance(r),
    }
}

fn distance(r: &mut Rng) -> i64 {
    match r.below(4) {
        0 => r.range(-2, 2),
        1 => r.range(-24, 24) * 3600,
        2 => r.range(-7200, 7200),
        _ => r.range(-3 * cal::DAY, 3 * cal::DAY),
    }
}

/// Instants at which the wall clock shows this, and whether the wall-clock time is one at which a
/// change takes place (there chrono itself is off by one second).
pub fn instants(wall: i64) -> (Vec<i64>, bool) {
    let mut offs: Vec<i64> = vec![offset(wall - 2 * cal::DAY), offset(wall + 2 * cal::DAY)];
    let mut edge = false;
    for c in scan(wall - 2 * cal::DAY, wall + 2 * cal::DAY, cal::DAY / 4) {
        offs.push(c.before);
        offs.push(c.after);
        edge |= wall == c.at + c.before || wall == c.at + c.after;
    }
    offs.sort_unstable();
    offs.dedup();
    let mut v: Vec<i64> = offs.into_iter().map(|o| wall - o).filter(|u| ik::local_wall(*u) == wall).collect();
    v.sort_unstable();
    (v, edge)
}

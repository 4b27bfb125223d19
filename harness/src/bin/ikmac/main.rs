//! C18: builder macros build exactly the component that is spelled out.
//! A binary of its own, so that a macro call which does not compile concerns this property only.

mod calls;
mod hand;

use ikmon::gen_::{self, Mode, Opts};
use ikmon::ik::{self, IkVal as _};
use ikmon::model::{MVal, Params};
use ikmon::mon::{Ctx, Prop, guard};
use ikmon::rng::Rng;
use std::cell::Cell;

const PROP: Prop = Prop {
    id: "C18",
    rule: "over 400 invocations of the nine builder macros, written by a generator: every field of every component alone and in several forms (strings, \
           slices, expressions, objects, lists of 0 to 4 values, variables named like the field), every field at once, random sets of fields in random \
           order, nested events, standard and daylight parts, alarms and other macros inside; each run with drawn values, valid and invalid, and compared \
           with the component set up by hand; distinct = distinct (invocation, outcome), non-trivial = an invocation with at least one field",
    cases: |t| if t { 40_000_000 } else { 3_000_000 },
    zones: &["UTC", "Europe/Paris"],
    case,
    once,
    need: &[("distinct", 100_000), ("invocations run", 400_000), ("built", 200_000), ("refused", 20_000), ("expressions counted", 50_000)],
    single_threaded_shards: true,
    assumptions: "the texts are converted by hand through the public conversions of ikal (judged by the other properties) and, for durations, an \
                  independent reader; RDATE has no conversion from text, and sub-components other than events, standard and daylight parts are given as \
                  values or through their own macros; the kind of an alarm decides its ACTION",
};

fn main() {
    ikmon::cli(&[&PROP]);
}

/// Values drawn for one invocation.
pub struct V {
    r: Rng,
    bad: bool,
    ids: Cell<u32>,
    pub outcome: Option<(bool, u64)>,
}

const O: fn() -> Opts = || Opts { leap: false, ..Opts::doc(true) };

impl V {
    /// Now and then something which is no value of this type.
    fn or_bad(&mut self, s: String, bad: &[&str]) -> String {
        if !self.bad || !self.r.chance(1, 4) {
            return s;
        }
        match self.r.below(4) {
            0 => format!("{s}x"),
            1 => format!(" {s}"),
            _ => (*self.r.pick(bad)).to_string(),
        }
    }
    pub fn text(&mut self) -> String {
        match self.r.below(12) {
            0 => String::new(),
            1 => (*self.r.pick(&["20200101T000000Z", "None", "Some", "P1D", " x ", "a,b;c", "\"", "0"])).to_string(),
            _ => {
                let mode = *self.r.pick(&[Mode::Plain, Mode::Wire, Mode::Hostile]);
                gen_::text(&mut self.r, mode)
            }
        }
    }
    pub fn uri(&mut self) -> String {
        if self.r.chance(1, 12) { String::new() } else { gen_::uri(&mut self.r, Mode::Plain) }
    }
    pub fn date(&mut self) -> String {
        let s = gen_::date(&mut self.r, &O()).wire();
        self.or_bad(s, &["", "2020", "20200230", "20200101T250000", "0", "2020-01-01", "Z", "20200101Z", "99999999"])
    }
    pub fn date_time(&mut self) -> String {
        let s = gen_::datetime(&mut self.r, &O()).wire();
        self.or_bad(s, &["", "20200101", "20200230T000000", "20200101T250000Z", "now", "20200101T0000", "2020-01-01T00:00:00"])
    }
    pub fn offset(&mut self) -> String {
        let s = MVal::Off(60 * self.r.range(-1439, 1439) as i32).wire();
        self.or_bad(s, &["", "0100", "+1", "UTC", "+01000", "+9900", "+0160"])
    }
    pub fn duration(&mut self) -> String {
        let s = loop {
            let (n, s) = gen_::duration(&mut self.r, &O());
            if n.abs() < 1 << 40 {
                break s;
            }
        };
        self.or_bad(s, &["", "P", "PT", "-", "1H", "P1", "PT5", "PXD", "P1H", "PT1D", "P99999999999999999999D", "P1D2"])
    }
    pub fn trigger(&mut self) -> String {
        if self.r.chance(1, 3) { self.date_time() } else { self.duration() }
    }
    pub fn rule(&mut self) -> String {
        let m = gen_::recur(&mut self.r, &O());
        let s = gen_::recur_wire(&mut self.r, &m, true);
        self.or_bad(s, &["", "FREQ", "FREQ=", "COUNT=1", "FREQ=DAILY;COUNT=x", "FREQ=NEVER", "DAILY"])
    }
    pub fn position(&mut self) -> String {
        let s = MVal::Geo(gen_::float(&mut self.r), gen_::float(&mut self.r)).wire();
        self.or_bad(s, &["", "1", "1;", ";1", "1,2", "a;b", "1;2;3"])
    }
    pub fn status(&mut self) -> String {
        let d = gen_::text(&mut self.r, Mode::Wire);
        let e = if self.r.chance(1, 2) { Some(gen_::text(&mut self.r, Mode::Wire)) } else { None };
        let s = MVal::RStat(gen_::statcode(&mut self.r), d, e).wire();
        self.or_bad(s, &["", "2.0", "Success", ";Success", "x;y"])
    }
    pub fn byte(&mut self) -> u8 {
        *self.r.pick(&[0, 1, 2, 3, 5, 9, 10, 100, 127, 128, 255])
    }
    pub fn number(&mut self) -> u32 {
        if self.r.chance(1, 2) { self.r.below(100) as u32 } else { self.r.u64() as u32 }
    }
    pub fn float(&mut self) -> f32 {
        gen_::float(&mut self.r)
    }
    pub fn code(&mut self) -> f32 {
        gen_::statcode(&mut self.r)
    }
    pub fn day(&mut self) -> chrono::NaiveDate {
        ik::naive_date(gen_::day(&mut self.r, &O()))
    }
    pub fn weekday(&mut self) -> ikal::WeekdayNum {
        let weekday = self.r.pick(&ik::WEEKDAYS).1.clone();
        let ord = if self.r.chance(1, 2) { Some(self.r.range(-53, 53) as i8) } else { None };
        ikal::WeekdayNum { weekday, ord }
    }
    pub fn period(&mut self) -> ikal::Period {
        let (v, _) = gen_::period(&mut self.r, &O());
        ikal::Period::mk(&v, &Params::new())
    }
    pub fn props(&mut self) -> ikal::VTimezone {
        let mut s = String::from("BEGIN:VTIMEZONE\r\nTZID:x\r\n");
        for i in 0..self.r.below(3) {
            s.push_str(&format!("X-{i};P={i}:{}\r\n", gen_::token(&mut self.r, 9)));
        }
        s.push_str("END:VTIMEZONE\r\n");
        s.parse().unwrap_or_default()
    }
    /// The same text, counting how often it is asked for.
    pub fn id<'a>(&self, s: &'a str) -> &'a str {
        self.ids.set(self.ids.get() + 1);
        s
    }

    /// The macro's result against the one by hand.
    pub fn judge<T: PartialEq + std::fmt::Debug>(&mut self, m: ikal::Result<T>, h: ikal::Result<T>, ids: u32) -> Result<(), String> {
        let n = self.ids.get();
        let text = match (&m, &h) {
            (Ok(a), Ok(b)) => {
                let (x, y) = (format!("{a:?}"), format!("{b:?}"));
                if a != b || x != y {
                    return Err(format!("the macro gives\n  {x}\nby hand it is\n  {y}"));
                }
                if n != ids {
                    return Err(format!("{ids} expressions were evaluated {n} times"));
                }
                x
            }
            (Err(_), Err(_)) => {
                if n > ids {
                    return Err(format!("{ids} expressions were evaluated {n} times"));
                }
                String::new()
            }
            (Ok(a), Err(e)) => return Err(format!("the macro gives\n  {a:?}\nby hand it is refused: {e}")),
            (Err(e), Ok(b)) => return Err(format!("the macro is refused: {e}\nby hand it gives\n  {b:?}")),
        };
        self.outcome = Some((m.is_ok(), ikmon::rng::hash_str(&text)));
        Ok(())
    }
}

fn run(c: &mut Ctx, i: usize, r: Rng, bad: bool) {
    let (f, ty, fields) = calls::CALLS[i];
    let mut v = V { r, bad, ids: Cell::new(0), outcome: None };
    c.count("invocations run");
    match guard("building", || f(&mut v)) {
        Ok(Ok(())) => {
            let (ok, h) = v.outcome.unwrap_or((false, 0));
            c.count(if ok { "built" } else { "refused" });
            if v.ids.get() > 0 {
                c.count("expressions counted");
            }
            if !fields.is_empty() {
                c.distinct(&format!("{i} {h}"));
            }
        }
        Ok(Err(e)) | Err(e) => c.fail(format!("TZ={}: invocation {i} of calls.rs, {ty} {{ {fields} }}: {e}", c.tz)),
    }
}

fn case(idx: u64, c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "C18", idx);
    let i = (idx % calls::CALLS.len() as u64) as usize;
    let bad = r.chance(1, 3);
    run(c, i, r, bad);
    let (_, ty, fields) = calls::CALLS[i];
    c.sample(|| format!("{ty} {{ {fields} }}"));
}

fn once(c: &mut Ctx) {
    for i in 0..calls::CALLS.len() {
        run(c, i, Rng::new(c.seed, "C18 once", i as u64), false);
    }
}

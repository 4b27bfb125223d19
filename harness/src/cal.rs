//! Independent proleptic Gregorian calendar on integers (days and seconds since 1970-01-01).

pub const DAY: i64 = 86_400;

pub fn is_leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}

pub fn days_in_month(y: i64, m: i64) -> i64 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        _ => {
            if is_leap(y) {
                29
            } else {
                28
            }
        }
    }
}

/// Days before the first of January of year y, counted from 0000-01-01.
fn days_before_year(y: i64) -> i64 {
    let p = y - 1;
    // number of leap years in 0..=p for p >= 0 (year 0 is leap), and symmetric below
    y * 365 + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400) + 1
}

const EPOCH: i64 = 719_528; // days from 0000-01-01 to 1970-01-01

pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let mut n = days_before_year(y) - EPOCH;
    for k in 1..m {
        n += days_in_month(y, k);
    }
    n + d - 1
}

pub fn civil(days: i64) -> (i64, i64, i64) {
    let n = days + EPOCH;
    let mut y = (n as f64 / 365.2425).floor() as i64;
    while days_before_year(y) > n {
        y -= 1;
    }
    while days_before_year(y + 1) <= n {
        y += 1;
    }
    let mut rest = n - days_before_year(y);
    let mut m = 1;
    while rest >= days_in_month(y, m) {
        rest -= days_in_month(y, m);
        m += 1;
    }
    (y, m, rest + 1)
}

pub fn fmt_date(days: i64) -> String {
    let (y, m, d) = civil(days);
    if (0..=9999).contains(&y) {
        format!("{y:04}{m:02}{d:02}")
    } else {
        format!("{y:+05}-{m:02}-{d:02}")
    }
}

pub fn fmt_dt(secs: i64, leap: bool) -> String {
    let (d, s) = (secs.div_euclid(DAY), secs.rem_euclid(DAY));
    let sec = if leap { 60 } else { s % 60 };
    format!("{}T{:02}{:02}{:02}", fmt_date(d), s / 3600, s / 60 % 60, sec)
}

/// Strict reader of YYYYMMDD.
pub fn read_date(s: &str) -> Option<i64> {
    if s.len() != 8 || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let (y, m, d) = (s[0..4].parse().ok()?, s[4..6].parse().ok()?, s[6..8].parse().ok()?);
    if !(1..=12).contains(&m) || d < 1 || d > days_in_month(y, m) {
        return None;
    }
    Some(days(y, m, d))
}

/// Strict reader of YYYYMMDDTHHMMSS: seconds and whether the second is a leap second.
pub fn read_dt(s: &str) -> Option<(i64, bool)> {
    let (d, t) = s.split_once('T')?;
    if t.len() != 6 || !t.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let n = |r: std::ops::Range<usize>| t[r].parse::<i64>().ok();
    let (h, m, sec) = (n(0..2)?, n(2..4)?, n(4..6)?);
    if h > 23 || m > 59 || sec > 60 {
        return None;
    }
    Some((read_date(d)? * DAY + h * 3600 + m * 60 + sec.min(59), sec == 60))
}

#[cfg(test)]
mod test {
    #[test]
    fn civil() {
        assert_eq!(super::days(1970, 1, 1), 0);
        assert_eq!(super::days(2000, 3, 1), 11_017);
        let mut n = super::days(-3, 1, 1);
        for y in -3..2500i64 {
            for m in 1..=12 {
                for d in 1..=super::days_in_month(y, m) {
                    assert_eq!(super::days(y, m, d), n);
                    assert_eq!(super::civil(n), (y, m, d));
                    n += 1;
                }
            }
        }
    }
}

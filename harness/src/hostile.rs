//! Hostile inputs: mutations of documents and values, and a dictionary of troublemakers.

use crate::rng::Rng;

/// Pieces that tend to upset parsers of this format.
pub const PIECES: &[&str] = &[
    "", " ", "\t", "\r", "\n", "\r\n", "\r\n ", "\r\n\t", "\n ", "\r ", "\u{0}", "\u{7f}", "\u{85}", "\u{2028}", "\u{feff}", "é", "中", "😀", "\u{10ffff}",
    "\u{301}", "٣", "１", "²", "½", "Ⅷ", "ǅ", "İ", "ß", "ﬀ", "\u{200d}", "-", "+", "--", "+-", "-+", ".", "..", "1e", "e9", "1e39", "1e-50", "inf", "nan", "NaN",
    "-inf", "0", "00", "-0", "1", "9", "10", "59", "60", "61", "99", "127", "128", "-128", "-129", "255", "256", "32768", "65536", "2147483647", "2147483648",
    "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551616",
    "99999999999999999999999999999999999999999", "9223372036854775", "9223372036854776", "106751991167", "153722867280912", "2562047788015215",
    "15250284452471", "0.1", "1.", ".5", "2.0", "3.1.4", "180", "-180", "P", "PT", "P1", "P1D", "P-1D", "PT1", "P1W", "P1Y", "P1M", "PT1H1H", "-P1D", "+P1D", "P1DT",
    "PT0S", "P9223372036854775807W", "PT9223372036854775807S", "PT9223372036854775S", "PT9223372036854776S", "-PT9223372036854775S", "-PT9223372036854775808S",
    "P1,5D", "P0.5D", "PTT1S", "P1D1W", "T", "Z", "z", "ZZ", "/", "//", "20240101", "00000101", "99991231", "00000000", "20240230", "20240229", "20230229",
    "19000229", "20241301", "20240132", "20240101T000000", "20240101T000000Z", "20240101T235960Z", "20240101T240000", "20240101T236000", "20240310T023000Z",
    "20240310T023000", "20241103T013000Z", "20240331T023000Z", "00000101T000000Z", "00010101T000000Z", "99991231T235959Z", "99991231T235960Z", "20111230T120000Z", "20240101T",
    "20240101T0000", "2024-01-01", "2024-01-01T00:00:00Z", "+20240101", "-0010101", "20240101 ", " 20240101", "2024 101", "1", "20240101T000000/PT1H",
    "20240101T000000Z/20240102T000000Z", "20240101T000000/", "/PT1H", "20240101T000000Z/-PT1H", "20240101T000000Z/P", "99991231T235959Z/P99999999D",
    "FREQ=", "FREQ", "FREQ=DAILY", "FREQ=DAILY;", "FREQ=DAILY;COUNT=", "FREQ=DAILY;COUNT=256", "FREQ=DAILY;INTERVAL=-1", "FREQ=DAILY;BYDAY=", "FREQ=DAILY;BYDAY=-",
    "FREQ=DAILY;BYDAY=1", "FREQ=DAILY;BYDAY=é", "FREQ=DAILY;BYDAY=MOé", "FREQ=DAILY;BYDAY=-129MO", "FREQ=DAILY;BYDAY=+MO", "FREQ=DAILY;BYMONTH=,", "FREQ=DAILY;UNTIL=",
    "FREQ=DAILY;UNTIL=é", "FREQ=DAILY;=", "=;=", ";", ";;", ",", ",,", "=", "==", ":", "::", "\"", "\"\"", "\"\"\"", "'", "\\", "\\\\", "\\\\\\", "\\n", "\\é",
    "+0000", "-0000", "+2400", "-2359", "+9999", "+01", "+0160", "+000060", "+00:00", "é0000", "+é000", "-1", "AUDIO", "audio", "X", "VALARM", "BEGIN", "END",
    "BEGIN:", "END:", "BEGIN:VEVENT", "END:VEVENT", "\r\nBEGIN:VEVENT\r\n", "\r\nEND:VEVENT\r\n", "\r\nBEGIN:VALARM\r\n", "\r\nEND:VALARM\r\n",
    "\r\nEND:VCALENDAR\r\n", "\r\nBEGIN:VCALENDAR\r\n", "\r\nBEGIN:X\r\nEND:X\r\n", ";VALUE=PERIOD", ";VALUE=DATE", ";X=", ";X=\"", ";X=\"a\"b", ";=", ";X", ";X=a;X=b",
    "\r\nACTION:AUDIO\r\n", "\r\nACTION:\r\n", "TENTATIVE", "DAILY", "MO", "-1MO", "53SU", "37.386013;-122.082932", ";1", "1;", "1;2;3", "1e40;1", "inf;nan", "2.8;a;b;c",
    "2.8", "2.8;", "mailto:x@y", "%", "%s", "{}", "{0}", "\u{1b}[31m", "../../etc/passwd",
];

/// A duration whose amounts are near the ends of what their sum, or each of them, can be.
pub fn edge_duration(r: &mut Rng) -> String {
    let units = [("W", 604_800i64), ("D", 86_400), ("H", 3_600), ("M", 60), ("S", 1)];
    let limit = *r.pick(&[i64::MAX / 1000, i64::MAX, i64::MAX / 1000 / 2, i64::from(i32::MAX), 86_400 * 146_097, 8_210_298_412_800]);
    let mut left = limit;
    let mut s = (*r.pick(&["P", "-P", "+P"])).to_string();
    let mut time = false;
    for (u, n) in units {
        if r.chance(1, 3) && u != "S" {
            continue;
        }
        if "HMS".contains(u) && !time {
            s.push('T');
            time = true;
        }
        let all = left / n;
        let x = match r.below(8) {
            0 => i64::MAX,
            1 => limit,
            2 => 0,
            3 => all.saturating_add(r.range(-2, 2)),
            4 => all / 2,
            5 => i64::MAX / n,
            _ => all,
        }
        .max(0);
        left = left.saturating_sub(x.saturating_mul(n)).max(0);
        s.push_str(&format!("{x}{u}"));
        if r.chance(1, 12) {
            break;
        }
    }
    s
}

/// Alters a text in place, somewhere.
pub fn mutate(r: &mut Rng, s: &mut String, other: &str) {
    let at = |r: &mut Rng, s: &str| -> usize {
        // mostly beside something structural
        if r.chance(1, 2) {
            let marks: Vec<usize> = s.match_indices([':', ';', ',', '=', '"', '\r', '\n', '/', '\\', '-', '+', 'T', 'Z', 'P']).map(|m| m.0).take(4000).collect();
            if !marks.is_empty() {
                return *r.pick(&marks) + r.us(2);
            }
        }
        let mut i = r.us(s.len() + 1);
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        i
    };
    let next = |s: &str, i: usize| s[i..].chars().next().map_or(i, |c| i + c.len_utf8());
    let i = at(r, s);
    match r.below(13) {
        0 => {
            if i < s.len() {
                s.remove(i);
            }
        }
        1..=3 => s.insert_str(i, r.pick(PIECES)),
        4 => s.truncate(i),
        5 => {
            let j = at(r, s);
            let (a, b) = (i.min(j), i.max(j));
            if b - a < 200 || r.chance(1, 8) {
                s.replace_range(a..b, if r.chance(1, 2) { "" } else { r.pick(PIECES) });
            }
        }
        6 => {
            let j = at(r, s);
            let (a, b) = (i.min(j), i.max(j));
            if b - a < 400 {
                let piece = s[a..b].to_string();
                for _ in 0..1 + r.us(3) {
                    s.insert_str(a, &piece);
                }
            }
        }
        7 => {
            // replace a whole value
            if let Some(a) = s[..i].rfind(':')
                && let Some(n) = s[a..].find(['\r', '\n'])
            {
                let name = s[..a].rfind('\n').map_or(&s[..a], |l| &s[l + 1..a]);
                if (name.starts_with("DURATION") || name.starts_with("TRIGGER")) && r.chance(2, 3) {
                    s.replace_range(a + 1..a + n, &edge_duration(r));
                } else {
                    s.replace_range(a + 1..a + n, r.pick(PIECES));
                }
            }
        }
        8 => {
            if i < s.len() {
                let j = next(s, i);
                let c = char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}');
                s.replace_range(i..j, &c.to_string());
            }
        }
        9 => {
            if i < s.len() {
                let j = next(s, i);
                let c = (r.below(128) as u8) as char;
                s.replace_range(i..j, &c.to_string());
            }
        }
        10 => {
            // splice from another document
            let (a, b) = (at(r, other), at(r, other));
            let (a, b) = (a.min(b), a.max(b));
            let mut e = b.min(a + 300);
            while !other.is_char_boundary(e) {
                e -= 1;
            }
            s.insert_str(i, &other[a..e]);
        }
        11 => {
            // other line ends
            *s = match r.below(4) {
                0 => s.replace("\r\n", "\n"),
                1 => s.replace("\r\n", "\r"),
                2 => s.replace("\r\n", "\r\n\r\n"),
                _ => s.replacen("\r\n", "\n\r", 1),
            };
        }
        _ => {
            // swap two lines
            let mut l: Vec<&str> = s.split_inclusive('\n').collect();
            if l.len() > 1 {
                let (a, b) = (r.us(l.len()), r.us(l.len()));
                l.swap(a, b);
                *s = l.concat();
            }
        }
    }
}

/// A text of nothing but troublemakers.
pub fn soup(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.us(12) {
        match r.below(4) {
            0 => s.push(char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}')),
            1 => s.push((r.below(128) as u8) as char),
            _ => s.push_str(r.pick(PIECES)),
        }
    }
    s
}

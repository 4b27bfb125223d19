//! Conversions used by the hand-built side.

use ikmon::wire;

pub fn text(s: &str) -> ikal::Text {
    ikal::Text { params: Default::default(), text: s.to_string() }
}

pub fn uri(s: &str) -> ikal::Uri {
    ikal::Uri { params: Default::default(), uri: s.to_string() }
}

pub fn conv<T>(s: &str) -> ikal::Result<T>
where
    T: std::str::FromStr,
    ikal::Error: From<T::Err>,
{
    Ok(s.parse::<T>()?)
}

fn refused() -> ikal::Error {
    match ikal::parse_duration("") {
        Err(e) => e,
        Ok(_) => "".parse::<ikal::Recur>().expect_err("an empty rule is no rule"),
    }
}

pub fn length(s: &str) -> ikal::Result<chrono::Duration> {
    let n = wire::read_dur(s).map_err(|_| refused())?;
    i64::try_from(n).ok().and_then(chrono::Duration::try_seconds).ok_or_else(refused)
}

pub fn trigger(s: &str) -> ikal::Result<ikal::Trigger> {
    if s.contains('P') { length(s).map(ikal::Trigger::Duration) } else { conv::<ikal::DateTime>(s).map(ikal::Trigger::DateTime) }
}

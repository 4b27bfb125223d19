//! Documents people wrote: those of ikal's own tests.

use crate::model::Kind;
use std::sync::OnceLock;

pub struct Doc {
    pub name: String,
    pub kind: Kind,
    pub text: String,
}

pub fn docs() -> &'static [Doc] {
    static D: OnceLock<Vec<Doc>> = OnceLock::new();
    D.get_or_init(|| {
        let dir = concat!(env!("CARGO_MANIFEST_DIR"), "/corpus");
        let mut v: Vec<Doc> = std::fs::read_dir(dir)
            .expect("corpus")
            .map(|e| e.expect("corpus").path())
            .filter_map(|p| {
                let text = std::fs::read_to_string(&p).ok()?;
                let tag = text.lines().find_map(|l| l.strip_prefix("BEGIN:"))?.trim_end().to_string();
                let kind = match tag.as_str() {
                    "VCALENDAR" => Kind::VCalendar,
                    "VEVENT" => Kind::VEvent,
                    "VTODO" => Kind::VTodo,
                    "VJOURNAL" => Kind::VJournal,
                    "VFREEBUSY" => Kind::VFreebusy,
                    "VTIMEZONE" => Kind::VTimezone,
                    "VALARM" => Kind::Display,
                    _ => return None,
                };
                Some(Doc { name: p.file_name().expect("name").to_string_lossy().into_owned(), kind, text })
            })
            .collect();
        v.sort_by(|a, b| a.name.cmp(&b.name));
        assert!(v.len() > 50, "corpus");
        v
    })
}

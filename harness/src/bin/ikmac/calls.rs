//! Written by tools/gen_macros.py.

#![allow(unused_mut, unused_variables, clippy::all)]

use crate::V;
use crate::hand::*;

fn m0(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! {  } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default();  x }))();
    v.judge(m, h, 0)
}
fn m1(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let it = a1.clone(); ikal::vevent! { dtstamp: it, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.dtstamp = conv::<ikal::DateTime>(&a1)?; x }))();
    v.judge(m, h, 0)
}
fn m2(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let init = a1.clone(); ikal::vevent! { dtstamp: init.clone(), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.dtstamp = conv::<ikal::DateTime>(&a1)?; x }))();
    v.judge(m, h, 0)
}
fn m3(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let values = a1.clone(); ikal::vevent! { uid: format!("{}", values) } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.uid = text(&a1); x }))();
    v.judge(m, h, 0)
}
fn m4(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let base = a1.clone(); ikal::vevent! { uid: base.as_str() } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.uid = text(&a1); x }))();
    v.judge(m, h, 0)
}
fn m5(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let field = a1.clone(); ikal::vevent! { dtstart: format!("{}", field), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.dtstart = conv::<ikal::Date>(&a1)?; x }))();
    v.judge(m, h, 0)
}
fn m6(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let b = a1.clone(); ikal::vevent! { dtstart: b.clone() } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.dtstart = conv::<ikal::Date>(&a1)?; x }))();
    v.judge(m, h, 0)
}
fn m7(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { class: Confidential } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.class = Some(ikal::Class::Confidential); x }))();
    v.judge(m, h, 0)
}
fn m8(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { class: Public } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.class = Some(ikal::Class::Public); x }))();
    v.judge(m, h, 0)
}
fn m9(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { created: a1 } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.created = Some(conv::<ikal::DateTime>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m10(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { created: a1.as_str() } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.created = Some(conv::<ikal::DateTime>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m11(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let it = a1.clone(); ikal::vevent! { description: it.clone() } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.description = Some(text(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m12(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { description: a1.as_str(), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.description = Some(text(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m13(v: &mut V) -> Result<(), String> {
    let a1 = v.position();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { geo: a1.clone(), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.geo = Some(conv::<ikal::Geo>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m14(v: &mut V) -> Result<(), String> {
    let a1 = v.float();
    let a2 = v.float();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { geo: { lat: a1, lon: a2 }, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.geo = Some(ikal::Geo { lat: a1, lon: a2 }); x }))();
    v.judge(m, h, 0)
}
fn m15(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let config = a1.clone(); ikal::vevent! { last_modified: config.trim_matches('~') } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.last_modified = Some(conv::<ikal::DateTime>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m16(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { last_modified: a1 } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.last_modified = Some(conv::<ikal::DateTime>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m17(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let ty = a1.clone(); ikal::vevent! { location: ty.as_str(), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.location = Some(text(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m18(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { location: a1.as_str(), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.location = Some(text(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m19(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let calendar = a1.clone(); ikal::vevent! { organizer: calendar.as_str(), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.organizer = Some(uri(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m20(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let output = a1.clone(); ikal::vevent! { organizer: output.clone(), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.organizer = Some(uri(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m21(v: &mut V) -> Result<(), String> {
    let a1 = v.byte();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let component = a1.clone(); ikal::vevent! { priority: component, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.priority = Some(a1); x }))();
    v.judge(m, h, 0)
}
fn m22(v: &mut V) -> Result<(), String> {
    let a1 = v.byte();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { priority: u8::from(a1), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.priority = Some(a1); x }))();
    v.judge(m, h, 0)
}
fn m23(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let init = a1.clone(); ikal::vevent! { sequence: init, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.sequence = Some(a1); x }))();
    v.judge(m, h, 0)
}
fn m24(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let ok = a1.clone(); ikal::vevent! { sequence: ok, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.sequence = Some(a1); x }))();
    v.judge(m, h, 0)
}
fn m25(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { status: Tentative, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.status = Some(ikal::Status::Tentative); x }))();
    v.judge(m, h, 0)
}
fn m26(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { status: Completed } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.status = Some(ikal::Status::Completed); x }))();
    v.judge(m, h, 0)
}
fn m27(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let component = a1.clone(); ikal::vevent! { summary: format!("{}", component), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.summary = Some(text(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m28(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { summary: format!("{}", a1), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.summary = Some(text(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m29(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { transp: Opaque, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.transp = Some(ikal::TimeTransparency::Opaque); x }))();
    v.judge(m, h, 0)
}
fn m30(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { transp: Transparent } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.transp = Some(ikal::TimeTransparency::Transparent); x }))();
    v.judge(m, h, 0)
}
fn m31(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let output = a1.clone(); ikal::vevent! { url: v.id(&output), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.url = Some(uri(&a1)); x }))();
    v.judge(m, h, 1)
}
fn m32(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let err = a1.clone(); ikal::vevent! { url: v.id(&err) } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.url = Some(uri(&a1)); x }))();
    v.judge(m, h, 1)
}
fn m33(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let inner = a1.clone(); ikal::vevent! { recurid: format!("{}", inner), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.recurid = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m34(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let inner = a1.clone(); ikal::vevent! { recurid: v.id(&inner), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.recurid = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 1)
}
fn m35(v: &mut V) -> Result<(), String> {
    let a1 = v.rule();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { rrule: a1.as_str(), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.rrule = Some(conv::<ikal::Recur>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m36(v: &mut V) -> Result<(), String> {
    let a1 = v.weekday();
    let a2 = v.byte() as i8 % 31;
    let a3 = v.byte();
    let a4 = v.day();
    let a5 = v.byte() as i8 % 24;
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let ty = a1.clone(); let list = a2.clone(); let alarm = a3.clone(); let dt = a4.clone(); let result = a5.clone(); ikal::vevent! { rrule: { by_monthday: [list], by_hour: [result, 7], freq: Monthly, until: ikal::Date::from(dt), by_day: [ty.clone()], count: alarm } } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Monthly; x.by_day = vec![a1.clone()]; x.by_monthday = vec![a2]; x.count = Some(a3); x.until = Some(ikal::Date::Date(a4)); x.by_hour = vec![a5, 7]; x }); x }))();
    v.judge(m, h, 0)
}
fn m37(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let values = a1.clone(); ikal::vevent! { dtend: values.as_str() } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.dtend = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m38(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { dtend: a1, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.dtend = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m39(v: &mut V) -> Result<(), String> {
    let a1 = v.duration();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let res = a1.clone(); ikal::vevent! { duration: &res } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.duration = Some(length(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m40(v: &mut V) -> Result<(), String> {
    let a1 = v.duration();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { duration: a1.as_str(), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.duration = Some(length(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m41(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let this = a1.clone(); ikal::vevent! { resources: [this.as_str()], } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.resources = vec![text(&a1)]; x }))();
    v.judge(m, h, 0)
}
fn m42(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { resources: [format!("{}", a1), a2.clone(), format!("{}", a3)] } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.resources = vec![text(&a1), text(&a2), text(&a3)]; x }))();
    v.judge(m, h, 0)
}
fn m43(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { attach: [v.id(&a1)], } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.attach = vec![text(&a1)]; x }))();
    v.judge(m, h, 1)
}
fn m44(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let ok = a1.clone(); let e = a2.clone(); let t = a3.clone(); ikal::vevent! { attach: [v.id(&ok), v.id(&e), format!("{}", t)], } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.attach = vec![text(&a1), text(&a2), text(&a3)]; x }))();
    v.judge(m, h, 2)
}
fn m45(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { attendee: [] } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.attendee = vec![]; x }))();
    v.judge(m, h, 0)
}
fn m46(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let a2 = v.uri();
    let a3 = v.uri();
    let a4 = v.uri();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { attendee: [v.id(&a1), v.id(&a2), v.id(&a3), a4.clone()] } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.attendee = vec![uri(&a1), uri(&a2), uri(&a3), uri(&a4)]; x }))();
    v.judge(m, h, 3)
}
fn m47(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { categories: [v.id(&a1), v.id(&a2)], } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.categories = vec![text(&a1), text(&a2)]; x }))();
    v.judge(m, h, 2)
}
fn m48(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let x = a1.clone(); let it = a2.clone(); let field = a3.clone(); ikal::vevent! { categories: [v.id(&x), v.id(&it), v.id(&field)], } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.categories = vec![text(&a1), text(&a2), text(&a3)]; x }))();
    v.judge(m, h, 3)
}
fn m49(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { comment: [a1.as_str(), a2.clone(), a3.as_str()] } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.comment = vec![text(&a1), text(&a2), text(&a3)]; x }))();
    v.judge(m, h, 0)
}
fn m50(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let i = a1.clone(); ikal::vevent! { comment: [i.as_str()] } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.comment = vec![text(&a1)]; x }))();
    v.judge(m, h, 0)
}
fn m51(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { contact: [] } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.contact = vec![]; x }))();
    v.judge(m, h, 0)
}
fn m52(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { contact: [v.id(&a1)] } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.contact = vec![text(&a1)]; x }))();
    v.judge(m, h, 1)
}
fn m53(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { exdate: [] } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.exdate = vec![]; x }))();
    v.judge(m, h, 0)
}
fn m54(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let a2 = v.date();
    let a3 = v.date();
    let a4 = v.date();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let parts = a1.clone(); let ret = a2.clone(); let vcalendar = a3.clone(); let dt = a4.clone(); ikal::vevent! { exdate: [parts.clone(), v.id(&ret), vcalendar.clone(), dt.clone()], } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.exdate = vec![conv::<ikal::Date>(&a1)?, conv::<ikal::Date>(&a2)?, conv::<ikal::Date>(&a3)?, conv::<ikal::Date>(&a4)?]; x }))();
    v.judge(m, h, 1)
}
fn m55(v: &mut V) -> Result<(), String> {
    let a1 = v.status();
    let a2 = v.code();
    let a3 = v.text();
    let a4 = v.status();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { rstatus: [a1.as_str(), { statcode: a2, statdesc: a3.as_str() }, a4.trim_matches('~')], } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.rstatus = vec![conv::<ikal::RequestStatus>(&a1)?, ikal::RequestStatus { statcode: a2, statdesc: a3.clone(), extdata: None }, conv::<ikal::RequestStatus>(&a4)?]; x }))();
    v.judge(m, h, 0)
}
fn m56(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { rstatus: [] } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.rstatus = vec![]; x }))();
    v.judge(m, h, 0)
}
fn m57(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { related_to: [a1.as_str()], } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.related_to = vec![text(&a1)]; x }))();
    v.judge(m, h, 0)
}
fn m58(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let ret = a1.clone(); let vevent = a2.clone(); ikal::vevent! { related_to: [ret.clone(), v.id(&vevent)] } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.related_to = vec![text(&a1), text(&a2)]; x }))();
    v.judge(m, h, 1)
}
fn m59(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { x_prop: a1.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.x_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m60(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { x_prop: a1.x_prop.clone() } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.x_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m61(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { iana_prop: a1.x_prop.clone() } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.iana_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m62(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let todo = a1.clone(); ikal::vevent! { iana_prop: todo.x_prop.clone() } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.iana_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m63(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let a2 = v.text();
    let a3 = v.date();
    let a4 = v.date_time();
    let a5 = v.text();
    let a6 = v.position();
    let a7 = v.date_time();
    let a8 = v.text();
    let a9 = v.uri();
    let a10 = v.byte();
    let a11 = v.number();
    let a12 = v.text();
    let a13 = v.uri();
    let a14 = v.date();
    let a15 = v.rule();
    let a16 = v.date();
    let a17 = v.duration();
    let a18 = v.text();
    let a19 = v.text();
    let a20 = v.text();
    let a21 = v.text();
    let a22 = v.text();
    let a23 = v.text();
    let a24 = v.uri();
    let a25 = v.text();
    let a26 = v.text();
    let a27 = v.text();
    let a28 = v.text();
    let a29 = v.text();
    let a30 = v.date();
    let a31 = v.code();
    let a32 = v.text();
    let a33 = v.text();
    let a34 = v.text();
    let a35 = v.props();
    let a36 = v.props();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let field = a1.clone(); let out = a2.clone(); let ty = a3.clone(); let this = a4.clone(); let a = a5.clone(); let ok = a6.clone(); let parts = a7.clone(); let it = a8.clone(); let val = a9.clone(); let x = a10.clone(); let ast = a11.clone(); let dt = a12.clone(); let m = a13.clone(); let default = a14.clone(); let t = a15.clone(); let i = a16.clone(); let vevent = a17.clone(); let c = a18.clone(); let err = a19.clone(); let vcalendar = a20.clone(); let alarm = a21.clone(); let event = a22.clone(); let f = a23.clone(); let component = a24.clone(); let output = a25.clone(); let map = a26.clone(); let res = a27.clone(); let self_ = a28.clone(); let builder = a29.clone(); let e = a30.clone(); let tmp = a31.clone(); let object = a32.clone(); let ret = a33.clone(); let config = a34.clone(); let r = a35.clone(); let o = a36.clone(); ikal::vevent! { duration: vevent.as_str(), x_prop: r.x_prop.clone(), summary: dt.clone(), exdate: [e.clone()], organizer: val.clone(), comment: [format!("{}", map)], class: Public, location: v.id(&it), contact: [res.clone(), format!("{}", self_), v.id(&builder)], uid: out.clone(), dtstamp: v.id(&field), sequence: (ast | 0), last_modified: v.id(&parts), description: a.as_str(), resources: [format!("{}", c), format!("{}", err), v.id(&vcalendar), format!("{}", alarm)], status: Cancelled, recurid: format!("{}", default), attach: [event.clone(), v.id(&f)], dtend: i.trim_matches('~'), rstatus: [{ statcode: tmp, statdesc: object.as_str() }], created: format!("{}", this), rrule: t, iana_prop: o.x_prop.clone(), categories: [v.id(&output)], related_to: [format!("{}", ret), v.id(&config)], attendee: [v.id(&component)], transp: Opaque, priority: (x + 0), url: m.as_str(), dtstart: ty, geo: v.id(&ok), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.duration = Some(length(&a17)?); x.x_prop = a35.x_prop.clone(); x.summary = Some(text(&a12)); x.exdate = vec![conv::<ikal::Date>(&a30)?]; x.organizer = Some(uri(&a9)); x.comment = vec![text(&a26)]; x.class = Some(ikal::Class::Public); x.location = Some(text(&a8)); x.contact = vec![text(&a27), text(&a28), text(&a29)]; x.uid = text(&a2); x.dtstamp = conv::<ikal::DateTime>(&a1)?; x.sequence = Some(a11); x.last_modified = Some(conv::<ikal::DateTime>(&a7)?); x.description = Some(text(&a5)); x.resources = vec![text(&a18), text(&a19), text(&a20), text(&a21)]; x.status = Some(ikal::Status::Cancelled); x.recurid = Some(conv::<ikal::Date>(&a14)?); x.attach = vec![text(&a22), text(&a23)]; x.dtend = Some(conv::<ikal::Date>(&a16)?); x.rstatus = vec![ikal::RequestStatus { statcode: a31, statdesc: a32.clone(), extdata: None }]; x.created = Some(conv::<ikal::DateTime>(&a4)?); x.rrule = Some(conv::<ikal::Recur>(&a15)?); x.iana_prop = a36.x_prop.clone(); x.categories = vec![text(&a25)]; x.related_to = vec![text(&a33), text(&a34)]; x.attendee = vec![uri(&a24)]; x.transp = Some(ikal::TimeTransparency::Opaque); x.priority = Some(a10); x.url = Some(uri(&a13)); x.dtstart = conv::<ikal::Date>(&a3)?; x.geo = Some(conv::<ikal::Geo>(&a6)?); x }))();
    v.judge(m, h, 10)
}
fn m64(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let a2 = v.text();
    let a3 = v.status();
    let a4 = v.code();
    let a5 = v.text();
    let a6 = v.status();
    let a7 = v.date();
    let a8 = v.text();
    let a9 = v.rule();
    let a10 = v.duration();
    let a11 = v.number();
    let a12 = v.trigger();
    let a13 = v.props();
    let a14 = v.text();
    let a15 = v.text();
    let a16 = v.text();
    let a17 = v.trigger();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let e = a1.clone(); let self_ = a2.clone(); let default = a3.clone(); let values = a4.clone(); let m = a5.clone(); let ast = a6.clone(); let component = a7.clone(); let ret = a8.clone(); let d = a9.clone(); let n = a10.clone(); let alarm = a11.clone(); let date = a12.clone(); let f = a13.clone(); let out = a14.clone(); let parts = a15.clone(); let vevent = a16.clone(); let item = a17.clone(); ikal::vevent! { alarms: [ikal::valarm!(@audio, trigger: date.as_str(), duration: n.as_str(), x_prop: f.x_prop.clone(), repeat: alarm)?, ikal::valarm!(@email, summary: format!("{}", out), attach: [v.id(&parts), format!("{}", vevent)],)?, ikal::valarm!(@audio, trigger: v.id(&item))?], recurid: component.trim_matches('~'), rstatus: [default.as_str(), { statcode: values, statdesc: m.as_str() }, v.id(&ast)], sequence: (e | 0), rrule: d.clone(), categories: [v.id(&ret)], comment: [self_.clone()], } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.alarms = vec![{ let mut x = ikal::valarm::Audio::default(); x.trigger = trigger(&a12)?; x.duration = Some(length(&a10)?); x.x_prop = a13.x_prop.clone(); x.repeat = Some(a11); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }, { let mut x = ikal::valarm::Email::default(); x.summary = text(&a14); x.attach = vec![text(&a15), text(&a16)]; x.action = text("EMAIL"); ikal::VAlarm::Email(x) }, { let mut x = ikal::valarm::Audio::default(); x.trigger = trigger(&a17)?; x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }]; x.recurid = Some(conv::<ikal::Date>(&a7)?); x.rstatus = vec![conv::<ikal::RequestStatus>(&a3)?, ikal::RequestStatus { statcode: a4, statdesc: a5.clone(), extdata: None }, conv::<ikal::RequestStatus>(&a6)?]; x.sequence = Some(a1); x.rrule = Some(conv::<ikal::Recur>(&a9)?); x.categories = vec![text(&a8)]; x.comment = vec![text(&a2)]; x }))();
    v.judge(m, h, 4)
}
fn m65(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.date();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let dt = a1.clone(); let list = a2.clone(); ikal::vevent! { dtend: list.as_str(), x_prop: dt.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.dtend = Some(conv::<ikal::Date>(&a2)?); x.x_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m66(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.date_time();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let i = a1.clone(); let a = a2.clone(); let err = a3.clone(); let base = a4.clone(); ikal::vevent! { alarms: [ikal::valarm!(@email, )?, ikal::valarm!(@audio, )?], contact: [i.as_str(), a.as_str(), err.clone()], dtstamp: base.as_str(), transp: Opaque, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.alarms = vec![{ let mut x = ikal::valarm::Email::default();  x.action = text("EMAIL"); ikal::VAlarm::Email(x) }, { let mut x = ikal::valarm::Audio::default();  x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }]; x.contact = vec![text(&a1), text(&a2), text(&a3)]; x.dtstamp = conv::<ikal::DateTime>(&a4)?; x.transp = Some(ikal::TimeTransparency::Opaque); x }))();
    v.judge(m, h, 0)
}
fn m67(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let default = a1.clone(); ikal::vevent! { description: format!("{}", default), status: Draft, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.description = Some(text(&a1)); x.status = Some(ikal::Status::Draft); x }))();
    v.judge(m, h, 0)
}
fn m68(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.text();
    let a7 = v.text();
    let a8 = v.text();
    let a9 = v.text();
    let a10 = v.text();
    let a11 = v.byte();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let s = a1.clone(); let res = a2.clone(); let inner = a3.clone(); let t = a4.clone(); let values = a5.clone(); let field = a6.clone(); let x = a7.clone(); let ty = a8.clone(); let this = a9.clone(); let object = a10.clone(); let parsed = a11.clone(); ikal::vevent! { location: format!("{}", object), uid: v.id(&t), priority: parsed, contact: [res.as_str(), inner.clone()], description: this.clone(), related_to: [values.clone(), field.as_str(), v.id(&x), format!("{}", ty)], rrule: { freq: Monthly }, recurid: v.id(&s), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.location = Some(text(&a10)); x.uid = text(&a4); x.priority = Some(a11); x.contact = vec![text(&a2), text(&a3)]; x.description = Some(text(&a9)); x.related_to = vec![text(&a5), text(&a6), text(&a7), text(&a8)]; x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Monthly; x }); x.recurid = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 3)
}
fn m69(v: &mut V) -> Result<(), String> {
    let a1 = v.rule();
    let a2 = v.number();
    let a3 = v.props();
    let a4 = v.text();
    let a5 = v.number();
    let a6 = v.duration();
    let a7 = v.props();
    let a8 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let event = a1.clone(); let res = a2.clone(); let component = a3.clone(); let i = a4.clone(); let s = a5.clone(); let calendar = a6.clone(); let field = a7.clone(); let ret = a8.clone(); ikal::vevent! { rrule: event.as_str(), sequence: (res | 0), alarms: [ikal::valarm!(@email, summary: v.id(&ret), duration: v.id(&calendar), iana_prop: component.x_prop.clone(), repeat: (s | 0), x_prop: field.x_prop.clone(), attach: [format!("{}", i)],)?], } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.rrule = Some(conv::<ikal::Recur>(&a1)?); x.sequence = Some(a2); x.alarms = vec![{ let mut x = ikal::valarm::Email::default(); x.summary = text(&a8); x.duration = Some(length(&a6)?); x.iana_prop = a3.x_prop.clone(); x.repeat = Some(a5); x.x_prop = a7.x_prop.clone(); x.attach = vec![text(&a4)]; x.action = text("EMAIL"); ikal::VAlarm::Email(x) }]; x }))();
    v.judge(m, h, 2)
}
fn m70(v: &mut V) -> Result<(), String> {
    let a1 = v.position();
    let a2 = v.date_time();
    let a3 = v.text();
    let a4 = v.text();
    let description = (|| -> ikal::Result<_> { Ok(Some(text(&a4))) })().unwrap_or_default();
    let h_description = description.clone();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { description, geo: v.id(&a1), class: Custom(a3.clone()), created: a2.trim_matches('~'), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.description = h_description.clone(); x.geo = Some(conv::<ikal::Geo>(&a1)?); x.class = Some(ikal::Class::Custom(a3.clone())); x.created = Some(conv::<ikal::DateTime>(&a2)?); x }))();
    v.judge(m, h, 1)
}
fn m71(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let attendee = (|| -> ikal::Result<_> { Ok(vec![uri(&a1)]) })().unwrap_or_default();
    let h_attendee = attendee.clone();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { attendee, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.attendee = h_attendee.clone(); x }))();
    v.judge(m, h, 0)
}
fn m72(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! {  } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default();  x }))();
    v.judge(m, h, 0)
}
fn m73(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let alarm = a1.clone(); ikal::vtodo! { dtstamp: alarm.trim_matches('~') } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.dtstamp = conv::<ikal::DateTime>(&a1)?; x }))();
    v.judge(m, h, 0)
}
fn m74(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { dtstamp: a1.trim_matches('~'), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.dtstamp = conv::<ikal::DateTime>(&a1)?; x }))();
    v.judge(m, h, 0)
}
fn m75(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let vevent = a1.clone(); ikal::vtodo! { uid: vevent.clone(), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.uid = text(&a1); x }))();
    v.judge(m, h, 0)
}
fn m76(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { uid: format!("{}", a1), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.uid = text(&a1); x }))();
    v.judge(m, h, 0)
}
fn m77(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { class: Confidential } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.class = Some(ikal::Class::Confidential); x }))();
    v.judge(m, h, 0)
}
fn m78(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let ok = a1.clone(); ikal::vtodo! { class: Custom(ok.clone()), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.class = Some(ikal::Class::Custom(a1.clone())); x }))();
    v.judge(m, h, 0)
}
fn m79(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { completed: a1.as_str(), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.completed = Some(conv::<ikal::DateTime>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m80(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let a = a1.clone(); ikal::vtodo! { completed: v.id(&a), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.completed = Some(conv::<ikal::DateTime>(&a1)?); x }))();
    v.judge(m, h, 1)
}
fn m81(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { created: v.id(&a1) } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.created = Some(conv::<ikal::DateTime>(&a1)?); x }))();
    v.judge(m, h, 1)
}
fn m82(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { created: v.id(&a1), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.created = Some(conv::<ikal::DateTime>(&a1)?); x }))();
    v.judge(m, h, 1)
}
fn m83(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { dtstart: a1.trim_matches('~'), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.dtstart = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m84(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let f = a1.clone(); ikal::vtodo! { dtstart: v.id(&f) } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.dtstart = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 1)
}
fn m85(v: &mut V) -> Result<(), String> {
    let a1 = v.float();
    let a2 = v.float();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let self_ = a1.clone(); let list = a2.clone(); ikal::vtodo! { geo: { lon: list, lat: self_ } } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.geo = Some(ikal::Geo { lat: a1, lon: a2 }); x }))();
    v.judge(m, h, 0)
}
fn m86(v: &mut V) -> Result<(), String> {
    let a1 = v.float();
    let a2 = v.float();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let x = a1.clone(); let parts = a2.clone(); ikal::vtodo! { geo: { lon: parts, lat: x }, } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.geo = Some(ikal::Geo { lat: a1, lon: a2 }); x }))();
    v.judge(m, h, 0)
}
fn m87(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { last_modified: format!("{}", a1), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.last_modified = Some(conv::<ikal::DateTime>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m88(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { last_modified: a1.clone(), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.last_modified = Some(conv::<ikal::DateTime>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m89(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { location: format!("{}", a1), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.location = Some(text(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m90(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let v = a1.clone(); ikal::vtodo! { location: format!("{}", v) } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.location = Some(text(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m91(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let val = a1.clone(); ikal::vtodo! { organizer: val.clone(), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.organizer = Some(uri(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m92(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let this = a1.clone(); ikal::vtodo! { organizer: this.as_str(), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.organizer = Some(uri(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m93(v: &mut V) -> Result<(), String> {
    let a1 = v.byte();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { percent_complete: (a1 + 0), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.percent_complete = Some(a1); x }))();
    v.judge(m, h, 0)
}
fn m94(v: &mut V) -> Result<(), String> {
    let a1 = v.byte();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let alarm = a1.clone(); ikal::vtodo! { percent_complete: alarm } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.percent_complete = Some(a1); x }))();
    v.judge(m, h, 0)
}
fn m95(v: &mut V) -> Result<(), String> {
    let a1 = v.byte();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { priority: (a1 + 0) } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.priority = Some(a1); x }))();
    v.judge(m, h, 0)
}
fn m96(v: &mut V) -> Result<(), String> {
    let a1 = v.byte();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { priority: a1 } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.priority = Some(a1); x }))();
    v.judge(m, h, 0)
}
fn m97(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let key = a1.clone(); ikal::vtodo! { recurid: key, } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.recurid = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m98(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let map = a1.clone(); ikal::vtodo! { recurid: map.trim_matches('~'), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.recurid = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m99(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let default = a1.clone(); ikal::vtodo! { sequence: (default | 0), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.sequence = Some(a1); x }))();
    v.judge(m, h, 0)
}
fn m100(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { sequence: a1, } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.sequence = Some(a1); x }))();
    v.judge(m, h, 0)
}
fn m101(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { status: Final } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.status = Some(ikal::Status::Final); x }))();
    v.judge(m, h, 0)
}
fn m102(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { status: Tentative, } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.status = Some(ikal::Status::Tentative); x }))();
    v.judge(m, h, 0)
}
fn m103(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let fields = a1.clone(); ikal::vtodo! { summary: v.id(&fields), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.summary = Some(text(&a1)); x }))();
    v.judge(m, h, 1)
}
fn m104(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { summary: v.id(&a1), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.summary = Some(text(&a1)); x }))();
    v.judge(m, h, 1)
}
fn m105(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let object = a1.clone(); ikal::vtodo! { url: v.id(&object), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.url = Some(uri(&a1)); x }))();
    v.judge(m, h, 1)
}
fn m106(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { url: a1.as_str() } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.url = Some(uri(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m107(v: &mut V) -> Result<(), String> {
    let a1 = v.byte();
    let a2 = v.byte();
    let a3 = v.day();
    let a4 = v.byte() as i8 % 24;
    let a5 = v.weekday().weekday;
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { rrule: { count: a2, wkst: Some(a5.clone()), interval: a1, by_hour: [a4, 7], freq: Weekly, until: ikal::Date::from(a3) } } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Weekly; x.interval = a1; x.count = Some(a2); x.until = Some(ikal::Date::Date(a3)); x.by_hour = vec![a4, 7]; x.wkst = Some(a5.clone()); x }); x }))();
    v.judge(m, h, 0)
}
fn m108(v: &mut V) -> Result<(), String> {
    let a1 = v.byte();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let init = a1.clone(); ikal::vtodo! { rrule: { count: init, freq: Secondly }, } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Secondly; x.count = Some(a1); x }); x }))();
    v.judge(m, h, 0)
}
fn m109(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let e = a1.clone(); ikal::vtodo! { due: v.id(&e), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.due = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 1)
}
fn m110(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { due: format!("{}", a1) } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.due = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m111(v: &mut V) -> Result<(), String> {
    let a1 = v.duration();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { duration: &a1 } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.duration = Some(length(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m112(v: &mut V) -> Result<(), String> {
    let a1 = v.duration();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let init = a1.clone(); ikal::vtodo! { duration: &init } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.duration = Some(length(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m113(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { resources: [], } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.resources = vec![]; x }))();
    v.judge(m, h, 0)
}
fn m114(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { resources: [a1.clone(), format!("{}", a2), a3.clone()], } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.resources = vec![text(&a1), text(&a2), text(&a3)]; x }))();
    v.judge(m, h, 0)
}
fn m115(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { attach: [], } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.attach = vec![]; x }))();
    v.judge(m, h, 0)
}
fn m116(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let todo = a1.clone(); let fields = a2.clone(); let ret = a3.clone(); let field = a4.clone(); ikal::vtodo! { attach: [todo.as_str(), format!("{}", fields), ret.clone(), format!("{}", field)], } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.attach = vec![text(&a1), text(&a2), text(&a3), text(&a4)]; x }))();
    v.judge(m, h, 0)
}
fn m117(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let a = a1.clone(); ikal::vtodo! { attendee: [a.as_str()] } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.attendee = vec![uri(&a1)]; x }))();
    v.judge(m, h, 0)
}
fn m118(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { attendee: [], } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.attendee = vec![]; x }))();
    v.judge(m, h, 0)
}
fn m119(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let config = a1.clone(); ikal::vtodo! { categories: [config.clone()] } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.categories = vec![text(&a1)]; x }))();
    v.judge(m, h, 0)
}
fn m120(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { categories: [format!("{}", a1)] } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.categories = vec![text(&a1)]; x }))();
    v.judge(m, h, 0)
}
fn m121(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let init = a1.clone(); let this = a2.clone(); let list = a3.clone(); let component = a4.clone(); ikal::vtodo! { comment: [init.clone(), v.id(&this), list.as_str(), component.as_str()] } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.comment = vec![text(&a1), text(&a2), text(&a3), text(&a4)]; x }))();
    v.judge(m, h, 1)
}
fn m122(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { comment: [v.id(&a1)], } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.comment = vec![text(&a1)]; x }))();
    v.judge(m, h, 1)
}
fn m123(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let value = a1.clone(); ikal::vtodo! { contact: [v.id(&value)] } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.contact = vec![text(&a1)]; x }))();
    v.judge(m, h, 1)
}
fn m124(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { contact: [format!("{}", a1), v.id(&a2), v.id(&a3)], } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.contact = vec![text(&a1), text(&a2), text(&a3)]; x }))();
    v.judge(m, h, 2)
}
fn m125(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let a2 = v.date();
    let a3 = v.date();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { exdate: [a1.as_str(), format!("{}", a2), v.id(&a3)] } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.exdate = vec![conv::<ikal::Date>(&a1)?, conv::<ikal::Date>(&a2)?, conv::<ikal::Date>(&a3)?]; x }))();
    v.judge(m, h, 1)
}
fn m126(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { exdate: [], } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.exdate = vec![]; x }))();
    v.judge(m, h, 0)
}
fn m127(v: &mut V) -> Result<(), String> {
    let a1 = v.code();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.code();
    let a5 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let d = a1.clone(); let out = a2.clone(); let output = a3.clone(); let res = a4.clone(); let fields = a5.clone(); ikal::vtodo! { rstatus: [{ statcode: d, statdesc: out.as_str(), extdata: output.clone() }, { statdesc: fields.as_str(), statcode: res }] } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.rstatus = vec![ikal::RequestStatus { statcode: a1, statdesc: a2.clone(), extdata: Some(a3.clone()) }, ikal::RequestStatus { statcode: a4, statdesc: a5.clone(), extdata: None }]; x }))();
    v.judge(m, h, 0)
}
fn m128(v: &mut V) -> Result<(), String> {
    let a1 = v.code();
    let a2 = v.text();
    let a3 = v.code();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.status();
    let a7 = v.code();
    let a8 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let event = a1.clone(); let component = a2.clone(); let list = a3.clone(); let r = a4.clone(); let key = a5.clone(); let a = a6.clone(); let n = a7.clone(); let inner = a8.clone(); ikal::vtodo! { rstatus: [{ statcode: event, statdesc: component.as_str() }, { statdesc: r.as_str(), extdata: key.clone(), statcode: list }, v.id(&a), { statcode: n, statdesc: inner.as_str() }] } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.rstatus = vec![ikal::RequestStatus { statcode: a1, statdesc: a2.clone(), extdata: None }, ikal::RequestStatus { statcode: a3, statdesc: a4.clone(), extdata: Some(a5.clone()) }, conv::<ikal::RequestStatus>(&a6)?, ikal::RequestStatus { statcode: a7, statdesc: a8.clone(), extdata: None }]; x }))();
    v.judge(m, h, 1)
}
fn m129(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let i = a1.clone(); ikal::vtodo! { related_to: [format!("{}", i)] } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.related_to = vec![text(&a1)]; x }))();
    v.judge(m, h, 0)
}
fn m130(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let v = a1.clone(); let tmp = a2.clone(); ikal::vtodo! { related_to: [v.clone(), tmp.clone()], } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.related_to = vec![text(&a1), text(&a2)]; x }))();
    v.judge(m, h, 0)
}
fn m131(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { x_prop: a1.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.x_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m132(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let init = a1.clone(); ikal::vtodo! { x_prop: init.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.x_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m133(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let s = a1.clone(); ikal::vtodo! { iana_prop: s.x_prop.clone() } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.iana_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m134(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let entry = a1.clone(); ikal::vtodo! { iana_prop: entry.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.iana_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m135(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let a2 = v.text();
    let a3 = v.date_time();
    let a4 = v.date_time();
    let a5 = v.date();
    let a6 = v.position();
    let a7 = v.date_time();
    let a8 = v.text();
    let a9 = v.uri();
    let a10 = v.byte();
    let a11 = v.byte();
    let a12 = v.date();
    let a13 = v.number();
    let a14 = v.text();
    let a15 = v.uri();
    let a16 = v.rule();
    let a17 = v.date();
    let a18 = v.duration();
    let a19 = v.text();
    let a20 = v.uri();
    let a21 = v.text();
    let a22 = v.text();
    let a23 = v.text();
    let a24 = v.text();
    let a25 = v.text();
    let a26 = v.date();
    let a27 = v.date();
    let a28 = v.date();
    let a29 = v.date();
    let a30 = v.code();
    let a31 = v.text();
    let a32 = v.text();
    let a33 = v.text();
    let a34 = v.text();
    let a35 = v.text();
    let a36 = v.props();
    let a37 = v.props();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let object = a1.clone(); let n = a2.clone(); let ty = a3.clone(); let d = a4.clone(); let event = a5.clone(); let dt = a6.clone(); let e = a7.clone(); let c = a8.clone(); let text = a9.clone(); let i = a10.clone(); let this = a11.clone(); let it = a12.clone(); let builder = a13.clone(); let todo = a14.clone(); let vevent = a15.clone(); let a = a16.clone(); let x = a17.clone(); let value = a18.clone(); let input = a19.clone(); let component = a20.clone(); let parsed = a21.clone(); let field = a22.clone(); let f = a23.clone(); let fields = a24.clone(); let item = a25.clone(); let tmp = a26.clone(); let out = a27.clone(); let ok = a28.clone(); let b = a29.clone(); let parts = a30.clone(); let o = a31.clone(); let output = a32.clone(); let key = a33.clone(); let vcalendar = a34.clone(); let values = a35.clone(); let list = a36.clone(); let ret = a37.clone(); ikal::vtodo! { class: Public, completed: format!("{}", ty), geo: dt, url: vevent.as_str(), dtstamp: v.id(&object), created: format!("{}", d), last_modified: e, iana_prop: ret.x_prop.clone(), uid: n.clone(), categories: [], dtstart: event.as_str(), x_prop: list.x_prop.clone(), resources: [input.as_str()], due: x.as_str(), location: format!("{}", c), attach: [], summary: todo.as_str(), attendee: [component.as_str()], rstatus: [{ statdesc: o.as_str(), extdata: output.clone(), statcode: parts }], priority: this, contact: [v.id(&item)], duration: &value, organizer: text.as_str(), percent_complete: (i + 0), comment: [format!("{}", parsed), v.id(&field), f.as_str(), format!("{}", fields)], rrule: a.clone(), sequence: (builder | 0), exdate: [tmp.trim_matches('~'), out.as_str(), format!("{}", ok), v.id(&b)], recurid: format!("{}", it), related_to: [v.id(&key), v.id(&vcalendar), values.clone()], status: NeedsAction } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.class = Some(ikal::Class::Public); x.completed = Some(conv::<ikal::DateTime>(&a3)?); x.geo = Some(conv::<ikal::Geo>(&a6)?); x.url = Some(uri(&a15)); x.dtstamp = conv::<ikal::DateTime>(&a1)?; x.created = Some(conv::<ikal::DateTime>(&a4)?); x.last_modified = Some(conv::<ikal::DateTime>(&a7)?); x.iana_prop = a37.x_prop.clone(); x.uid = text(&a2); x.categories = vec![]; x.dtstart = Some(conv::<ikal::Date>(&a5)?); x.x_prop = a36.x_prop.clone(); x.resources = vec![text(&a19)]; x.due = Some(conv::<ikal::Date>(&a17)?); x.location = Some(text(&a8)); x.attach = vec![]; x.summary = Some(text(&a14)); x.attendee = vec![uri(&a20)]; x.rstatus = vec![ikal::RequestStatus { statcode: a30, statdesc: a31.clone(), extdata: Some(a32.clone()) }]; x.priority = Some(a11); x.contact = vec![text(&a25)]; x.duration = Some(length(&a18)?); x.organizer = Some(uri(&a9)); x.percent_complete = Some(a10); x.comment = vec![text(&a21), text(&a22), text(&a23), text(&a24)]; x.rrule = Some(conv::<ikal::Recur>(&a16)?); x.sequence = Some(a13); x.exdate = vec![conv::<ikal::Date>(&a26)?, conv::<ikal::Date>(&a27)?, conv::<ikal::Date>(&a28)?, conv::<ikal::Date>(&a29)?]; x.recurid = Some(conv::<ikal::Date>(&a12)?); x.related_to = vec![text(&a33), text(&a34), text(&a35)]; x.status = Some(ikal::Status::NeedsAction); x }))();
    v.judge(m, h, 6)
}
fn m136(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let a2 = v.props();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.text();
    let a7 = v.date_time();
    let a8 = v.duration();
    let a9 = v.byte();
    let a10 = v.rule();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let f = a1.clone(); let init = a2.clone(); let object = a3.clone(); let tmp = a4.clone(); let v = a5.clone(); let key = a6.clone(); let text = a7.clone(); let m = a8.clone(); let output = a9.clone(); let s = a10.clone(); ikal::vtodo! { dtstart: f.clone(), dtstamp: format!("{}", text), x_prop: init.x_prop.clone(), rrule: s.as_str(), resources: [format!("{}", object), tmp.clone(), v.clone(), format!("{}", key)], duration: m.as_str(), priority: u8::from(output), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.dtstart = Some(conv::<ikal::Date>(&a1)?); x.dtstamp = conv::<ikal::DateTime>(&a7)?; x.x_prop = a2.x_prop.clone(); x.rrule = Some(conv::<ikal::Recur>(&a10)?); x.resources = vec![text(&a3), text(&a4), text(&a5), text(&a6)]; x.duration = Some(length(&a8)?); x.priority = Some(a9); x }))();
    v.judge(m, h, 0)
}
fn m137(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.duration();
    let a3 = v.date();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { exdate: [], duration: &a2, dtstart: a3.as_str(), x_prop: a1.x_prop.clone() } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.exdate = vec![]; x.duration = Some(length(&a2)?); x.dtstart = Some(conv::<ikal::Date>(&a3)?); x.x_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m138(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let a2 = v.number();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { sequence: a2, dtstamp: v.id(&a1), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.sequence = Some(a2); x.dtstamp = conv::<ikal::DateTime>(&a1)?; x }))();
    v.judge(m, h, 1)
}
fn m139(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! {  } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default();  x }))();
    v.judge(m, h, 0)
}
fn m140(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let a2 = v.byte() as i8 % 31;
    let a3 = v.byte();
    let a4 = v.weekday();
    let a5 = v.text();
    let a6 = v.text();
    let a7 = v.text();
    let a8 = v.text();
    let a9 = v.text();
    let a10 = v.text();
    let a11 = v.text();
    let a12 = v.text();
    let a13 = v.position();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { categories: [a5.as_str(), format!("{}", a6), a7.as_str(), a8.as_str()], geo: a13, rrule: { freq: Hourly, by_monthday: [a2], count: a3, by_day: [a4.clone()] }, resources: [a9.as_str(), format!("{}", a10), v.id(&a11), format!("{}", a12)], dtstamp: a1.clone(), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.categories = vec![text(&a5), text(&a6), text(&a7), text(&a8)]; x.geo = Some(conv::<ikal::Geo>(&a13)?); x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Hourly; x.by_monthday = vec![a2]; x.count = Some(a3); x.by_day = vec![a4.clone()]; x }); x.resources = vec![text(&a9), text(&a10), text(&a11), text(&a12)]; x.dtstamp = conv::<ikal::DateTime>(&a1)?; x }))();
    v.judge(m, h, 1)
}
fn m141(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let a2 = v.text();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let object = a1.clone(); let t = a2.clone(); ikal::vtodo! { url: object.clone(), summary: format!("{}", t), } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.url = Some(uri(&a1)); x.summary = Some(text(&a2)); x }))();
    v.judge(m, h, 0)
}
fn m142(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.text();
    let a7 = v.date_time();
    let last_modified = (|| -> ikal::Result<_> { Ok(Some(conv::<ikal::DateTime>(&a7)?)) })().unwrap_or_default();
    let h_last_modified = last_modified.clone();
    let a8 = v.uri();
    let url = (|| -> ikal::Result<_> { Ok(Some(uri(&a8))) })().unwrap_or_default();
    let h_url = url.clone();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let inner = a1.clone(); let r = a2.clone(); let config = a3.clone(); let init = a4.clone(); let ok = a5.clone(); let ast = a6.clone(); ikal::vtodo! { comment: [v.id(&r), config.as_str(), init.clone(), format!("{}", ok)], last_modified, class: Custom(ast.clone()), url, iana_prop: inner.x_prop.clone() } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.comment = vec![text(&a2), text(&a3), text(&a4), text(&a5)]; x.last_modified = h_last_modified.clone(); x.class = Some(ikal::Class::Custom(a6.clone())); x.url = h_url.clone(); x.iana_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 1)
}
fn m143(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let a2 = v.uri();
    let url = (|| -> ikal::Result<_> { Ok(Some(uri(&a2))) })().unwrap_or_default();
    let h_url = url.clone();
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; let inner = a1.clone(); ikal::vtodo! { url, dtstamp: inner.trim_matches('~') } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.url = h_url.clone(); x.dtstamp = conv::<ikal::DateTime>(&a1)?; x }))();
    v.judge(m, h, 0)
}
fn m144(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! {  } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default();  x }))();
    v.judge(m, h, 0)
}
fn m145(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { dtstamp: format!("{}", a1), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.dtstamp = conv::<ikal::DateTime>(&a1)?; x }))();
    v.judge(m, h, 0)
}
fn m146(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let ty = a1.clone(); ikal::vjournal! { dtstamp: ty.clone() } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.dtstamp = conv::<ikal::DateTime>(&a1)?; x }))();
    v.judge(m, h, 0)
}
fn m147(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let inner = a1.clone(); ikal::vjournal! { uid: format!("{}", inner) } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.uid = text(&a1); x }))();
    v.judge(m, h, 0)
}
fn m148(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let i = a1.clone(); ikal::vjournal! { uid: i.as_str() } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.uid = text(&a1); x }))();
    v.judge(m, h, 0)
}
fn m149(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { class: Public, } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.class = Some(ikal::Class::Public); x }))();
    v.judge(m, h, 0)
}
fn m150(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { class: Public, } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.class = Some(ikal::Class::Public); x }))();
    v.judge(m, h, 0)
}
fn m151(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { created: format!("{}", a1), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.created = Some(conv::<ikal::DateTime>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m152(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let event = a1.clone(); ikal::vjournal! { created: event.as_str(), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.created = Some(conv::<ikal::DateTime>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m153(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { dtstart: a1.clone(), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.dtstart = conv::<ikal::Date>(&a1)?; x }))();
    v.judge(m, h, 0)
}
fn m154(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let calendar = a1.clone(); ikal::vjournal! { dtstart: format!("{}", calendar), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.dtstart = conv::<ikal::Date>(&a1)?; x }))();
    v.judge(m, h, 0)
}
fn m155(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { last_modified: format!("{}", a1), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.last_modified = Some(conv::<ikal::DateTime>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m156(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let vcalendar = a1.clone(); ikal::vjournal! { last_modified: format!("{}", vcalendar), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.last_modified = Some(conv::<ikal::DateTime>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m157(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { organizer: a1.as_str() } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.organizer = Some(uri(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m158(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let result = a1.clone(); ikal::vjournal! { organizer: v.id(&result), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.organizer = Some(uri(&a1)); x }))();
    v.judge(m, h, 1)
}
fn m159(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { recurid: a1.as_str(), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.recurid = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m160(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let item = a1.clone(); ikal::vjournal! { recurid: item.trim_matches('~'), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.recurid = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m161(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { sequence: a1 } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.sequence = Some(a1); x }))();
    v.judge(m, h, 0)
}
fn m162(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let component = a1.clone(); ikal::vjournal! { sequence: component, } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.sequence = Some(a1); x }))();
    v.judge(m, h, 0)
}
fn m163(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { status: Draft, } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.status = Some(ikal::Status::Draft); x }))();
    v.judge(m, h, 0)
}
fn m164(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { status: Confirmed, } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.status = Some(ikal::Status::Confirmed); x }))();
    v.judge(m, h, 0)
}
fn m165(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { summary: a1.clone(), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.summary = Some(text(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m166(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let ty = a1.clone(); ikal::vjournal! { summary: ty.clone(), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.summary = Some(text(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m167(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { url: v.id(&a1), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.url = Some(uri(&a1)); x }))();
    v.judge(m, h, 1)
}
fn m168(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let parts = a1.clone(); ikal::vjournal! { url: parts.as_str(), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.url = Some(uri(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m169(v: &mut V) -> Result<(), String> {
    let a1 = v.rule();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let f = a1.clone(); ikal::vjournal! { rrule: f.trim_matches('~'), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.rrule = Some(conv::<ikal::Recur>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m170(v: &mut V) -> Result<(), String> {
    let a1 = v.day();
    let a2 = v.byte() as i8 % 31;
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let tmp = a1.clone(); let vevent = a2.clone(); ikal::vjournal! { rrule: { until: ikal::Date::from(tmp), by_monthday: [vevent], freq: Yearly }, } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Yearly; x.until = Some(ikal::Date::Date(a1)); x.by_monthday = vec![a2]; x }); x }))();
    v.judge(m, h, 0)
}
fn m171(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { description: [], } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.description = vec![]; x }))();
    v.judge(m, h, 0)
}
fn m172(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let value = a1.clone(); ikal::vjournal! { description: [v.id(&value)] } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.description = vec![text(&a1)]; x }))();
    v.judge(m, h, 1)
}
fn m173(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { attach: [v.id(&a1), a2.clone(), a3.as_str(), format!("{}", a4)] } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.attach = vec![text(&a1), text(&a2), text(&a3), text(&a4)]; x }))();
    v.judge(m, h, 1)
}
fn m174(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { attach: [a1.clone()], } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.attach = vec![text(&a1)]; x }))();
    v.judge(m, h, 0)
}
fn m175(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { attendee: [] } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.attendee = vec![]; x }))();
    v.judge(m, h, 0)
}
fn m176(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let a2 = v.uri();
    let a3 = v.uri();
    let a4 = v.uri();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let o = a1.clone(); let entry = a2.clone(); let output = a3.clone(); let config = a4.clone(); ikal::vjournal! { attendee: [o.as_str(), entry.clone(), output.as_str(), config.clone()], } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.attendee = vec![uri(&a1), uri(&a2), uri(&a3), uri(&a4)]; x }))();
    v.judge(m, h, 0)
}
fn m177(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { categories: [v.id(&a1), v.id(&a2), a3.clone(), a4.clone()], } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.categories = vec![text(&a1), text(&a2), text(&a3), text(&a4)]; x }))();
    v.judge(m, h, 2)
}
fn m178(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { categories: [] } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.categories = vec![]; x }))();
    v.judge(m, h, 0)
}
fn m179(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let component = a1.clone(); let x = a2.clone(); let m = a3.clone(); ikal::vjournal! { comment: [format!("{}", component), v.id(&x), format!("{}", m)], } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.comment = vec![text(&a1), text(&a2), text(&a3)]; x }))();
    v.judge(m, h, 1)
}
fn m180(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let r = a1.clone(); let values = a2.clone(); let output = a3.clone(); let c = a4.clone(); ikal::vjournal! { comment: [r.clone(), v.id(&values), v.id(&output), c.as_str()] } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.comment = vec![text(&a1), text(&a2), text(&a3), text(&a4)]; x }))();
    v.judge(m, h, 2)
}
fn m181(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { contact: [v.id(&a1), a2.clone(), v.id(&a3), format!("{}", a4)], } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.contact = vec![text(&a1), text(&a2), text(&a3), text(&a4)]; x }))();
    v.judge(m, h, 2)
}
fn m182(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { contact: [a1.clone()], } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.contact = vec![text(&a1)]; x }))();
    v.judge(m, h, 0)
}
fn m183(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let a2 = v.date();
    let a3 = v.date();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let field = a1.clone(); let fields = a2.clone(); let output = a3.clone(); ikal::vjournal! { exdate: [format!("{}", field), fields.trim_matches('~'), output.clone()] } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.exdate = vec![conv::<ikal::Date>(&a1)?, conv::<ikal::Date>(&a2)?, conv::<ikal::Date>(&a3)?]; x }))();
    v.judge(m, h, 0)
}
fn m184(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let a2 = v.date();
    let a3 = v.date();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let default = a1.clone(); let date = a2.clone(); let key = a3.clone(); ikal::vjournal! { exdate: [default.clone(), date.as_str(), v.id(&key)] } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.exdate = vec![conv::<ikal::Date>(&a1)?, conv::<ikal::Date>(&a2)?, conv::<ikal::Date>(&a3)?]; x }))();
    v.judge(m, h, 1)
}
fn m185(v: &mut V) -> Result<(), String> {
    let a1 = v.status();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { rstatus: [a1.clone()], } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.rstatus = vec![conv::<ikal::RequestStatus>(&a1)?]; x }))();
    v.judge(m, h, 0)
}
fn m186(v: &mut V) -> Result<(), String> {
    let a1 = v.code();
    let a2 = v.text();
    let a3 = v.text();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let c = a1.clone(); let entry = a2.clone(); let parsed = a3.clone(); ikal::vjournal! { rstatus: [{ statdesc: entry.as_str(), extdata: parsed.clone(), statcode: c }] } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.rstatus = vec![ikal::RequestStatus { statcode: a1, statdesc: a2.clone(), extdata: Some(a3.clone()) }]; x }))();
    v.judge(m, h, 0)
}
fn m187(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let r = a1.clone(); ikal::vjournal! { related_to: [v.id(&r)], } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.related_to = vec![text(&a1)]; x }))();
    v.judge(m, h, 1)
}
fn m188(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let init = a1.clone(); ikal::vjournal! { related_to: [v.id(&init)], } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.related_to = vec![text(&a1)]; x }))();
    v.judge(m, h, 1)
}
fn m189(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let date = a1.clone(); ikal::vjournal! { x_prop: date.x_prop.clone() } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.x_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m190(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { x_prop: a1.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.x_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m191(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let result = a1.clone(); ikal::vjournal! { iana_prop: result.x_prop.clone() } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.iana_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m192(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { iana_prop: a1.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.iana_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m193(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let a2 = v.text();
    let a3 = v.date_time();
    let a4 = v.date();
    let a5 = v.date_time();
    let a6 = v.uri();
    let a7 = v.date();
    let a8 = v.number();
    let a9 = v.text();
    let a10 = v.uri();
    let a11 = v.weekday().weekday;
    let a12 = v.byte();
    let a13 = v.byte() as i8 % 31;
    let a14 = v.text();
    let a15 = v.text();
    let a16 = v.uri();
    let a17 = v.uri();
    let a18 = v.uri();
    let a19 = v.text();
    let a20 = v.text();
    let a21 = v.text();
    let a22 = v.text();
    let a23 = v.text();
    let a24 = v.date();
    let a25 = v.date();
    let a26 = v.date();
    let a27 = v.status();
    let a28 = v.text();
    let a29 = v.text();
    let a30 = v.text();
    let a31 = v.props();
    let a32 = v.props();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let todo = a1.clone(); let object = a2.clone(); let value = a3.clone(); let init = a4.clone(); let vevent = a5.clone(); let s = a6.clone(); let values = a7.clone(); let parts = a8.clone(); let val = a9.clone(); let ast = a10.clone(); let text = a11.clone(); let d = a12.clone(); let out = a13.clone(); let component = a14.clone(); let i = a15.clone(); let t = a16.clone(); let a = a17.clone(); let parsed = a18.clone(); let r = a19.clone(); let date = a20.clone(); let tmp = a21.clone(); let calendar = a22.clone(); let b = a23.clone(); let map = a24.clone(); let field = a25.clone(); let dt = a26.clone(); let ok = a27.clone(); let res = a28.clone(); let m = a29.clone(); let x = a30.clone(); let c = a31.clone(); let e = a32.clone(); ikal::vjournal! { rstatus: [ok.clone()], related_to: [format!("{}", res), m.clone(), x.as_str()], organizer: s.clone(), summary: format!("{}", val), last_modified: vevent.trim_matches('~'), status: InProcess, comment: [v.id(&tmp)], exdate: [map.clone(), field.trim_matches('~'), v.id(&dt)], url: ast.clone(), dtstamp: format!("{}", todo), categories: [format!("{}", r), date.as_str()], uid: object.clone(), created: value, class: Public, rrule: { freq: Monthly, count: d, wkst: Some(text.clone()), by_monthday: [out] }, attendee: [t.clone(), a.clone(), parsed.as_str()], description: [format!("{}", component)], recurid: values, attach: [v.id(&i)], contact: [format!("{}", calendar), b.clone()], iana_prop: e.x_prop.clone(), sequence: parts, dtstart: init, x_prop: c.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.rstatus = vec![conv::<ikal::RequestStatus>(&a27)?]; x.related_to = vec![text(&a28), text(&a29), text(&a30)]; x.organizer = Some(uri(&a6)); x.summary = Some(text(&a9)); x.last_modified = Some(conv::<ikal::DateTime>(&a5)?); x.status = Some(ikal::Status::InProcess); x.comment = vec![text(&a21)]; x.exdate = vec![conv::<ikal::Date>(&a24)?, conv::<ikal::Date>(&a25)?, conv::<ikal::Date>(&a26)?]; x.url = Some(uri(&a10)); x.dtstamp = conv::<ikal::DateTime>(&a1)?; x.categories = vec![text(&a19), text(&a20)]; x.uid = text(&a2); x.created = Some(conv::<ikal::DateTime>(&a3)?); x.class = Some(ikal::Class::Public); x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Monthly; x.wkst = Some(a11.clone()); x.count = Some(a12); x.by_monthday = vec![a13]; x }); x.attendee = vec![uri(&a16), uri(&a17), uri(&a18)]; x.description = vec![text(&a14)]; x.recurid = Some(conv::<ikal::Date>(&a7)?); x.attach = vec![text(&a15)]; x.contact = vec![text(&a22), text(&a23)]; x.iana_prop = a32.x_prop.clone(); x.sequence = Some(a8); x.dtstart = conv::<ikal::Date>(&a4)?; x.x_prop = a31.x_prop.clone(); x }))();
    v.judge(m, h, 3)
}
fn m194(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.text();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { created: a1, categories: [a2.clone(), a3.as_str(), a4.clone(), v.id(&a5)] } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.created = Some(conv::<ikal::DateTime>(&a1)?); x.categories = vec![text(&a2), text(&a3), text(&a4), text(&a5)]; x }))();
    v.judge(m, h, 1)
}
fn m195(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.props();
    let a5 = v.text();
    let a6 = v.status();
    let a7 = v.status();
    let a8 = v.code();
    let a9 = v.text();
    let a10 = v.code();
    let a11 = v.text();
    let a12 = v.date_time();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { iana_prop: a4.x_prop.clone(), rstatus: [a6.as_str(), v.id(&a7), { statcode: a8, statdesc: a9.as_str() }, { statcode: a10, statdesc: a11.as_str() }], contact: [format!("{}", a1), a2.as_str(), a3.as_str()], dtstamp: format!("{}", a12), summary: format!("{}", a5), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.iana_prop = a4.x_prop.clone(); x.rstatus = vec![conv::<ikal::RequestStatus>(&a6)?, conv::<ikal::RequestStatus>(&a7)?, ikal::RequestStatus { statcode: a8, statdesc: a9.clone(), extdata: None }, ikal::RequestStatus { statcode: a10, statdesc: a11.clone(), extdata: None }]; x.contact = vec![text(&a1), text(&a2), text(&a3)]; x.dtstamp = conv::<ikal::DateTime>(&a12)?; x.summary = Some(text(&a5)); x }))();
    v.judge(m, h, 1)
}
fn m196(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! {  } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default();  x }))();
    v.judge(m, h, 0)
}
fn m197(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.date_time();
    let a3 = v.uri();
    let a4 = v.rule();
    let a5 = v.date();
    let a6 = v.uri();
    let a7 = v.number();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { organizer: v.id(&a3), url: v.id(&a6), rrule: a4.as_str(), last_modified: a2.clone(), sequence: a7, status: Confirmed, dtstart: format!("{}", a5), description: [a1.as_str()] } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.organizer = Some(uri(&a3)); x.url = Some(uri(&a6)); x.rrule = Some(conv::<ikal::Recur>(&a4)?); x.last_modified = Some(conv::<ikal::DateTime>(&a2)?); x.sequence = Some(a7); x.status = Some(ikal::Status::Confirmed); x.dtstart = conv::<ikal::Date>(&a5)?; x.description = vec![text(&a1)]; x }))();
    v.judge(m, h, 2)
}
fn m198(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.props();
    let a4 = v.date_time();
    let a5 = v.date_time();
    let a6 = v.text();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let vcalendar = a1.clone(); let o = a2.clone(); let ty = a3.clone(); let out = a4.clone(); let err = a5.clone(); let todo = a6.clone(); ikal::vjournal! { attach: [v.id(&vcalendar)], dtstamp: format!("{}", err), comment: [todo.as_str()], categories: [o.clone()], last_modified: format!("{}", out), x_prop: ty.x_prop.clone() } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.attach = vec![text(&a1)]; x.dtstamp = conv::<ikal::DateTime>(&a5)?; x.comment = vec![text(&a6)]; x.categories = vec![text(&a2)]; x.last_modified = Some(conv::<ikal::DateTime>(&a4)?); x.x_prop = a3.x_prop.clone(); x }))();
    v.judge(m, h, 1)
}
fn m199(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { x_prop: a1.x_prop.clone(), exdate: [] } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.x_prop = a1.x_prop.clone(); x.exdate = vec![]; x }))();
    v.judge(m, h, 0)
}
fn m200(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let a2 = v.date_time();
    let a3 = v.number();
    let sequence = (|| -> ikal::Result<_> { Ok(Some(a3)) })().unwrap_or_default();
    let h_sequence = sequence.clone();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; let values = a1.clone(); let calendar = a2.clone(); ikal::vjournal! { sequence, last_modified: v.id(&calendar), exdate: [values.clone()] } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.sequence = h_sequence.clone(); x.last_modified = Some(conv::<ikal::DateTime>(&a2)?); x.exdate = vec![conv::<ikal::Date>(&a1)?]; x }))();
    v.judge(m, h, 1)
}
fn m201(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.date();
    let a6 = v.date();
    let exdate = (|| -> ikal::Result<_> { Ok(vec![conv::<ikal::Date>(&a6)?]) })().unwrap_or_default();
    let h_exdate = exdate.clone();
    let a7 = v.uri();
    let attendee = (|| -> ikal::Result<_> { Ok(vec![uri(&a7)]) })().unwrap_or_default();
    let h_attendee = attendee.clone();
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { attendee, categories: [a2.as_str(), a3.clone(), a4.as_str()], exdate, dtstart: a5.clone(), url: v.id(&a1), } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.attendee = h_attendee.clone(); x.categories = vec![text(&a2), text(&a3), text(&a4)]; x.exdate = h_exdate.clone(); x.dtstart = conv::<ikal::Date>(&a5)?; x.url = Some(uri(&a1)); x }))();
    v.judge(m, h, 1)
}
fn m202(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; ikal::vfreebusy! {  } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default();  x }))();
    v.judge(m, h, 0)
}
fn m203(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; ikal::vfreebusy! { dtstamp: a1.trim_matches('~'), } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.dtstamp = conv::<ikal::DateTime>(&a1)?; x }))();
    v.judge(m, h, 0)
}
fn m204(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; ikal::vfreebusy! { dtstamp: a1.clone() } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.dtstamp = conv::<ikal::DateTime>(&a1)?; x }))();
    v.judge(m, h, 0)
}
fn m205(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; ikal::vfreebusy! { uid: v.id(&a1), } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.uid = text(&a1); x }))();
    v.judge(m, h, 1)
}
fn m206(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let init = a1.clone(); ikal::vfreebusy! { uid: init.clone(), } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.uid = text(&a1); x }))();
    v.judge(m, h, 0)
}
fn m207(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; ikal::vfreebusy! { contact: a1.clone(), } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.contact = Some(text(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m208(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let a = a1.clone(); ikal::vfreebusy! { contact: v.id(&a) } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.contact = Some(text(&a1)); x }))();
    v.judge(m, h, 1)
}
fn m209(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let b = a1.clone(); ikal::vfreebusy! { dtstart: b.trim_matches('~'), } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.dtstart = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m210(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; ikal::vfreebusy! { dtstart: a1.trim_matches('~'), } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.dtstart = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m211(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let ok = a1.clone(); ikal::vfreebusy! { dtend: ok.clone(), } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.dtend = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m212(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let input = a1.clone(); ikal::vfreebusy! { dtend: input.trim_matches('~'), } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.dtend = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m213(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let name = a1.clone(); ikal::vfreebusy! { organizer: name.as_str(), } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.organizer = Some(uri(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m214(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let entry = a1.clone(); ikal::vfreebusy! { organizer: entry.as_str() } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.organizer = Some(uri(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m215(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; ikal::vfreebusy! { url: a1.clone(), } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.url = Some(uri(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m216(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; ikal::vfreebusy! { url: a1.as_str(), } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.url = Some(uri(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m217(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let component = a1.clone(); ikal::vfreebusy! { attendee: [v.id(&component)], } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.attendee = vec![uri(&a1)]; x }))();
    v.judge(m, h, 1)
}
fn m218(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let a2 = v.uri();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; ikal::vfreebusy! { attendee: [a1.clone(), a2.clone()], } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.attendee = vec![uri(&a1), uri(&a2)]; x }))();
    v.judge(m, h, 0)
}
fn m219(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let tmp = a1.clone(); let dt = a2.clone(); let m = a3.clone(); ikal::vfreebusy! { comment: [tmp.as_str(), dt.as_str(), format!("{}", m)] } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.comment = vec![text(&a1), text(&a2), text(&a3)]; x }))();
    v.judge(m, h, 0)
}
fn m220(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let s = a1.clone(); let d = a2.clone(); ikal::vfreebusy! { comment: [s.clone(), format!("{}", d)], } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.comment = vec![text(&a1), text(&a2)]; x }))();
    v.judge(m, h, 0)
}
fn m221(v: &mut V) -> Result<(), String> {
    let a1 = v.period();
    let a2 = v.period();
    let a3 = v.period();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let t = a1.clone(); let e = a2.clone(); let this = a3.clone(); ikal::vfreebusy! { freebusy: [t.clone(), e.clone(), this.clone()], } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.freebusy = vec![a1.clone(), a2.clone(), a3.clone()]; x }))();
    v.judge(m, h, 0)
}
fn m222(v: &mut V) -> Result<(), String> {
    let a1 = v.period();
    let a2 = v.period();
    let a3 = v.period();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let tmp = a1.clone(); let map = a2.clone(); let field = a3.clone(); ikal::vfreebusy! { freebusy: [tmp.clone(), map.clone(), field.clone()], } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.freebusy = vec![a1.clone(), a2.clone(), a3.clone()]; x }))();
    v.judge(m, h, 0)
}
fn m223(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; ikal::vfreebusy! { rstatus: [] } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.rstatus = vec![]; x }))();
    v.judge(m, h, 0)
}
fn m224(v: &mut V) -> Result<(), String> {
    let a1 = v.code();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.status();
    let a5 = v.code();
    let a6 = v.text();
    let a7 = v.text();
    let a8 = v.status();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let d = a1.clone(); let parsed = a2.clone(); let s = a3.clone(); let alarm = a4.clone(); let o = a5.clone(); let m = a6.clone(); let f = a7.clone(); let a = a8.clone(); ikal::vfreebusy! { rstatus: [{ extdata: s.clone(), statcode: d, statdesc: parsed.as_str() }, v.id(&alarm), { extdata: f.clone(), statdesc: m.as_str(), statcode: o }, a.as_str()], } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.rstatus = vec![ikal::RequestStatus { statcode: a1, statdesc: a2.clone(), extdata: Some(a3.clone()) }, conv::<ikal::RequestStatus>(&a4)?, ikal::RequestStatus { statcode: a5, statdesc: a6.clone(), extdata: Some(a7.clone()) }, conv::<ikal::RequestStatus>(&a8)?]; x }))();
    v.judge(m, h, 1)
}
fn m225(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; ikal::vfreebusy! { x_prop: a1.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.x_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m226(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let ast = a1.clone(); ikal::vfreebusy! { x_prop: ast.x_prop.clone() } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.x_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m227(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let e = a1.clone(); ikal::vfreebusy! { iana_prop: e.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.iana_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m228(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; ikal::vfreebusy! { iana_prop: a1.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.iana_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m229(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.date();
    let a5 = v.date();
    let a6 = v.uri();
    let a7 = v.uri();
    let a8 = v.uri();
    let a9 = v.uri();
    let a10 = v.text();
    let a11 = v.period();
    let a12 = v.props();
    let a13 = v.props();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let name = a1.clone(); let item = a2.clone(); let map = a3.clone(); let dt = a4.clone(); let err = a5.clone(); let value = a6.clone(); let self_ = a7.clone(); let event = a8.clone(); let parts = a9.clone(); let parsed = a10.clone(); let m = a11.clone(); let tmp = a12.clone(); let e = a13.clone(); ikal::vfreebusy! { x_prop: tmp.x_prop.clone(), dtstamp: v.id(&name), url: self_.clone(), dtstart: v.id(&dt), dtend: err, attendee: [v.id(&event), v.id(&parts)], contact: format!("{}", map), iana_prop: e.x_prop.clone(), freebusy: [m.clone()], uid: v.id(&item), organizer: value.as_str(), comment: [parsed.as_str()], rstatus: [], } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.x_prop = a12.x_prop.clone(); x.dtstamp = conv::<ikal::DateTime>(&a1)?; x.url = Some(uri(&a7)); x.dtstart = Some(conv::<ikal::Date>(&a4)?); x.dtend = Some(conv::<ikal::Date>(&a5)?); x.attendee = vec![uri(&a8), uri(&a9)]; x.contact = Some(text(&a3)); x.iana_prop = a13.x_prop.clone(); x.freebusy = vec![a11.clone()]; x.uid = text(&a2); x.organizer = Some(uri(&a6)); x.comment = vec![text(&a10)]; x.rstatus = vec![]; x }))();
    v.judge(m, h, 5)
}
fn m230(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let a2 = v.code();
    let a3 = v.text();
    let a4 = v.text();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let c = a1.clone(); let default = a2.clone(); let err = a3.clone(); let dt = a4.clone(); ikal::vfreebusy! { rstatus: [{ statcode: default, extdata: dt.clone(), statdesc: err.as_str() }], dtend: c.clone() } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.rstatus = vec![ikal::RequestStatus { statcode: a2, statdesc: a3.clone(), extdata: Some(a4.clone()) }]; x.dtend = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m231(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.date_time();
    let a6 = v.props();
    let a7 = v.uri();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let base = a1.clone(); let result = a2.clone(); let value = a3.clone(); let calendar = a4.clone(); let it = a5.clone(); let parsed = a6.clone(); let this = a7.clone(); ikal::vfreebusy! { iana_prop: base.x_prop.clone(), uid: format!("{}", calendar), x_prop: parsed.x_prop.clone(), url: this.as_str(), comment: [format!("{}", result)], contact: value.clone(), dtstamp: it.clone(), } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.iana_prop = a1.x_prop.clone(); x.uid = text(&a4); x.x_prop = a6.x_prop.clone(); x.url = Some(uri(&a7)); x.comment = vec![text(&a2)]; x.contact = Some(text(&a3)); x.dtstamp = conv::<ikal::DateTime>(&a5)?; x }))();
    v.judge(m, h, 0)
}
fn m232(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let a2 = v.date_time();
    let a3 = v.props();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let d = a1.clone(); let vcalendar = a2.clone(); let field = a3.clone(); ikal::vfreebusy! { x_prop: field.x_prop.clone(), dtstamp: v.id(&vcalendar), organizer: d.clone() } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.x_prop = a3.x_prop.clone(); x.dtstamp = conv::<ikal::DateTime>(&a2)?; x.organizer = Some(uri(&a1)); x }))();
    v.judge(m, h, 1)
}
fn m233(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let a2 = v.props();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.date_time();
    let a7 = v.date();
    let a8 = v.text();
    let a9 = v.uri();
    let a10 = v.uri();
    let a11 = v.uri();
    let a12 = v.uri();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let e = a1.clone(); let date = a2.clone(); let out = a3.clone(); let d = a4.clone(); let m = a5.clone(); let val = a6.clone(); let i = a7.clone(); let base = a8.clone(); let ty = a9.clone(); let item = a10.clone(); let builder = a11.clone(); let map = a12.clone(); ikal::vfreebusy! { contact: format!("{}", base), dtstamp: val, comment: [out.as_str(), d.as_str()], x_prop: date.x_prop.clone(), dtend: i, uid: v.id(&m), organizer: v.id(&e), attendee: [ty.clone(), v.id(&item), builder.as_str(), map.as_str()] } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.contact = Some(text(&a8)); x.dtstamp = conv::<ikal::DateTime>(&a6)?; x.comment = vec![text(&a3), text(&a4)]; x.x_prop = a2.x_prop.clone(); x.dtend = Some(conv::<ikal::Date>(&a7)?); x.uid = text(&a5); x.organizer = Some(uri(&a1)); x.attendee = vec![uri(&a9), uri(&a10), uri(&a11), uri(&a12)]; x }))();
    v.judge(m, h, 3)
}
fn m234(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let a2 = v.props();
    let a3 = v.text();
    let a4 = v.uri();
    let a5 = v.text();
    let a6 = v.period();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; ikal::vfreebusy! { url: v.id(&a4), comment: [format!("{}", a5)], contact: a3.as_str(), iana_prop: a2.x_prop.clone(), freebusy: [a6.clone()], dtstart: a1.as_str() } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.url = Some(uri(&a4)); x.comment = vec![text(&a5)]; x.contact = Some(text(&a3)); x.iana_prop = a2.x_prop.clone(); x.freebusy = vec![a6.clone()]; x.dtstart = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 1)
}
fn m235(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.date();
    let a3 = v.date_time();
    let a4 = v.uri();
    let a5 = v.date();
    let a6 = v.uri();
    let a7 = v.uri();
    let a8 = v.text();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let event = a1.clone(); let builder = a2.clone(); let s = a3.clone(); let list = a4.clone(); let x = a5.clone(); let base = a6.clone(); let a = a7.clone(); let ok = a8.clone(); ikal::vfreebusy! { freebusy: [], organizer: list.as_str(), dtend: builder, attendee: [base.as_str()], dtstamp: s.clone(), url: v.id(&a), dtstart: x.trim_matches('~'), iana_prop: event.x_prop.clone(), uid: v.id(&ok), } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.freebusy = vec![]; x.organizer = Some(uri(&a4)); x.dtend = Some(conv::<ikal::Date>(&a2)?); x.attendee = vec![uri(&a6)]; x.dtstamp = conv::<ikal::DateTime>(&a3)?; x.url = Some(uri(&a7)); x.dtstart = Some(conv::<ikal::Date>(&a5)?); x.iana_prop = a1.x_prop.clone(); x.uid = text(&a8); x }))();
    v.judge(m, h, 2)
}
fn m236(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.props();
    let a3 = v.uri();
    let attendee = (|| -> ikal::Result<_> { Ok(vec![uri(&a3)]) })().unwrap_or_default();
    let h_attendee = attendee.clone();
    let a4 = v.date();
    let dtstart = (|| -> ikal::Result<_> { Ok(Some(conv::<ikal::Date>(&a4)?)) })().unwrap_or_default();
    let h_dtstart = dtstart.clone();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let base = a1.clone(); let o = a2.clone(); ikal::vfreebusy! { rstatus: [], contact: v.id(&base), x_prop: o.x_prop.clone(), dtstart, attendee, } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.rstatus = vec![]; x.contact = Some(text(&a1)); x.x_prop = a2.x_prop.clone(); x.dtstart = h_dtstart.clone(); x.attendee = h_attendee.clone(); x }))();
    v.judge(m, h, 1)
}
fn m237(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.date();
    let dtstart = (|| -> ikal::Result<_> { Ok(Some(conv::<ikal::Date>(&a2)?)) })().unwrap_or_default();
    let h_dtstart = dtstart.clone();
    let m: ikal::Result<ikal::VFreebusy> = (|| { let v = &*v; let entry = a1.clone(); ikal::vfreebusy! { dtstart, x_prop: entry.x_prop.clone() } })();
    let h: ikal::Result<ikal::VFreebusy> = (|| Ok({ let mut x = ikal::VFreebusy::default(); x.dtstart = h_dtstart.clone(); x.x_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m238(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; ikal::vtimezone! {  } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default();  x }))();
    v.judge(m, h, 0)
}
fn m239(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; let t = a1.clone(); ikal::vtimezone! { tzid: format!("{}", t), } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.tzid = text(&a1); x }))();
    v.judge(m, h, 0)
}
fn m240(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; ikal::vtimezone! { tzid: v.id(&a1), } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.tzid = text(&a1); x }))();
    v.judge(m, h, 1)
}
fn m241(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; let self_ = a1.clone(); ikal::vtimezone! { last_modified: self_.as_str(), } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.last_modified = Some(conv::<ikal::DateTime>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m242(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; ikal::vtimezone! { last_modified: a1 } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.last_modified = Some(conv::<ikal::DateTime>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m243(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; let m = a1.clone(); ikal::vtimezone! { tzurl: v.id(&m), } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.tzurl = Some(uri(&a1)); x }))();
    v.judge(m, h, 1)
}
fn m244(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; let r = a1.clone(); ikal::vtimezone! { tzurl: r.clone() } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.tzurl = Some(uri(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m245(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; let ret = a1.clone(); ikal::vtimezone! { x_prop: ret.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.x_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m246(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; let m = a1.clone(); ikal::vtimezone! { x_prop: m.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.x_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m247(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; ikal::vtimezone! { iana_prop: a1.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.iana_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m248(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; let entry = a1.clone(); ikal::vtimezone! { iana_prop: entry.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.iana_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m249(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.date_time();
    let a3 = v.uri();
    let a4 = v.props();
    let a5 = v.props();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; let default = a1.clone(); let list = a2.clone(); let tmp = a3.clone(); let a = a4.clone(); let r = a5.clone(); ikal::vtimezone! { tzid: default.clone(), daylight: [], last_modified: list.clone(), iana_prop: r.x_prop.clone(), tzurl: tmp.as_str(), x_prop: a.x_prop.clone() } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.tzid = text(&a1); x.daylight = vec![]; x.last_modified = Some(conv::<ikal::DateTime>(&a2)?); x.iana_prop = a5.x_prop.clone(); x.tzurl = Some(uri(&a3)); x.x_prop = a4.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m250(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.date();
    let a3 = v.day();
    let a4 = v.byte();
    let a5 = v.byte() as i8 % 31;
    let a6 = v.offset();
    let a7 = v.offset();
    let a8 = v.text();
    let a9 = v.text();
    let a10 = v.text();
    let a11 = v.offset();
    let a12 = v.offset();
    let a13 = v.props();
    let a14 = v.offset();
    let a15 = v.rule();
    let a16 = v.props();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; let parts = a1.clone(); let dt = a2.clone(); let val = a3.clone(); let name = a4.clone(); let d = a5.clone(); let r = a6.clone(); let err = a7.clone(); let event = a8.clone(); let item = a9.clone(); let list = a10.clone(); let init = a11.clone(); let parsed = a12.clone(); let key = a13.clone(); let todo = a14.clone(); let t = a15.clone(); let map = a16.clone(); ikal::vtimezone! { standard: [{  }, { tzoffsetfrom: err.trim_matches('~'), dtstart: v.id(&dt), rrule: { count: name, by_monthday: [d], until: ikal::Date::from(val), freq: Weekly }, tzoffsetto: r.trim_matches('~'), comment: [v.id(&event), item.as_str(), list.as_str()], x_prop: parts.x_prop.clone(), }], daylight: [{ rrule: { freq: Daily }, tzoffsetfrom: init.clone(), }, { tzoffsetto: todo.clone(), tzoffsetfrom: v.id(&parsed), comment: [], x_prop: map.x_prop.clone(), iana_prop: key.x_prop.clone(), tzname: [], rrule: format!("{}", t) }] } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default();  x }, { let mut x = ikal::vtimezone::Standard::default(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a7)?; x.dtstart = conv::<ikal::Date>(&a2)?; x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Weekly; x.until = Some(ikal::Date::Date(a3)); x.count = Some(a4); x.by_monthday = vec![a5]; x }); x.tzoffsetto = conv::<chrono::FixedOffset>(&a6)?; x.comment = vec![text(&a8), text(&a9), text(&a10)]; x.x_prop = a1.x_prop.clone(); x }]; x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Daily; x }); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a11)?; x }, { let mut x = ikal::vtimezone::Daylight::default(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a14)?; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a12)?; x.comment = vec![]; x.x_prop = a16.x_prop.clone(); x.iana_prop = a13.x_prop.clone(); x.tzname = vec![]; x.rrule = Some(conv::<ikal::Recur>(&a15)?); x }]; x }))();
    v.judge(m, h, 3)
}
fn m251(v: &mut V) -> Result<(), String> {
    let a1 = v.offset();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.props();
    let a6 = v.text();
    let a7 = v.text();
    let a8 = v.text();
    let a9 = v.text();
    let a10 = v.date();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; let inner = a1.clone(); let res = a2.clone(); let name = a3.clone(); let parsed = a4.clone(); let out = a5.clone(); let d = a6.clone(); let t = a7.clone(); let r = a8.clone(); let parts = a9.clone(); let x = a10.clone(); ikal::vtimezone! { daylight: [], standard: [{ iana_prop: out.x_prop.clone(), tzoffsetto: inner.as_str(), comment: [res.as_str(), name.clone(), parsed.as_str()], dtstart: format!("{}", x), tzname: [v.id(&d), t.clone(), format!("{}", r), parts.as_str()] }], } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.daylight = vec![]; x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.iana_prop = a5.x_prop.clone(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a1)?; x.comment = vec![text(&a2), text(&a3), text(&a4)]; x.dtstart = conv::<ikal::Date>(&a10)?; x.tzname = vec![text(&a6), text(&a7), text(&a8), text(&a9)]; x }]; x }))();
    v.judge(m, h, 1)
}
fn m252(v: &mut V) -> Result<(), String> {
    let a1 = v.offset();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.props();
    let a5 = v.offset();
    let a6 = v.date();
    let a7 = v.props();
    let a8 = v.text();
    let a9 = v.text();
    let a10 = v.text();
    let a11 = v.text();
    let a12 = v.rule();
    let a13 = v.props();
    let a14 = v.date();
    let a15 = v.text();
    let a16 = v.offset();
    let a17 = v.props();
    let a18 = v.offset();
    let a19 = v.byte() as i8 % 31;
    let a20 = v.weekday().weekday;
    let a21 = v.byte();
    let a22 = v.weekday();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; ikal::vtimezone! { daylight: [{ comment: [v.id(&a2)], tzoffsetto: v.id(&a1) }, { iana_prop: a4.x_prop.clone(), tzname: [a3.as_str()], x_prop: a7.x_prop.clone(), comment: [format!("{}", a8), a9.as_str(), a10.clone(), a11.as_str()], tzoffsetto: a5.trim_matches('~'), dtstart: v.id(&a6), rrule: a12, }, { tzoffsetfrom: a16, x_prop: a13.x_prop.clone(), tzoffsetto: a18.as_str(), comment: [v.id(&a15)], dtstart: a14.trim_matches('~'), rrule: { by_day: [a22.clone()], wkst: Some(a20.clone()), by_monthday: [a19], count: a21, freq: Daily }, iana_prop: a17.x_prop.clone(), }] } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.comment = vec![text(&a2)]; x.tzoffsetto = conv::<chrono::FixedOffset>(&a1)?; x }, { let mut x = ikal::vtimezone::Daylight::default(); x.iana_prop = a4.x_prop.clone(); x.tzname = vec![text(&a3)]; x.x_prop = a7.x_prop.clone(); x.comment = vec![text(&a8), text(&a9), text(&a10), text(&a11)]; x.tzoffsetto = conv::<chrono::FixedOffset>(&a5)?; x.dtstart = conv::<ikal::Date>(&a6)?; x.rrule = Some(conv::<ikal::Recur>(&a12)?); x }, { let mut x = ikal::vtimezone::Daylight::default(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a16)?; x.x_prop = a13.x_prop.clone(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a18)?; x.comment = vec![text(&a15)]; x.dtstart = conv::<ikal::Date>(&a14)?; x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Daily; x.by_monthday = vec![a19]; x.wkst = Some(a20.clone()); x.count = Some(a21); x.by_day = vec![a22.clone()]; x }); x.iana_prop = a17.x_prop.clone(); x }]; x }))();
    v.judge(m, h, 4)
}
fn m253(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.props();
    let a3 = v.offset();
    let a4 = v.offset();
    let a5 = v.text();
    let a6 = v.text();
    let a7 = v.text();
    let a8 = v.props();
    let a9 = v.text();
    let a10 = v.text();
    let a11 = v.text();
    let a12 = v.text();
    let a13 = v.text();
    let a14 = v.text();
    let a15 = v.offset();
    let a16 = v.date();
    let a17 = v.rule();
    let a18 = v.offset();
    let a19 = v.props();
    let a20 = v.text();
    let a21 = v.text();
    let a22 = v.text();
    let a23 = v.text();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; let inner = a1.clone(); let output = a2.clone(); let val = a3.clone(); let key = a4.clone(); let self_ = a5.clone(); let n = a6.clone(); let s = a7.clone(); let e = a8.clone(); let parsed = a9.clone(); let r = a10.clone(); let item = a11.clone(); let this = a12.clone(); let res = a13.clone(); let map = a14.clone(); let list = a15.clone(); let err = a16.clone(); let ret = a17.clone(); let result = a18.clone(); let f = a19.clone(); let t = a20.clone(); let ty = a21.clone(); let it = a22.clone(); let todo = a23.clone(); ikal::vtimezone! { daylight: [{ tzoffsetto: format!("{}", key), tzoffsetfrom: val.clone(), tzname: [v.id(&self_), n.as_str(), s.as_str()] }, { tzoffsetfrom: format!("{}", list), tzname: [format!("{}", parsed), r.clone()], iana_prop: e.x_prop.clone(), comment: [item.as_str(), format!("{}", this), res.clone(), map.as_str()], }, { rrule: ret.as_str(), iana_prop: f.x_prop.clone(), tzname: [v.id(&t), ty.clone(), format!("{}", it), v.id(&todo)], tzoffsetfrom: result.clone(), dtstart: v.id(&err), }], standard: [{ x_prop: output.x_prop.clone(), iana_prop: inner.x_prop.clone() }] } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a4)?; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a3)?; x.tzname = vec![text(&a5), text(&a6), text(&a7)]; x }, { let mut x = ikal::vtimezone::Daylight::default(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a15)?; x.tzname = vec![text(&a9), text(&a10)]; x.iana_prop = a8.x_prop.clone(); x.comment = vec![text(&a11), text(&a12), text(&a13), text(&a14)]; x }, { let mut x = ikal::vtimezone::Daylight::default(); x.rrule = Some(conv::<ikal::Recur>(&a17)?); x.iana_prop = a19.x_prop.clone(); x.tzname = vec![text(&a20), text(&a21), text(&a22), text(&a23)]; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a18)?; x.dtstart = conv::<ikal::Date>(&a16)?; x }]; x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.x_prop = a2.x_prop.clone(); x.iana_prop = a1.x_prop.clone(); x }]; x }))();
    v.judge(m, h, 4)
}
fn m254(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.date_time();
    let a3 = v.text();
    let a4 = v.uri();
    let a5 = v.props();
    let a6 = v.props();
    let a7 = v.offset();
    let a8 = v.date();
    let a9 = v.rule();
    let a10 = v.offset();
    let a11 = v.props();
    let a12 = v.text();
    let a13 = v.text();
    let a14 = v.text();
    let a15 = v.text();
    let a16 = v.text();
    let a17 = v.text();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; let x = a1.clone(); let parsed = a2.clone(); let list = a3.clone(); let vcalendar = a4.clone(); let b = a5.clone(); let ty = a6.clone(); let text = a7.clone(); let config = a8.clone(); let it = a9.clone(); let todo = a10.clone(); let o = a11.clone(); let r = a12.clone(); let out = a13.clone(); let d = a14.clone(); let output = a15.clone(); let m = a16.clone(); let ret = a17.clone(); ikal::vtimezone! { tzid: format!("{}", list), daylight: [{ tzoffsetto: text, rrule: it.clone(), tzoffsetfrom: todo, comment: [v.id(&r), format!("{}", out)], iana_prop: ty.x_prop.clone(), tzname: [d.clone(), v.id(&output), m.clone(), ret.as_str()], dtstart: config, x_prop: o.x_prop.clone() }], x_prop: b.x_prop.clone(), last_modified: format!("{}", parsed), tzurl: vcalendar.as_str(), iana_prop: x.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.tzid = text(&a3); x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a7)?; x.rrule = Some(conv::<ikal::Recur>(&a9)?); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a10)?; x.comment = vec![text(&a12), text(&a13)]; x.iana_prop = a6.x_prop.clone(); x.tzname = vec![text(&a14), text(&a15), text(&a16), text(&a17)]; x.dtstart = conv::<ikal::Date>(&a8)?; x.x_prop = a11.x_prop.clone(); x }]; x.x_prop = a5.x_prop.clone(); x.last_modified = Some(conv::<ikal::DateTime>(&a2)?); x.tzurl = Some(uri(&a4)); x.iana_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 2)
}
fn m255(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.uri();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; let i = a1.clone(); let self_ = a2.clone(); ikal::vtimezone! { standard: [], tzurl: self_.as_str(), tzid: v.id(&i), daylight: [], } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.standard = vec![]; x.tzurl = Some(uri(&a2)); x.tzid = text(&a1); x.daylight = vec![]; x }))();
    v.judge(m, h, 1)
}
fn m256(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.text();
    let a3 = v.date_time();
    let last_modified = (|| -> ikal::Result<_> { Ok(Some(conv::<ikal::DateTime>(&a3)?)) })().unwrap_or_default();
    let h_last_modified = last_modified.clone();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; let v = a1.clone(); let it = a2.clone(); ikal::vtimezone! { last_modified, tzid: format!("{}", it), x_prop: v.x_prop.clone() } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.last_modified = h_last_modified.clone(); x.tzid = text(&a2); x.x_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m257(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let a2 = v.uri();
    let tzurl = (|| -> ikal::Result<_> { Ok(Some(uri(&a2))) })().unwrap_or_default();
    let h_tzurl = tzurl.clone();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; ikal::vtimezone! { tzurl, last_modified: a1.trim_matches('~'), } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.tzurl = h_tzurl.clone(); x.last_modified = Some(conv::<ikal::DateTime>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m258(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; ikal::vcalendar! {  } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default();  x }))();
    v.judge(m, h, 0)
}
fn m259(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; ikal::vcalendar! { prodid: a1.clone() } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.prodid = text(&a1); x }))();
    v.judge(m, h, 0)
}
fn m260(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; ikal::vcalendar! { prodid: a1.as_str() } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.prodid = text(&a1); x }))();
    v.judge(m, h, 0)
}
fn m261(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let a = a1.clone(); ikal::vcalendar! { version: a.clone(), } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.version = text(&a1); x }))();
    v.judge(m, h, 0)
}
fn m262(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let field = a1.clone(); ikal::vcalendar! { version: field.clone(), } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.version = text(&a1); x }))();
    v.judge(m, h, 0)
}
fn m263(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; ikal::vcalendar! { calscale: Some(ikal::Text::from(a1.as_str())) } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.calscale = Some(text(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m264(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let vcalendar = a1.clone(); ikal::vcalendar! { calscale: Some(ikal::Text::from(vcalendar.as_str())), } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.calscale = Some(text(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m265(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let key = a1.clone(); ikal::vcalendar! { method: Some(ikal::Text::from(key.as_str())), } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.method = Some(text(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m266(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let item = a1.clone(); ikal::vcalendar! { method: Some(ikal::Text::from(item.as_str())) } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.method = Some(text(&a1)); x }))();
    v.judge(m, h, 0)
}
fn m267(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let n = a1.clone(); ikal::vcalendar! { x_prop: n.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.x_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m268(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; ikal::vcalendar! { x_prop: a1.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.x_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m269(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let x = a1.clone(); ikal::vcalendar! { iana_prop: x.x_prop.clone() } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.iana_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m270(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let inner = a1.clone(); ikal::vcalendar! { iana_prop: inner.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.iana_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 0)
}
fn m271(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.props();
    let a6 = v.props();
    let a7 = v.position();
    let a8 = v.rule();
    let a9 = v.date_time();
    let a10 = v.text();
    let a11 = v.date();
    let a12 = v.text();
    let a13 = v.number();
    let a14 = v.text();
    let a15 = v.text();
    let a16 = v.trigger();
    let a17 = v.props();
    let a18 = v.duration();
    let a19 = v.props();
    let a20 = v.text();
    let a21 = v.text();
    let a22 = v.text();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let i = a1.clone(); let a = a2.clone(); let date = a3.clone(); let object = a4.clone(); let event = a5.clone(); let self_ = a6.clone(); let o = a7.clone(); let s = a8.clone(); let res = a9.clone(); let ok = a10.clone(); let ret = a11.clone(); let c = a12.clone(); let vcalendar = a13.clone(); let f = a14.clone(); let dt = a15.clone(); let component = a16.clone(); let list = a17.clone(); let ast = a18.clone(); let builder = a19.clone(); let field = a20.clone(); let t = a21.clone(); let base = a22.clone(); ikal::vcalendar! { x_prop: event.x_prop.clone(), calscale: Some(ikal::Text::from(date.as_str())), prodid: format!("{}", i), iana_prop: self_.x_prop.clone(), events: [{ last_modified: res, uid: v.id(&c), geo: o, dtend: format!("{}", ret), rrule: s.clone(), summary: format!("{}", ok) }, {  }], version: format!("{}", a), timezones: [], journals: [ikal::vjournal! { uid: f.clone(), status: Completed, summary: format!("{}", dt), sequence: (vcalendar | 0), }?], method: Some(ikal::Text::from(object.as_str())), alarms: [ikal::valarm!(@audio, attach: [field.as_str(), t.as_str(), base.as_str()], x_prop: list.x_prop.clone(), duration: ast.as_str(), trigger: component.as_str(), iana_prop: builder.x_prop.clone(),)?], } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.x_prop = a5.x_prop.clone(); x.calscale = Some(text(&a3)); x.prodid = text(&a1); x.iana_prop = a6.x_prop.clone(); x.events = vec![{ let mut x = ikal::VEvent::default(); x.last_modified = Some(conv::<ikal::DateTime>(&a9)?); x.uid = text(&a12); x.geo = Some(conv::<ikal::Geo>(&a7)?); x.dtend = Some(conv::<ikal::Date>(&a11)?); x.rrule = Some(conv::<ikal::Recur>(&a8)?); x.summary = Some(text(&a10)); x }, { let mut x = ikal::VEvent::default();  x }]; x.version = text(&a2); x.timezones = vec![]; x.journals = vec![{ let mut x = ikal::VJournal::default(); x.uid = text(&a14); x.status = Some(ikal::Status::Completed); x.summary = Some(text(&a15)); x.sequence = Some(a13); x }]; x.method = Some(text(&a4)); x.alarms = vec![{ let mut x = ikal::valarm::Audio::default(); x.attach = vec![text(&a20), text(&a21), text(&a22)]; x.x_prop = a17.x_prop.clone(); x.duration = Some(length(&a18)?); x.trigger = trigger(&a16)?; x.iana_prop = a19.x_prop.clone(); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }]; x }))();
    v.judge(m, h, 1)
}
fn m272(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.props();
    let a3 = v.text();
    let a4 = v.props();
    let a5 = v.text();
    let a6 = v.text();
    let a7 = v.status();
    let a8 = v.text();
    let a9 = v.uri();
    let a10 = v.props();
    let a11 = v.date_time();
    let a12 = v.date();
    let a13 = v.number();
    let a14 = v.text();
    let a15 = v.text();
    let a16 = v.uri();
    let a17 = v.date_time();
    let a18 = v.text();
    let a19 = v.text();
    let a20 = v.text();
    let a21 = v.text();
    let a22 = v.uri();
    let a23 = v.period();
    let a24 = v.props();
    let a25 = v.date();
    let a26 = v.period();
    let a27 = v.period();
    let a28 = v.text();
    let a29 = v.props();
    let a30 = v.date();
    let a31 = v.props();
    let a32 = v.uri();
    let a33 = v.props();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; ikal::vcalendar! { calscale: Some(ikal::Text::from(a5.as_str())), iana_prop: a2.x_prop.clone(), freebusy: [ikal::vfreebusy! {  }?, ikal::vfreebusy! { freebusy: [a23.clone()], comment: [v.id(&a18), a19.as_str(), format!("{}", a20), a21.clone()], uid: v.id(&a15), dtend: v.id(&a25), contact: a14.as_str(), url: v.id(&a22), dtstamp: a17, organizer: v.id(&a16), x_prop: a24.x_prop.clone(), }?, ikal::vfreebusy! { iana_prop: a31.x_prop.clone(), dtend: v.id(&a30), url: v.id(&a32), freebusy: [a26.clone(), a27.clone()], x_prop: a29.x_prop.clone(), uid: format!("{}", a28), }?], timezones: [], method: Some(ikal::Text::from(a3.as_str())), x_prop: a4.x_prop.clone(), todo: [], alarms: [ikal::valarm!(@display, iana_prop: a33.x_prop.clone())?], version: v.id(&a1), prodid: format!("{}", a6), journals: [ikal::vjournal! { dtstamp: v.id(&a11), x_prop: a10.x_prop.clone(), comment: [v.id(&a8)], sequence: a13, dtstart: format!("{}", a12), rstatus: [v.id(&a7)], organizer: a9.as_str(), }?] } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.calscale = Some(text(&a5)); x.iana_prop = a2.x_prop.clone(); x.freebusy = vec![{ let mut x = ikal::VFreebusy::default();  x }, { let mut x = ikal::VFreebusy::default(); x.freebusy = vec![a23.clone()]; x.comment = vec![text(&a18), text(&a19), text(&a20), text(&a21)]; x.uid = text(&a15); x.dtend = Some(conv::<ikal::Date>(&a25)?); x.contact = Some(text(&a14)); x.url = Some(uri(&a22)); x.dtstamp = conv::<ikal::DateTime>(&a17)?; x.organizer = Some(uri(&a16)); x.x_prop = a24.x_prop.clone(); x }, { let mut x = ikal::VFreebusy::default(); x.iana_prop = a31.x_prop.clone(); x.dtend = Some(conv::<ikal::Date>(&a30)?); x.url = Some(uri(&a32)); x.freebusy = vec![a26.clone(), a27.clone()]; x.x_prop = a29.x_prop.clone(); x.uid = text(&a28); x }]; x.timezones = vec![]; x.method = Some(text(&a3)); x.x_prop = a4.x_prop.clone(); x.todo = vec![]; x.alarms = vec![{ let mut x = ikal::valarm::Display::default(); x.iana_prop = a33.x_prop.clone(); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }]; x.version = text(&a1); x.prodid = text(&a6); x.journals = vec![{ let mut x = ikal::VJournal::default(); x.dtstamp = conv::<ikal::DateTime>(&a11)?; x.x_prop = a10.x_prop.clone(); x.comment = vec![text(&a8)]; x.sequence = Some(a13); x.dtstart = conv::<ikal::Date>(&a12)?; x.rstatus = vec![conv::<ikal::RequestStatus>(&a7)?]; x.organizer = Some(uri(&a9)); x }]; x }))();
    v.judge(m, h, 11)
}
fn m273(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.props();
    let a5 = v.props();
    let a6 = v.text();
    let a7 = v.date_time();
    let a8 = v.text();
    let a9 = v.date();
    let a10 = v.text();
    let a11 = v.text();
    let a12 = v.text();
    let a13 = v.uri();
    let a14 = v.date_time();
    let a15 = v.uri();
    let a16 = v.date();
    let a17 = v.date();
    let a18 = v.date();
    let a19 = v.text();
    let a20 = v.props();
    let a21 = v.code();
    let a22 = v.text();
    let a23 = v.text();
    let a24 = v.status();
    let a25 = v.code();
    let a26 = v.text();
    let a27 = v.text();
    let a28 = v.status();
    let a29 = v.uri();
    let a30 = v.period();
    let a31 = v.period();
    let a32 = v.props();
    let a33 = v.uri();
    let a34 = v.date();
    let a35 = v.text();
    let a36 = v.date();
    let a37 = v.status();
    let a38 = v.status();
    let a39 = v.status();
    let a40 = v.props();
    let a41 = v.text();
    let a42 = v.props();
    let a43 = v.props();
    let a44 = v.text();
    let a45 = v.text();
    let a46 = v.text();
    let a47 = v.text();
    let a48 = v.text();
    let a49 = v.byte();
    let a50 = v.weekday().weekday;
    let a51 = v.byte();
    let a52 = v.byte() as i8 % 31;
    let a53 = v.offset();
    let a54 = v.offset();
    let a55 = v.props();
    let a56 = v.date();
    let a57 = v.props();
    let a58 = v.uri();
    let a59 = v.props();
    let a60 = v.weekday().weekday;
    let a61 = v.byte() as i8 % 31;
    let a62 = v.byte();
    let a63 = v.byte() as i8 % 24;
    let a64 = v.day();
    let a65 = v.props();
    let a66 = v.offset();
    let a67 = v.props();
    let a68 = v.date();
    let a69 = v.offset();
    let a70 = v.props();
    let a71 = v.rule();
    let a72 = v.props();
    let a73 = v.rule();
    let a74 = v.offset();
    let a75 = v.offset();
    let a76 = v.props();
    let a77 = v.text();
    let a78 = v.text();
    let a79 = v.text();
    let a80 = v.props();
    let a81 = v.offset();
    let a82 = v.date();
    let a83 = v.text();
    let a84 = v.text();
    let a85 = v.text();
    let a86 = v.text();
    let a87 = v.props();
    let a88 = v.offset();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let e = a1.clone(); let value = a2.clone(); let map = a3.clone(); let item = a4.clone(); let self_ = a5.clone(); let a = a6.clone(); let n = a7.clone(); let it = a8.clone(); let ret = a9.clone(); let event = a10.clone(); let init = a11.clone(); let list = a12.clone(); let calendar = a13.clone(); let r = a14.clone(); let todo = a15.clone(); let s = a16.clone(); let values = a17.clone(); let dt = a18.clone(); let entry = a19.clone(); let ast = a20.clone(); let component = a21.clone(); let err = a22.clone(); let o = a23.clone(); let builder = a24.clone(); let output = a25.clone(); let x = a26.clone(); let f = a27.clone(); let d = a28.clone(); let base = a29.clone(); let ty = a30.clone(); let alarm = a31.clone(); let res = a32.clone(); let name = a33.clone(); let b = a34.clone(); let text = a35.clone(); let parts = a36.clone(); let date = a37.clone(); let fields = a38.clone(); let c = a39.clone(); let val = a40.clone(); let tmp = a41.clone(); let this = a42.clone(); let inner = a43.clone(); let ok = a44.clone(); let parsed = a45.clone(); let field = a46.clone(); let default = a47.clone(); let object = a48.clone(); let i = a49.clone(); let vevent = a50.clone(); let config = a51.clone(); let t = a52.clone(); let key = a53.clone(); let input = a54.clone(); let vcalendar = a55.clone(); let out = a56.clone(); let m = a57.clone(); let result = a58.clone(); ikal::vcalendar! { freebusy: [ikal::vfreebusy! { x_prop: res.x_prop.clone(), dtstart: format!("{}", b), dtend: v.id(&parts), url: v.id(&name), freebusy: [ty.clone(), alarm.clone()], uid: v.id(&text), rstatus: [{ extdata: o.clone(), statdesc: err.as_str(), statcode: component }, builder.trim_matches('~'), { statdesc: x.as_str(), extdata: f.clone(), statcode: output }, d.as_str()], organizer: base.clone() }?, ikal::vfreebusy! { x_prop: val.x_prop.clone(), rstatus: [format!("{}", date), fields, v.id(&c)], }?], timezones: [ikal::vtimezone! { standard: [{ comment: [v.id(&ok), v.id(&parsed), field.clone(), v.id(&default)], rrule: { interval: config, count: i, freq: Weekly, wkst: Some(vevent.clone()), by_monthday: [t] }, tzoffsetto: format!("{}", key), x_prop: vcalendar.x_prop.clone(), tzoffsetfrom: input.trim_matches('~'), dtstart: out, tzname: [object.clone()], }, {  }], tzid: tmp.as_str(), daylight: [{  }], iana_prop: inner.x_prop.clone(), x_prop: this.x_prop.clone() }?, ikal::vtimezone! { standard: [], }?, ikal::vtimezone! { x_prop: a59.x_prop.clone(), iana_prop: m.x_prop.clone(), standard: [{ x_prop: a67.x_prop.clone(), rrule: { count: a62, by_monthday: [a61], until: ikal::Date::from(a64), by_hour: [a63, 7], freq: Minutely, wkst: Some(a60.clone()) }, iana_prop: a65.x_prop.clone(), tzoffsetto: format!("{}", a66) }, { dtstart: a68.trim_matches('~'), rrule: format!("{}", a71), iana_prop: a72.x_prop.clone(), tzoffsetto: a69.clone(), x_prop: a70.x_prop.clone() }], tzurl: v.id(&result), daylight: [{ tzoffsetto: a74.trim_matches('~'), iana_prop: a76.x_prop.clone(), rrule: a73.as_str(), tzoffsetfrom: a75.trim_matches('~'), }, { rrule: { freq: Monthly }, dtstart: a82.clone(), comment: [v.id(&a77), a78.as_str(), format!("{}", a79)], tzname: [format!("{}", a83), format!("{}", a84), a85.as_str(), a86.as_str()], tzoffsetfrom: a81.trim_matches('~'), x_prop: a80.x_prop.clone(), tzoffsetto: a88.trim_matches('~'), iana_prop: a87.x_prop.clone(), }], }?], events: [{ alarms: [ikal::valarm!(@email, iana_prop: item.x_prop.clone(), summary: value.clone(), description: format!("{}", map),)?], recurid: e, }, { iana_prop: self_.x_prop.clone(), categories: [it.clone()], contact: [format!("{}", event), init.as_str(), format!("{}", list)], created: n.trim_matches('~'), recurid: ret.as_str(), uid: v.id(&a) }], journals: [ikal::vjournal! { iana_prop: ast.x_prop.clone(), summary: entry.as_str(), url: calendar.clone(), status: Cancelled, attendee: [v.id(&todo)], last_modified: v.id(&r), class: Private, exdate: [v.id(&s), v.id(&values), format!("{}", dt)] }?, ikal::vjournal! {  }?], } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.freebusy = vec![{ let mut x = ikal::VFreebusy::default(); x.x_prop = a32.x_prop.clone(); x.dtstart = Some(conv::<ikal::Date>(&a34)?); x.dtend = Some(conv::<ikal::Date>(&a36)?); x.url = Some(uri(&a33)); x.freebusy = vec![a30.clone(), a31.clone()]; x.uid = text(&a35); x.rstatus = vec![ikal::RequestStatus { statcode: a21, statdesc: a22.clone(), extdata: Some(a23.clone()) }, conv::<ikal::RequestStatus>(&a24)?, ikal::RequestStatus { statcode: a25, statdesc: a26.clone(), extdata: Some(a27.clone()) }, conv::<ikal::RequestStatus>(&a28)?]; x.organizer = Some(uri(&a29)); x }, { let mut x = ikal::VFreebusy::default(); x.x_prop = a40.x_prop.clone(); x.rstatus = vec![conv::<ikal::RequestStatus>(&a37)?, conv::<ikal::RequestStatus>(&a38)?, conv::<ikal::RequestStatus>(&a39)?]; x }]; x.timezones = vec![{ let mut x = ikal::VTimezone::default(); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.comment = vec![text(&a44), text(&a45), text(&a46), text(&a47)]; x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Weekly; x.count = Some(a49); x.wkst = Some(a50.clone()); x.interval = a51; x.by_monthday = vec![a52]; x }); x.tzoffsetto = conv::<chrono::FixedOffset>(&a53)?; x.x_prop = a55.x_prop.clone(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a54)?; x.dtstart = conv::<ikal::Date>(&a56)?; x.tzname = vec![text(&a48)]; x }, { let mut x = ikal::vtimezone::Standard::default();  x }]; x.tzid = text(&a41); x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default();  x }]; x.iana_prop = a43.x_prop.clone(); x.x_prop = a42.x_prop.clone(); x }, { let mut x = ikal::VTimezone::default(); x.standard = vec![]; x }, { let mut x = ikal::VTimezone::default(); x.x_prop = a59.x_prop.clone(); x.iana_prop = a57.x_prop.clone(); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.x_prop = a67.x_prop.clone(); x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Minutely; x.wkst = Some(a60.clone()); x.by_monthday = vec![a61]; x.count = Some(a62); x.by_hour = vec![a63, 7]; x.until = Some(ikal::Date::Date(a64)); x }); x.iana_prop = a65.x_prop.clone(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a66)?; x }, { let mut x = ikal::vtimezone::Standard::default(); x.dtstart = conv::<ikal::Date>(&a68)?; x.rrule = Some(conv::<ikal::Recur>(&a71)?); x.iana_prop = a72.x_prop.clone(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a69)?; x.x_prop = a70.x_prop.clone(); x }]; x.tzurl = Some(uri(&a58)); x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a74)?; x.iana_prop = a76.x_prop.clone(); x.rrule = Some(conv::<ikal::Recur>(&a73)?); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a75)?; x }, { let mut x = ikal::vtimezone::Daylight::default(); x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Monthly; x }); x.dtstart = conv::<ikal::Date>(&a82)?; x.comment = vec![text(&a77), text(&a78), text(&a79)]; x.tzname = vec![text(&a83), text(&a84), text(&a85), text(&a86)]; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a81)?; x.x_prop = a80.x_prop.clone(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a88)?; x.iana_prop = a87.x_prop.clone(); x }]; x }]; x.events = vec![{ let mut x = ikal::VEvent::default(); x.alarms = vec![{ let mut x = ikal::valarm::Email::default(); x.iana_prop = a4.x_prop.clone(); x.summary = text(&a2); x.description = text(&a3); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }]; x.recurid = Some(conv::<ikal::Date>(&a1)?); x }, { let mut x = ikal::VEvent::default(); x.iana_prop = a5.x_prop.clone(); x.categories = vec![text(&a8)]; x.contact = vec![text(&a10), text(&a11), text(&a12)]; x.created = Some(conv::<ikal::DateTime>(&a7)?); x.recurid = Some(conv::<ikal::Date>(&a9)?); x.uid = text(&a6); x }]; x.journals = vec![{ let mut x = ikal::VJournal::default(); x.iana_prop = a20.x_prop.clone(); x.summary = Some(text(&a19)); x.url = Some(uri(&a13)); x.status = Some(ikal::Status::Cancelled); x.attendee = vec![uri(&a15)]; x.last_modified = Some(conv::<ikal::DateTime>(&a14)?); x.class = Some(ikal::Class::Private); x.exdate = vec![conv::<ikal::Date>(&a16)?, conv::<ikal::Date>(&a17)?, conv::<ikal::Date>(&a18)?]; x }, { let mut x = ikal::VJournal::default();  x }]; x }))();
    v.judge(m, h, 14)
}
fn m274(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; ikal::vcalendar! { events: [] } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.events = vec![]; x }))();
    v.judge(m, h, 0)
}
fn m275(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.uri();
    let a3 = v.props();
    let a4 = v.text();
    let a5 = v.props();
    let a6 = v.text();
    let a7 = v.text();
    let a8 = v.text();
    let a9 = v.text();
    let a10 = v.offset();
    let a11 = v.text();
    let a12 = v.date();
    let a13 = v.offset();
    let a14 = v.rule();
    let a15 = v.props();
    let a16 = v.props();
    let a17 = v.offset();
    let a18 = v.text();
    let a19 = v.props();
    let a20 = v.props();
    let a21 = v.text();
    let a22 = v.offset();
    let a23 = v.date();
    let a24 = v.weekday();
    let a25 = v.byte() as i8 % 24;
    let a26 = v.rule();
    let a27 = v.text();
    let a28 = v.props();
    let a29 = v.props();
    let a30 = v.offset();
    let a31 = v.date();
    let a32 = v.offset();
    let a33 = v.props();
    let a34 = v.text();
    let a35 = v.date();
    let a36 = v.props();
    let a37 = v.offset();
    let a38 = v.text();
    let a39 = v.text();
    let a40 = v.text();
    let a41 = v.props();
    let a42 = v.byte() as i8 % 31;
    let a43 = v.day();
    let a44 = v.byte();
    let a45 = v.byte();
    let a46 = v.props();
    let a47 = v.props();
    let a48 = v.offset();
    let a49 = v.text();
    let a50 = v.date();
    let a51 = v.rule();
    let a52 = v.offset();
    let a53 = v.text();
    let a54 = v.text();
    let a55 = v.text();
    let a56 = v.date();
    let a57 = v.props();
    let a58 = v.rule();
    let a59 = v.props();
    let a60 = v.date();
    let a61 = v.text();
    let a62 = v.rule();
    let a63 = v.text();
    let a64 = v.text();
    let a65 = v.props();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let ty = a1.clone(); let t = a2.clone(); let err = a3.clone(); let e = a4.clone(); let s = a5.clone(); let todo = a6.clone(); let parts = a7.clone(); let it = a8.clone(); let vevent = a9.clone(); let o = a10.clone(); let res = a11.clone(); let ok = a12.clone(); let entry = a13.clone(); let this = a14.clone(); let f = a15.clone(); let input = a16.clone(); let alarm = a17.clone(); let m = a18.clone(); let n = a19.clone(); let event = a20.clone(); let output = a21.clone(); let value = a22.clone(); let builder = a23.clone(); let a = a24.clone(); let d = a25.clone(); let component = a26.clone(); let field = a27.clone(); let val = a28.clone(); let out = a29.clone(); let object = a30.clone(); let key = a31.clone(); let map = a32.clone(); let text = a33.clone(); let self_ = a34.clone(); let init = a35.clone(); let list = a36.clone(); let values = a37.clone(); let config = a38.clone(); let fields = a39.clone(); let r = a40.clone(); let dt = a41.clone(); let calendar = a42.clone(); let result = a43.clone(); let base = a44.clone(); let inner = a45.clone(); let parsed = a46.clone(); let tmp = a47.clone(); let c = a48.clone(); let name = a49.clone(); let item = a50.clone(); let i = a51.clone(); let x = a52.clone(); let default = a53.clone(); let date = a54.clone(); let ast = a55.clone(); let vcalendar = a56.clone(); let b = a57.clone(); let ret = a58.clone(); ikal::vcalendar! { freebusy: [], events: [], timezones: [ikal::vtimezone! { x_prop: err.x_prop.clone(), tzurl: t.clone(), tzid: v.id(&e), iana_prop: s.x_prop.clone(), standard: [{ comment: [v.id(&todo), parts.as_str(), it.clone(), v.id(&vevent)], tzoffsetto: v.id(&entry), x_prop: input.x_prop.clone(), rrule: this, tzname: [v.id(&res)], tzoffsetfrom: o.as_str(), dtstart: ok.clone(), iana_prop: f.x_prop.clone(), }], daylight: [{ x_prop: n.x_prop.clone(), iana_prop: event.x_prop.clone(), tzname: [output.clone()], tzoffsetfrom: v.id(&alarm), tzoffsetto: value.as_str(), comment: [v.id(&m)], dtstart: builder, rrule: { freq: Hourly, by_hour: [d, 7], by_day: [a.clone()] }, }, { dtstart: key.clone(), tzoffsetto: map.trim_matches('~'), tzname: [format!("{}", field)], rrule: format!("{}", component), comment: [], tzoffsetfrom: v.id(&object), iana_prop: out.x_prop.clone(), x_prop: val.x_prop.clone(), }] }?, ikal::vtimezone! { x_prop: text.x_prop.clone(), tzid: format!("{}", self_), standard: [{ comment: [config.as_str(), v.id(&fields), format!("{}", r)], iana_prop: list.x_prop.clone(), dtstart: v.id(&init), tzoffsetfrom: v.id(&values), rrule: { count: inner, by_monthday: [calendar], freq: Minutely, interval: base, until: ikal::Date::from(result) }, x_prop: dt.x_prop.clone(), }], daylight: [{ dtstart: v.id(&item), tzoffsetfrom: c.as_str(), x_prop: tmp.x_prop.clone(), iana_prop: parsed.x_prop.clone(), comment: [], tzname: [format!("{}", name)], }, { rrule: i.clone() }, { comment: [default.clone(), date.clone(), ast.as_str()], tzoffsetfrom: x.as_str(), x_prop: a59.x_prop.clone(), rrule: ret, tzname: [], dtstart: v.id(&vcalendar), iana_prop: b.x_prop.clone() }], }?, ikal::vtimezone! { standard: [{  }, { tzname: [], dtstart: a60, rrule: a62, comment: [v.id(&a61)], }], daylight: [{ tzname: [a63.as_str(), v.id(&a64)], iana_prop: a65.x_prop.clone() }] }?], version: ty.as_str(), } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.freebusy = vec![]; x.events = vec![]; x.timezones = vec![{ let mut x = ikal::VTimezone::default(); x.x_prop = a3.x_prop.clone(); x.tzurl = Some(uri(&a2)); x.tzid = text(&a4); x.iana_prop = a5.x_prop.clone(); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.comment = vec![text(&a6), text(&a7), text(&a8), text(&a9)]; x.tzoffsetto = conv::<chrono::FixedOffset>(&a13)?; x.x_prop = a16.x_prop.clone(); x.rrule = Some(conv::<ikal::Recur>(&a14)?); x.tzname = vec![text(&a11)]; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a10)?; x.dtstart = conv::<ikal::Date>(&a12)?; x.iana_prop = a15.x_prop.clone(); x }]; x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.x_prop = a19.x_prop.clone(); x.iana_prop = a20.x_prop.clone(); x.tzname = vec![text(&a21)]; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a17)?; x.tzoffsetto = conv::<chrono::FixedOffset>(&a22)?; x.comment = vec![text(&a18)]; x.dtstart = conv::<ikal::Date>(&a23)?; x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Hourly; x.by_day = vec![a24.clone()]; x.by_hour = vec![a25, 7]; x }); x }, { let mut x = ikal::vtimezone::Daylight::default(); x.dtstart = conv::<ikal::Date>(&a31)?; x.tzoffsetto = conv::<chrono::FixedOffset>(&a32)?; x.tzname = vec![text(&a27)]; x.rrule = Some(conv::<ikal::Recur>(&a26)?); x.comment = vec![]; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a30)?; x.iana_prop = a29.x_prop.clone(); x.x_prop = a28.x_prop.clone(); x }]; x }, { let mut x = ikal::VTimezone::default(); x.x_prop = a33.x_prop.clone(); x.tzid = text(&a34); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.comment = vec![text(&a38), text(&a39), text(&a40)]; x.iana_prop = a36.x_prop.clone(); x.dtstart = conv::<ikal::Date>(&a35)?; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a37)?; x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Minutely; x.by_monthday = vec![a42]; x.until = Some(ikal::Date::Date(a43)); x.interval = a44; x.count = Some(a45); x }); x.x_prop = a41.x_prop.clone(); x }]; x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.dtstart = conv::<ikal::Date>(&a50)?; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a48)?; x.x_prop = a47.x_prop.clone(); x.iana_prop = a46.x_prop.clone(); x.comment = vec![]; x.tzname = vec![text(&a49)]; x }, { let mut x = ikal::vtimezone::Daylight::default(); x.rrule = Some(conv::<ikal::Recur>(&a51)?); x }, { let mut x = ikal::vtimezone::Daylight::default(); x.comment = vec![text(&a53), text(&a54), text(&a55)]; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a52)?; x.x_prop = a59.x_prop.clone(); x.rrule = Some(conv::<ikal::Recur>(&a58)?); x.tzname = vec![]; x.dtstart = conv::<ikal::Date>(&a56)?; x.iana_prop = a57.x_prop.clone(); x }]; x }, { let mut x = ikal::VTimezone::default(); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default();  x }, { let mut x = ikal::vtimezone::Standard::default(); x.tzname = vec![]; x.dtstart = conv::<ikal::Date>(&a60)?; x.rrule = Some(conv::<ikal::Recur>(&a62)?); x.comment = vec![text(&a61)]; x }]; x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.tzname = vec![text(&a63), text(&a64)]; x.iana_prop = a65.x_prop.clone(); x }]; x }]; x.version = text(&a1); x }))();
    v.judge(m, h, 15)
}
fn m276(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.date();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.text();
    let a7 = v.status();
    let a8 = v.code();
    let a9 = v.text();
    let a10 = v.text();
    let a11 = v.byte();
    let a12 = v.date_time();
    let a13 = v.text();
    let a14 = v.props();
    let a15 = v.text();
    let a16 = v.date();
    let a17 = v.date_time();
    let a18 = v.duration();
    let a19 = v.trigger();
    let a20 = v.props();
    let a21 = v.props();
    let a22 = v.text();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; ikal::vcalendar! { todo: [ikal::vtodo! { priority: (a11 + 0), last_modified: v.id(&a12), recurid: a2, rstatus: [a7.as_str(), { extdata: a10.clone(), statdesc: a9.as_str(), statcode: a8 }], related_to: [a4.clone(), a5.as_str(), v.id(&a6)], class: Custom(a3.clone()), uid: v.id(&a13), }?, ikal::vtodo! {  }?], freebusy: [], method: Some(ikal::Text::from(a1.as_str())), journals: [ikal::vjournal! { x_prop: a14.x_prop.clone(), summary: v.id(&a15), status: Cancelled, attendee: [], recurid: a16.trim_matches('~'), }?, ikal::vjournal! { class: Public, dtstamp: format!("{}", a17) }?, ikal::vjournal! {  }?], alarms: [ikal::valarm!(@display, )?, ikal::valarm!(@email, )?, ikal::valarm!(@display, x_prop: a20.x_prop.clone(), duration: &a18, iana_prop: a21.x_prop.clone(), trigger: v.id(&a19), description: v.id(&a22),)?] } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.todo = vec![{ let mut x = ikal::VTodo::default(); x.priority = Some(a11); x.last_modified = Some(conv::<ikal::DateTime>(&a12)?); x.recurid = Some(conv::<ikal::Date>(&a2)?); x.rstatus = vec![conv::<ikal::RequestStatus>(&a7)?, ikal::RequestStatus { statcode: a8, statdesc: a9.clone(), extdata: Some(a10.clone()) }]; x.related_to = vec![text(&a4), text(&a5), text(&a6)]; x.class = Some(ikal::Class::Custom(a3.clone())); x.uid = text(&a13); x }, { let mut x = ikal::VTodo::default();  x }]; x.freebusy = vec![]; x.method = Some(text(&a1)); x.journals = vec![{ let mut x = ikal::VJournal::default(); x.x_prop = a14.x_prop.clone(); x.summary = Some(text(&a15)); x.status = Some(ikal::Status::Cancelled); x.attendee = vec![]; x.recurid = Some(conv::<ikal::Date>(&a16)?); x }, { let mut x = ikal::VJournal::default(); x.class = Some(ikal::Class::Public); x.dtstamp = conv::<ikal::DateTime>(&a17)?; x }, { let mut x = ikal::VJournal::default();  x }]; x.alarms = vec![{ let mut x = ikal::valarm::Display::default();  x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }, { let mut x = ikal::valarm::Email::default();  x.action = text("EMAIL"); ikal::VAlarm::Email(x) }, { let mut x = ikal::valarm::Display::default(); x.x_prop = a20.x_prop.clone(); x.duration = Some(length(&a18)?); x.iana_prop = a21.x_prop.clone(); x.trigger = trigger(&a19)?; x.description = text(&a22); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }]; x }))();
    v.judge(m, h, 6)
}
fn m277(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.date();
    let a3 = v.date();
    let a4 = v.date();
    let a5 = v.date();
    let a6 = v.text();
    let a7 = v.date_time();
    let a8 = v.number();
    let a9 = v.uri();
    let a10 = v.duration();
    let a11 = v.text();
    let a12 = v.text();
    let a13 = v.number();
    let a14 = v.text();
    let a15 = v.text();
    let a16 = v.rule();
    let a17 = v.text();
    let a18 = v.text();
    let a19 = v.uri();
    let a20 = v.status();
    let a21 = v.status();
    let a22 = v.code();
    let a23 = v.text();
    let a24 = v.text();
    let a25 = v.uri();
    let a26 = v.uri();
    let a27 = v.props();
    let a28 = v.date_time();
    let a29 = v.text();
    let a30 = v.uri();
    let a31 = v.date_time();
    let a32 = v.props();
    let a33 = v.trigger();
    let a34 = v.text();
    let a35 = v.props();
    let a36 = v.duration();
    let a37 = v.number();
    let a38 = v.trigger();
    let a39 = v.props();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let m = a1.clone(); let result = a2.clone(); let init = a3.clone(); let self_ = a4.clone(); let ret = a5.clone(); let value = a6.clone(); let t = a7.clone(); let ok = a8.clone(); let name = a9.clone(); let b = a10.clone(); let default = a11.clone(); let item = a12.clone(); let f = a13.clone(); let inner = a14.clone(); let output = a15.clone(); let date = a16.clone(); let config = a17.clone(); let n = a18.clone(); let field = a19.clone(); let builder = a20.clone(); let text = a21.clone(); let fields = a22.clone(); let map = a23.clone(); let entry = a24.clone(); let input = a25.clone(); let res = a26.clone(); let event = a27.clone(); let this = a28.clone(); let a = a29.clone(); let parts = a30.clone(); let i = a31.clone(); let c = a32.clone(); let o = a33.clone(); let alarm = a34.clone(); let base = a35.clone(); let d = a36.clone(); let parsed = a37.clone(); let ty = a38.clone(); let err = a39.clone(); ikal::vcalendar! { todo: [ikal::vtodo! { attendee: [input.as_str()], rstatus: [builder, text.clone(), { extdata: entry.clone(), statdesc: map.as_str(), statcode: fields }] }?], events: [ikal::vevent! { attach: [v.id(&default), format!("{}", item)], sequence: (ok | 0), organizer: v.id(&name), transp: Transparent, resources: [value.clone()], exdate: [result.clone(), init.trim_matches('~'), self_.as_str(), ret.as_str()], duration: &b, dtstamp: v.id(&t) }?, ikal::vevent! { location: inner.as_str(), categories: [format!("{}", output)], transp: Transparent, rstatus: [], sequence: (f | 0), rrule: date.as_str(), resources: [v.id(&n)], uid: config.clone(), url: field.as_str() }?], journals: [ikal::vjournal! { created: i.clone(), attendee: [], organizer: res.clone(), description: [v.id(&a)], dtstamp: this.trim_matches('~'), iana_prop: event.x_prop.clone(), url: v.id(&parts) }?], alarms: [ikal::valarm!(@audio, iana_prop: c.x_prop.clone(), trigger: v.id(&o))?, ikal::valarm!(@audio, repeat: parsed, duration: &d, iana_prop: err.x_prop.clone(), trigger: v.id(&ty), attach: [v.id(&alarm)], x_prop: base.x_prop.clone())?], version: format!("{}", m), } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.todo = vec![{ let mut x = ikal::VTodo::default(); x.attendee = vec![uri(&a25)]; x.rstatus = vec![conv::<ikal::RequestStatus>(&a20)?, conv::<ikal::RequestStatus>(&a21)?, ikal::RequestStatus { statcode: a22, statdesc: a23.clone(), extdata: Some(a24.clone()) }]; x }]; x.events = vec![{ let mut x = ikal::VEvent::default(); x.attach = vec![text(&a11), text(&a12)]; x.sequence = Some(a8); x.organizer = Some(uri(&a9)); x.transp = Some(ikal::TimeTransparency::Transparent); x.resources = vec![text(&a6)]; x.exdate = vec![conv::<ikal::Date>(&a2)?, conv::<ikal::Date>(&a3)?, conv::<ikal::Date>(&a4)?, conv::<ikal::Date>(&a5)?]; x.duration = Some(length(&a10)?); x.dtstamp = conv::<ikal::DateTime>(&a7)?; x }, { let mut x = ikal::VEvent::default(); x.location = Some(text(&a14)); x.categories = vec![text(&a15)]; x.transp = Some(ikal::TimeTransparency::Transparent); x.rstatus = vec![]; x.sequence = Some(a13); x.rrule = Some(conv::<ikal::Recur>(&a16)?); x.resources = vec![text(&a18)]; x.uid = text(&a17); x.url = Some(uri(&a19)); x }]; x.journals = vec![{ let mut x = ikal::VJournal::default(); x.created = Some(conv::<ikal::DateTime>(&a31)?); x.attendee = vec![]; x.organizer = Some(uri(&a26)); x.description = vec![text(&a29)]; x.dtstamp = conv::<ikal::DateTime>(&a28)?; x.iana_prop = a27.x_prop.clone(); x.url = Some(uri(&a30)); x }]; x.alarms = vec![{ let mut x = ikal::valarm::Audio::default(); x.iana_prop = a32.x_prop.clone(); x.trigger = trigger(&a33)?; x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }, { let mut x = ikal::valarm::Audio::default(); x.repeat = Some(a37); x.duration = Some(length(&a36)?); x.iana_prop = a39.x_prop.clone(); x.trigger = trigger(&a38)?; x.attach = vec![text(&a34)]; x.x_prop = a35.x_prop.clone(); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }]; x.version = text(&a1); x }))();
    v.judge(m, h, 9)
}
fn m278(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@audio, ) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default();  x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m279(v: &mut V) -> Result<(), String> {
    let a1 = v.trigger();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@audio, trigger: a1.as_str(),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.trigger = trigger(&a1)?; x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m280(v: &mut V) -> Result<(), String> {
    let a1 = v.trigger();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let text = a1.clone(); ikal::valarm!(@audio, trigger: text,) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.trigger = trigger(&a1)?; x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m281(v: &mut V) -> Result<(), String> {
    let a1 = v.duration();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@audio, duration: a1.as_str(),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.duration = Some(length(&a1)?); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m282(v: &mut V) -> Result<(), String> {
    let a1 = v.duration();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let alarm = a1.clone(); ikal::valarm!(@audio, duration: &alarm,) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.duration = Some(length(&a1)?); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m283(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let parsed = a1.clone(); ikal::valarm!(@audio, repeat: parsed,) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.repeat = Some(a1); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m284(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let tmp = a1.clone(); ikal::valarm!(@audio, repeat: tmp,) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.repeat = Some(a1); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m285(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@audio, attach: [a1.clone()]) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.attach = vec![text(&a1)]; x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m286(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@audio, attach: [format!("{}", a1), a2.as_str(), format!("{}", a3)],) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.attach = vec![text(&a1), text(&a2), text(&a3)]; x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m287(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@audio, x_prop: a1.x_prop.clone(),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.x_prop = a1.x_prop.clone(); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m288(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let input = a1.clone(); ikal::valarm!(@audio, x_prop: input.x_prop.clone()) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.x_prop = a1.x_prop.clone(); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m289(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@audio, iana_prop: a1.x_prop.clone(),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.iana_prop = a1.x_prop.clone(); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m290(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let i = a1.clone(); ikal::valarm!(@audio, iana_prop: i.x_prop.clone()) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.iana_prop = a1.x_prop.clone(); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m291(v: &mut V) -> Result<(), String> {
    let a1 = v.trigger();
    let a2 = v.duration();
    let a3 = v.number();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.props();
    let a7 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@audio, repeat: a3, iana_prop: a7.x_prop.clone(), duration: a2.as_str(), x_prop: a6.x_prop.clone(), attach: [v.id(&a4), a5.as_str()], trigger: a1.as_str()) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.repeat = Some(a3); x.iana_prop = a7.x_prop.clone(); x.duration = Some(length(&a2)?); x.x_prop = a6.x_prop.clone(); x.attach = vec![text(&a4), text(&a5)]; x.trigger = trigger(&a1)?; x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 1)
}
fn m292(v: &mut V) -> Result<(), String> {
    let a1 = v.duration();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let default = a1.clone(); ikal::valarm!(@audio, duration: default.as_str(),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.duration = Some(length(&a1)?); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m293(v: &mut V) -> Result<(), String> {
    let a1 = v.trigger();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let dt = a1.clone(); ikal::valarm!(@audio, trigger: dt) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.trigger = trigger(&a1)?; x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m294(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.duration();
    let a3 = v.trigger();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.text();
    let a7 = v.number();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let e = a1.clone(); let map = a2.clone(); let name = a3.clone(); let v = a4.clone(); let values = a5.clone(); let calendar = a6.clone(); let vcalendar = a7.clone(); ikal::valarm!(@audio, duration: &map, attach: [v.clone(), values.as_str(), calendar.clone()], trigger: name.as_str(), repeat: (vcalendar | 0), x_prop: e.x_prop.clone(),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.duration = Some(length(&a2)?); x.attach = vec![text(&a4), text(&a5), text(&a6)]; x.trigger = trigger(&a3)?; x.repeat = Some(a7); x.x_prop = a1.x_prop.clone(); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m295(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let object = a1.clone(); let self_ = a2.clone(); ikal::valarm!(@audio, iana_prop: object.x_prop.clone(), x_prop: self_.x_prop.clone()) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.iana_prop = a1.x_prop.clone(); x.x_prop = a2.x_prop.clone(); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m296(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.trigger();
    let a3 = v.props();
    let a4 = v.number();
    let a5 = v.duration();
    let a6 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let vcalendar = a1.clone(); let s = a2.clone(); let c = a3.clone(); let alarm = a4.clone(); let parts = a5.clone(); let i = a6.clone(); ikal::valarm!(@audio, iana_prop: i.x_prop.clone(), trigger: s, repeat: alarm, x_prop: c.x_prop.clone(), attach: [vcalendar.as_str()], duration: parts.as_str()) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.iana_prop = a6.x_prop.clone(); x.trigger = trigger(&a2)?; x.repeat = Some(a4); x.x_prop = a3.x_prop.clone(); x.attach = vec![text(&a1)]; x.duration = Some(length(&a5)?); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m297(v: &mut V) -> Result<(), String> {
    let a1 = v.trigger();
    let a2 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let ret = a1.clone(); let text = a2.clone(); ikal::valarm!(@audio, trigger: ret, iana_prop: text.x_prop.clone(),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.trigger = trigger(&a1)?; x.iana_prop = a2.x_prop.clone(); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m298(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.number();
    let a3 = v.props();
    let a4 = v.duration();
    let duration = (|| -> ikal::Result<_> { Ok(Some(length(&a4)?)) })().unwrap_or_default();
    let h_duration = duration.clone();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let res = a1.clone(); let input = a2.clone(); let dt = a3.clone(); ikal::valarm!(@audio, iana_prop: res.x_prop.clone(), repeat: (input | 0), x_prop: dt.x_prop.clone(), duration,) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.iana_prop = a1.x_prop.clone(); x.repeat = Some(a2); x.x_prop = a3.x_prop.clone(); x.duration = h_duration.clone(); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m299(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.number();
    let a3 = v.text();
    let attach = (|| -> ikal::Result<_> { Ok(vec![text(&a3)]) })().unwrap_or_default();
    let h_attach = attach.clone();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@audio, attach, repeat: a2, iana_prop: a1.x_prop.clone()) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Audio::default(); x.attach = h_attach.clone(); x.repeat = Some(a2); x.iana_prop = a1.x_prop.clone(); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }))();
    v.judge(m, h, 0)
}
fn m300(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@display, ) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default();  x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m301(v: &mut V) -> Result<(), String> {
    let a1 = v.trigger();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@display, trigger: a1,) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.trigger = trigger(&a1)?; x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m302(v: &mut V) -> Result<(), String> {
    let a1 = v.trigger();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let vcalendar = a1.clone(); ikal::valarm!(@display, trigger: v.id(&vcalendar)) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.trigger = trigger(&a1)?; x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 1)
}
fn m303(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let map = a1.clone(); ikal::valarm!(@display, description: map.as_str()) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.description = text(&a1); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m304(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let tmp = a1.clone(); ikal::valarm!(@display, description: format!("{}", tmp),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.description = text(&a1); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m305(v: &mut V) -> Result<(), String> {
    let a1 = v.duration();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let ast = a1.clone(); ikal::valarm!(@display, duration: ast.as_str(),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.duration = Some(length(&a1)?); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m306(v: &mut V) -> Result<(), String> {
    let a1 = v.duration();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@display, duration: v.id(&a1)) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.duration = Some(length(&a1)?); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 1)
}
fn m307(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let o = a1.clone(); ikal::valarm!(@display, repeat: o) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.repeat = Some(a1); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m308(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let r = a1.clone(); ikal::valarm!(@display, repeat: r) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.repeat = Some(a1); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m309(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let base = a1.clone(); ikal::valarm!(@display, x_prop: base.x_prop.clone(),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.x_prop = a1.x_prop.clone(); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m310(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@display, x_prop: a1.x_prop.clone()) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.x_prop = a1.x_prop.clone(); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m311(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let name = a1.clone(); ikal::valarm!(@display, iana_prop: name.x_prop.clone(),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.iana_prop = a1.x_prop.clone(); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m312(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let base = a1.clone(); ikal::valarm!(@display, iana_prop: base.x_prop.clone(),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.iana_prop = a1.x_prop.clone(); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m313(v: &mut V) -> Result<(), String> {
    let a1 = v.trigger();
    let a2 = v.text();
    let a3 = v.duration();
    let a4 = v.number();
    let a5 = v.props();
    let a6 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let init = a1.clone(); let f = a2.clone(); let vevent = a3.clone(); let parsed = a4.clone(); let n = a5.clone(); let b = a6.clone(); ikal::valarm!(@display, duration: vevent.as_str(), iana_prop: b.x_prop.clone(), description: f.as_str(), trigger: init, x_prop: n.x_prop.clone(), repeat: parsed,) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.duration = Some(length(&a3)?); x.iana_prop = a6.x_prop.clone(); x.description = text(&a2); x.trigger = trigger(&a1)?; x.x_prop = a5.x_prop.clone(); x.repeat = Some(a4); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m314(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let key = a1.clone(); let x = a2.clone(); ikal::valarm!(@display, description: key.as_str(), iana_prop: x.x_prop.clone()) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.description = text(&a1); x.iana_prop = a2.x_prop.clone(); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m315(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@display, ) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default();  x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m316(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let f = a1.clone(); ikal::valarm!(@display, repeat: (f | 0),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.repeat = Some(a1); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m317(v: &mut V) -> Result<(), String> {
    let a1 = v.duration();
    let a2 = v.props();
    let a3 = v.props();
    let a4 = v.number();
    let a5 = v.trigger();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let init = a1.clone(); let ty = a2.clone(); let component = a3.clone(); let inner = a4.clone(); let builder = a5.clone(); ikal::valarm!(@display, x_prop: component.x_prop.clone(), duration: &init, repeat: (inner | 0), iana_prop: ty.x_prop.clone(), trigger: builder.as_str()) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.x_prop = a3.x_prop.clone(); x.duration = Some(length(&a1)?); x.repeat = Some(a4); x.iana_prop = a2.x_prop.clone(); x.trigger = trigger(&a5)?; x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m318(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@display, ) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default();  x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m319(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.props();
    let a3 = v.trigger();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let input = a1.clone(); let name = a2.clone(); let event = a3.clone(); ikal::valarm!(@display, iana_prop: name.x_prop.clone(), x_prop: input.x_prop.clone(), trigger: event,) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.iana_prop = a2.x_prop.clone(); x.x_prop = a1.x_prop.clone(); x.trigger = trigger(&a3)?; x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m320(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.props();
    let a3 = v.duration();
    let a4 = v.number();
    let repeat = (|| -> ikal::Result<_> { Ok(Some(a4)) })().unwrap_or_default();
    let h_repeat = repeat.clone();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@display, iana_prop: a2.x_prop.clone(), description: format!("{}", a1), repeat, duration: &a3) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.iana_prop = a2.x_prop.clone(); x.description = text(&a1); x.repeat = h_repeat.clone(); x.duration = Some(length(&a3)?); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m321(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.number();
    let a3 = v.duration();
    let duration = (|| -> ikal::Result<_> { Ok(Some(length(&a3)?)) })().unwrap_or_default();
    let h_duration = duration.clone();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let vcalendar = a1.clone(); let vevent = a2.clone(); ikal::valarm!(@display, duration, repeat: vevent, description: vcalendar.clone(),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Display::default(); x.duration = h_duration.clone(); x.repeat = Some(a2); x.description = text(&a1); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }))();
    v.judge(m, h, 0)
}
fn m322(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@email, ) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default();  x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m323(v: &mut V) -> Result<(), String> {
    let a1 = v.trigger();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@email, trigger: a1.as_str(),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.trigger = trigger(&a1)?; x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m324(v: &mut V) -> Result<(), String> {
    let a1 = v.trigger();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let event = a1.clone(); ikal::valarm!(@email, trigger: v.id(&event),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.trigger = trigger(&a1)?; x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 1)
}
fn m325(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let f = a1.clone(); ikal::valarm!(@email, description: f.clone()) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.description = text(&a1); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m326(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let vcalendar = a1.clone(); ikal::valarm!(@email, description: vcalendar.clone()) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.description = text(&a1); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m327(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@email, summary: v.id(&a1),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.summary = text(&a1); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 1)
}
fn m328(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@email, summary: format!("{}", a1),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.summary = text(&a1); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m329(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let a2 = v.uri();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let t = a1.clone(); let it = a2.clone(); ikal::valarm!(@email, attendee: [t.clone(), v.id(&it)]) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.attendee = vec![uri(&a1), uri(&a2)]; x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 1)
}
fn m330(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let a2 = v.uri();
    let a3 = v.uri();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let o = a1.clone(); let a = a2.clone(); let field = a3.clone(); ikal::valarm!(@email, attendee: [o.as_str(), a.clone(), field.as_str()],) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.attendee = vec![uri(&a1), uri(&a2), uri(&a3)]; x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m331(v: &mut V) -> Result<(), String> {
    let a1 = v.duration();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let result = a1.clone(); ikal::valarm!(@email, duration: result.as_str()) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.duration = Some(length(&a1)?); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m332(v: &mut V) -> Result<(), String> {
    let a1 = v.duration();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let calendar = a1.clone(); ikal::valarm!(@email, duration: &calendar,) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.duration = Some(length(&a1)?); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m333(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let b = a1.clone(); ikal::valarm!(@email, repeat: b,) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.repeat = Some(a1); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m334(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let default = a1.clone(); ikal::valarm!(@email, repeat: default) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.repeat = Some(a1); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m335(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let it = a1.clone(); let result = a2.clone(); let b = a3.clone(); ikal::valarm!(@email, attach: [it.clone(), v.id(&result), b.as_str()],) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.attach = vec![text(&a1), text(&a2), text(&a3)]; x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 1)
}
fn m336(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let x = a1.clone(); let v = a2.clone(); let n = a3.clone(); ikal::valarm!(@email, attach: [x.as_str(), v.as_str(), format!("{}", n)]) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.attach = vec![text(&a1), text(&a2), text(&a3)]; x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m337(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let event = a1.clone(); ikal::valarm!(@email, x_prop: event.x_prop.clone(),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.x_prop = a1.x_prop.clone(); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m338(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@email, x_prop: a1.x_prop.clone(),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.x_prop = a1.x_prop.clone(); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m339(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let a = a1.clone(); ikal::valarm!(@email, iana_prop: a.x_prop.clone()) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.iana_prop = a1.x_prop.clone(); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m340(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let values = a1.clone(); ikal::valarm!(@email, iana_prop: values.x_prop.clone(),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.iana_prop = a1.x_prop.clone(); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m341(v: &mut V) -> Result<(), String> {
    let a1 = v.trigger();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.uri();
    let a5 = v.uri();
    let a6 = v.uri();
    let a7 = v.duration();
    let a8 = v.number();
    let a9 = v.text();
    let a10 = v.text();
    let a11 = v.props();
    let a12 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let item = a1.clone(); let config = a2.clone(); let alarm = a3.clone(); let c = a4.clone(); let dt = a5.clone(); let list = a6.clone(); let val = a7.clone(); let fields = a8.clone(); let text = a9.clone(); let vcalendar = a10.clone(); let ret = a11.clone(); let e = a12.clone(); ikal::valarm!(@email, description: format!("{}", config), summary: v.id(&alarm), x_prop: ret.x_prop.clone(), iana_prop: e.x_prop.clone(), duration: &val, repeat: fields, trigger: v.id(&item), attach: [text.clone(), vcalendar.clone()], attendee: [c.clone(), v.id(&dt), v.id(&list)],) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.description = text(&a2); x.summary = text(&a3); x.x_prop = a11.x_prop.clone(); x.iana_prop = a12.x_prop.clone(); x.duration = Some(length(&a7)?); x.repeat = Some(a8); x.trigger = trigger(&a1)?; x.attach = vec![text(&a9), text(&a10)]; x.attendee = vec![uri(&a4), uri(&a5), uri(&a6)]; x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 4)
}
fn m342(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let a2 = v.uri();
    let a3 = v.uri();
    let a4 = v.props();
    let a5 = v.text();
    let a6 = v.duration();
    let a7 = v.props();
    let a8 = v.number();
    let a9 = v.text();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@email, iana_prop: a4.x_prop.clone(), attendee: [v.id(&a1), v.id(&a2), a3.as_str()], duration: &a6, summary: v.id(&a9), description: a5.as_str(), x_prop: a7.x_prop.clone(), repeat: a8,) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.iana_prop = a4.x_prop.clone(); x.attendee = vec![uri(&a1), uri(&a2), uri(&a3)]; x.duration = Some(length(&a6)?); x.summary = text(&a9); x.description = text(&a5); x.x_prop = a7.x_prop.clone(); x.repeat = Some(a8); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 3)
}
fn m343(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let a2 = v.text();
    let a3 = v.props();
    let a4 = v.duration();
    let a5 = v.uri();
    let a6 = v.uri();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let default = a1.clone(); let object = a2.clone(); let parsed = a3.clone(); let map = a4.clone(); let f = a5.clone(); let vcalendar = a6.clone(); ikal::valarm!(@email, attendee: [v.id(&f), vcalendar.clone()], description: object.as_str(), duration: map.as_str(), iana_prop: parsed.x_prop.clone(), repeat: (default | 0),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.attendee = vec![uri(&a5), uri(&a6)]; x.description = text(&a2); x.duration = Some(length(&a4)?); x.iana_prop = a3.x_prop.clone(); x.repeat = Some(a1); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 1)
}
fn m344(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.trigger();
    let a3 = v.props();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let ast = a1.clone(); let r = a2.clone(); let res = a3.clone(); ikal::valarm!(@email, trigger: r.as_str(), iana_prop: res.x_prop.clone(), attendee: [], x_prop: ast.x_prop.clone(),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.trigger = trigger(&a2)?; x.iana_prop = a3.x_prop.clone(); x.attendee = vec![]; x.x_prop = a1.x_prop.clone(); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m345(v: &mut V) -> Result<(), String> {
    let a1 = v.duration();
    let a2 = v.props();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.text();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let n = a1.clone(); let component = a2.clone(); let entry = a3.clone(); let b = a4.clone(); let event = a5.clone(); ikal::valarm!(@email, x_prop: component.x_prop.clone(), duration: v.id(&n), attach: [v.id(&b), event.clone()], description: format!("{}", entry),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.x_prop = a2.x_prop.clone(); x.duration = Some(length(&a1)?); x.attach = vec![text(&a4), text(&a5)]; x.description = text(&a3); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 2)
}
fn m346(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let a2 = v.uri();
    let a3 = v.duration();
    let a4 = v.number();
    let a5 = v.text();
    let a6 = v.props();
    let a7 = v.props();
    let a8 = v.text();
    let a9 = v.text();
    let a10 = v.text();
    let a11 = v.trigger();
    let a12 = v.text();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let ast = a1.clone(); let n = a2.clone(); let out = a3.clone(); let c = a4.clone(); let ty = a5.clone(); let err = a6.clone(); let list = a7.clone(); let parsed = a8.clone(); let b = a9.clone(); let x = a10.clone(); let it = a11.clone(); let component = a12.clone(); ikal::valarm!(@email, trigger: it.as_str(), summary: ty.as_str(), duration: v.id(&out), x_prop: err.x_prop.clone(), attach: [parsed.as_str(), format!("{}", b), v.id(&x)], description: v.id(&component), iana_prop: list.x_prop.clone(), attendee: [v.id(&ast), n.as_str()], repeat: (c | 0),) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.trigger = trigger(&a11)?; x.summary = text(&a5); x.duration = Some(length(&a3)?); x.x_prop = a6.x_prop.clone(); x.attach = vec![text(&a8), text(&a9), text(&a10)]; x.description = text(&a12); x.iana_prop = a7.x_prop.clone(); x.attendee = vec![uri(&a1), uri(&a2)]; x.repeat = Some(a4); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 4)
}
fn m347(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@email, ) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default();  x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m348(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.props();
    let a6 = v.text();
    let description = (|| -> ikal::Result<_> { Ok(text(&a6)) })().unwrap_or_default();
    let h_description = description.clone();
    let a7 = v.uri();
    let attendee = (|| -> ikal::Result<_> { Ok(vec![uri(&a7)]) })().unwrap_or_default();
    let h_attendee = attendee.clone();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; ikal::valarm!(@email, repeat: a1, attendee, iana_prop: a5.x_prop.clone(), attach: [format!("{}", a2), format!("{}", a3), a4.clone()], description,) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.repeat = Some(a1); x.attendee = h_attendee.clone(); x.iana_prop = a5.x_prop.clone(); x.attach = vec![text(&a2), text(&a3), text(&a4)]; x.description = h_description.clone(); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m349(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let a2 = v.text();
    let a3 = v.uri();
    let a4 = v.duration();
    let duration = (|| -> ikal::Result<_> { Ok(Some(length(&a4)?)) })().unwrap_or_default();
    let h_duration = duration.clone();
    let a5 = v.text();
    let attach = (|| -> ikal::Result<_> { Ok(vec![text(&a5)]) })().unwrap_or_default();
    let h_attach = attach.clone();
    let m: ikal::Result<ikal::VAlarm> = (|| { let v = &*v; let alarm = a1.clone(); let ast = a2.clone(); let self_ = a3.clone(); ikal::valarm!(@email, repeat: alarm, duration, summary: ast.as_str(), attendee: [self_.as_str()], attach,) })();
    let h: ikal::Result<ikal::VAlarm> = (|| Ok({ let mut x = ikal::valarm::Email::default(); x.repeat = Some(a1); x.duration = h_duration.clone(); x.summary = text(&a2); x.attendee = vec![uri(&a3)]; x.attach = h_attach.clone(); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }))();
    v.judge(m, h, 0)
}
fn m350(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let a2 = v.offset();
    let a3 = v.date();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; ikal::vtimezone! { tzurl: v.id(&a1), standard: [{ dtstart: format!("{}", a3), tzoffsetfrom: v.id(&a2) }], } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.tzurl = Some(uri(&a1)); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.dtstart = conv::<ikal::Date>(&a3)?; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a2)?; x }]; x }))();
    v.judge(m, h, 2)
}
fn m351(v: &mut V) -> Result<(), String> {
    let a1 = v.uri();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; let d = a1.clone(); ikal::vtimezone! { standard: [], daylight: [{  }], tzurl: v.id(&d) } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.standard = vec![]; x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default();  x }]; x.tzurl = Some(uri(&a1)); x }))();
    v.judge(m, h, 1)
}
fn m352(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let a2 = v.offset();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; ikal::vtimezone! { standard: [{ tzoffsetfrom: a2.clone(), dtstart: a1.clone(), }], } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a2)?; x.dtstart = conv::<ikal::Date>(&a1)?; x }]; x }))();
    v.judge(m, h, 0)
}
fn m353(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.offset();
    let a3 = v.props();
    let a4 = v.date();
    let a5 = v.text();
    let a6 = v.text();
    let a7 = v.text();
    let a8 = v.text();
    let a9 = v.text();
    let a10 = v.offset();
    let a11 = v.text();
    let a12 = v.text();
    let a13 = v.props();
    let a14 = v.props();
    let a15 = v.date();
    let a16 = v.props();
    let a17 = v.weekday().weekday;
    let a18 = v.byte() as i8 % 31;
    let a19 = v.offset();
    let a20 = v.props();
    let a21 = v.text();
    let a22 = v.date();
    let a23 = v.props();
    let a24 = v.text();
    let a25 = v.offset();
    let a26 = v.offset();
    let a27 = v.props();
    let a28 = v.text();
    let a29 = v.text();
    let a30 = v.text();
    let a31 = v.text();
    let a32 = v.rule();
    let a33 = v.props();
    let a34 = v.date();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; ikal::vtimezone! { tzid: a1.clone(), standard: [{ comment: [], tzoffsetfrom: format!("{}", a2), tzname: [a5.clone()], x_prop: a3.x_prop.clone(), dtstart: a4.as_str(), }, { tzname: [v.id(&a6), v.id(&a7), format!("{}", a8), a9.clone()], }, { iana_prop: a13.x_prop.clone(), dtstart: a15.clone(), tzoffsetto: v.id(&a10), x_prop: a14.x_prop.clone(), tzname: [a11.clone(), a12.clone()] }], daylight: [{ rrule: { by_monthday: [a18], freq: Daily, wkst: Some(a17.clone()) }, iana_prop: a16.x_prop.clone() }, { comment: [a24.as_str()], iana_prop: a20.x_prop.clone(), tzname: [format!("{}", a21)], x_prop: a23.x_prop.clone(), tzoffsetto: a19, tzoffsetfrom: v.id(&a25), dtstart: a22.clone() }, { x_prop: a33.x_prop.clone(), dtstart: a34.trim_matches('~'), comment: [a28.clone(), format!("{}", a29), a30.as_str(), format!("{}", a31)], iana_prop: a27.x_prop.clone(), rrule: a32.clone(), tzoffsetfrom: a26 }], } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.tzid = text(&a1); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.comment = vec![]; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a2)?; x.tzname = vec![text(&a5)]; x.x_prop = a3.x_prop.clone(); x.dtstart = conv::<ikal::Date>(&a4)?; x }, { let mut x = ikal::vtimezone::Standard::default(); x.tzname = vec![text(&a6), text(&a7), text(&a8), text(&a9)]; x }, { let mut x = ikal::vtimezone::Standard::default(); x.iana_prop = a13.x_prop.clone(); x.dtstart = conv::<ikal::Date>(&a15)?; x.tzoffsetto = conv::<chrono::FixedOffset>(&a10)?; x.x_prop = a14.x_prop.clone(); x.tzname = vec![text(&a11), text(&a12)]; x }]; x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Daily; x.wkst = Some(a17.clone()); x.by_monthday = vec![a18]; x }); x.iana_prop = a16.x_prop.clone(); x }, { let mut x = ikal::vtimezone::Daylight::default(); x.comment = vec![text(&a24)]; x.iana_prop = a20.x_prop.clone(); x.tzname = vec![text(&a21)]; x.x_prop = a23.x_prop.clone(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a19)?; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a25)?; x.dtstart = conv::<ikal::Date>(&a22)?; x }, { let mut x = ikal::vtimezone::Daylight::default(); x.x_prop = a33.x_prop.clone(); x.dtstart = conv::<ikal::Date>(&a34)?; x.comment = vec![text(&a28), text(&a29), text(&a30), text(&a31)]; x.iana_prop = a27.x_prop.clone(); x.rrule = Some(conv::<ikal::Recur>(&a32)?); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a26)?; x }]; x }))();
    v.judge(m, h, 4)
}
fn m354(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let a2 = v.props();
    let a3 = v.props();
    let a4 = v.text();
    let a5 = v.uri();
    let a6 = v.text();
    let a7 = v.text();
    let a8 = v.text();
    let a9 = v.text();
    let a10 = v.text();
    let a11 = v.weekday();
    let a12 = v.byte() as i8 % 24;
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; ikal::vtimezone! { x_prop: a3.x_prop.clone(), tzurl: v.id(&a5), iana_prop: a2.x_prop.clone(), tzid: a4.as_str(), last_modified: format!("{}", a1), daylight: [{ comment: [a6.as_str(), format!("{}", a7)], rrule: { by_hour: [a12, 7], by_day: [a11.clone()], freq: Hourly }, tzname: [v.id(&a8), format!("{}", a9), a10.as_str()], }], } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.x_prop = a3.x_prop.clone(); x.tzurl = Some(uri(&a5)); x.iana_prop = a2.x_prop.clone(); x.tzid = text(&a4); x.last_modified = Some(conv::<ikal::DateTime>(&a1)?); x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.comment = vec![text(&a6), text(&a7)]; x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Hourly; x.by_day = vec![a11.clone()]; x.by_hour = vec![a12, 7]; x }); x.tzname = vec![text(&a8), text(&a9), text(&a10)]; x }]; x }))();
    v.judge(m, h, 2)
}
fn m355(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.text();
    let a3 = v.date_time();
    let a4 = v.weekday().weekday;
    let a5 = v.props();
    let a6 = v.props();
    let a7 = v.offset();
    let a8 = v.props();
    let a9 = v.text();
    let a10 = v.text();
    let a11 = v.text();
    let a12 = v.text();
    let a13 = v.props();
    let a14 = v.offset();
    let a15 = v.props();
    let a16 = v.rule();
    let a17 = v.text();
    let a18 = v.text();
    let a19 = v.text();
    let a20 = v.text();
    let a21 = v.props();
    let a22 = v.offset();
    let a23 = v.text();
    let a24 = v.offset();
    let a25 = v.rule();
    let a26 = v.date();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; let name = a1.clone(); let val = a2.clone(); let vevent = a3.clone(); let calendar = a4.clone(); let err = a5.clone(); let ty = a6.clone(); let d = a7.clone(); let parsed = a8.clone(); let it = a9.clone(); let date = a10.clone(); let component = a11.clone(); let event = a12.clone(); let x = a13.clone(); let self_ = a14.clone(); let b = a15.clone(); let this = a16.clone(); let output = a17.clone(); let m = a18.clone(); let tmp = a19.clone(); let key = a20.clone(); let ast = a21.clone(); let res = a22.clone(); let fields = a23.clone(); let item = a24.clone(); let vcalendar = a25.clone(); let a = a26.clone(); ikal::vtimezone! { tzid: format!("{}", val), standard: [{ comment: [], rrule: { wkst: Some(calendar.clone()), freq: Minutely }, iana_prop: ty.x_prop.clone(), tzoffsetto: d, x_prop: err.x_prop.clone() }, { iana_prop: parsed.x_prop.clone(), x_prop: x.x_prop.clone(), tzoffsetfrom: self_, comment: [v.id(&it), date.as_str(), v.id(&component), event.as_str()] }, { x_prop: b.x_prop.clone(), tzoffsetto: res.clone(), rrule: v.id(&this), iana_prop: ast.x_prop.clone(), tzname: [], comment: [output.clone(), format!("{}", m), tmp.as_str(), v.id(&key)] }], x_prop: name.x_prop.clone(), last_modified: vevent.clone(), daylight: [{ rrule: vcalendar.clone(), dtstart: v.id(&a), tzoffsetto: format!("{}", item), comment: [v.id(&fields)], }], } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.tzid = text(&a2); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.comment = vec![]; x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Minutely; x.wkst = Some(a4.clone()); x }); x.iana_prop = a6.x_prop.clone(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a7)?; x.x_prop = a5.x_prop.clone(); x }, { let mut x = ikal::vtimezone::Standard::default(); x.iana_prop = a8.x_prop.clone(); x.x_prop = a13.x_prop.clone(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a14)?; x.comment = vec![text(&a9), text(&a10), text(&a11), text(&a12)]; x }, { let mut x = ikal::vtimezone::Standard::default(); x.x_prop = a15.x_prop.clone(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a22)?; x.rrule = Some(conv::<ikal::Recur>(&a16)?); x.iana_prop = a21.x_prop.clone(); x.tzname = vec![]; x.comment = vec![text(&a17), text(&a18), text(&a19), text(&a20)]; x }]; x.x_prop = a1.x_prop.clone(); x.last_modified = Some(conv::<ikal::DateTime>(&a3)?); x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.rrule = Some(conv::<ikal::Recur>(&a25)?); x.dtstart = conv::<ikal::Date>(&a26)?; x.tzoffsetto = conv::<chrono::FixedOffset>(&a24)?; x.comment = vec![text(&a23)]; x }]; x }))();
    v.judge(m, h, 6)
}
fn m356(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let a2 = v.day();
    let a3 = v.byte() as i8 % 31;
    let a4 = v.byte() as i8 % 24;
    let a5 = v.weekday().weekday;
    let a6 = v.text();
    let a7 = v.offset();
    let a8 = v.offset();
    let a9 = v.offset();
    let a10 = v.rule();
    let a11 = v.props();
    let a12 = v.date();
    let a13 = v.props();
    let a14 = v.offset();
    let a15 = v.props();
    let a16 = v.text();
    let a17 = v.text();
    let a18 = v.text();
    let a19 = v.offset();
    let a20 = v.text();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; ikal::vtimezone! { daylight: [{ tzoffsetto: a9.trim_matches('~'), x_prop: a11.x_prop.clone(), dtstart: a12.as_str(), rrule: a10.as_str() }, { tzoffsetto: a14.trim_matches('~'), tzname: [format!("{}", a16), a17.clone(), v.id(&a18)], x_prop: a15.x_prop.clone(), iana_prop: a13.x_prop.clone(), comment: [], tzoffsetfrom: a19.clone() }, { comment: [a20.as_str()], }], last_modified: format!("{}", a1), standard: [{ tzoffsetto: a8.as_str(), rrule: { by_monthday: [a3], until: ikal::Date::from(a2), freq: Minutely, by_hour: [a4, 7], wkst: Some(a5.clone()) }, comment: [a6.as_str()], tzoffsetfrom: format!("{}", a7), }], } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a9)?; x.x_prop = a11.x_prop.clone(); x.dtstart = conv::<ikal::Date>(&a12)?; x.rrule = Some(conv::<ikal::Recur>(&a10)?); x }, { let mut x = ikal::vtimezone::Daylight::default(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a14)?; x.tzname = vec![text(&a16), text(&a17), text(&a18)]; x.x_prop = a15.x_prop.clone(); x.iana_prop = a13.x_prop.clone(); x.comment = vec![]; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a19)?; x }, { let mut x = ikal::vtimezone::Daylight::default(); x.comment = vec![text(&a20)]; x }]; x.last_modified = Some(conv::<ikal::DateTime>(&a1)?); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a8)?; x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Minutely; x.until = Some(ikal::Date::Date(a2)); x.by_monthday = vec![a3]; x.by_hour = vec![a4, 7]; x.wkst = Some(a5.clone()); x }); x.comment = vec![text(&a6)]; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a7)?; x }]; x }))();
    v.judge(m, h, 1)
}
fn m357(v: &mut V) -> Result<(), String> {
    let a1 = v.offset();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.weekday().weekday;
    let a6 = v.byte();
    let a7 = v.byte() as i8 % 31;
    let a8 = v.props();
    let a9 = v.props();
    let a10 = v.date();
    let m: ikal::Result<ikal::VTimezone> = (|| { let v = &*v; let r = a1.clone(); let e = a2.clone(); let output = a3.clone(); let x = a4.clone(); let text = a5.clone(); let result = a6.clone(); let key = a7.clone(); let n = a8.clone(); let vevent = a9.clone(); let entry = a10.clone(); ikal::vtimezone! { daylight: [{ tzname: [], x_prop: n.x_prop.clone(), tzoffsetfrom: r.clone(), dtstart: entry.as_str(), iana_prop: vevent.x_prop.clone(), rrule: { count: result, freq: Monthly, by_monthday: [key], wkst: Some(text.clone()) }, comment: [e.clone(), v.id(&output), x.clone()], }], standard: [{  }] } })();
    let h: ikal::Result<ikal::VTimezone> = (|| Ok({ let mut x = ikal::VTimezone::default(); x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.tzname = vec![]; x.x_prop = a8.x_prop.clone(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a1)?; x.dtstart = conv::<ikal::Date>(&a10)?; x.iana_prop = a9.x_prop.clone(); x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Monthly; x.wkst = Some(a5.clone()); x.count = Some(a6); x.by_monthday = vec![a7]; x }); x.comment = vec![text(&a2), text(&a3), text(&a4)]; x }]; x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default();  x }]; x }))();
    v.judge(m, h, 1)
}
fn m358(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.props();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.props();
    let a6 = v.rule();
    let a7 = v.text();
    let a8 = v.text();
    let a9 = v.text();
    let a10 = v.byte();
    let a11 = v.duration();
    let a12 = v.text();
    let a13 = v.text();
    let a14 = v.text();
    let a15 = v.text();
    let a16 = v.text();
    let a17 = v.props();
    let a18 = v.uri();
    let a19 = v.date_time();
    let a20 = v.date_time();
    let a21 = v.uri();
    let a22 = v.uri();
    let a23 = v.uri();
    let a24 = v.date_time();
    let a25 = v.text();
    let a26 = v.props();
    let a27 = v.props();
    let a28 = v.uri();
    let a29 = v.date();
    let a30 = v.date_time();
    let a31 = v.date();
    let a32 = v.period();
    let a33 = v.period();
    let a34 = v.period();
    let a35 = v.period();
    let a36 = v.text();
    let a37 = v.date_time();
    let a38 = v.text();
    let a39 = v.uri();
    let a40 = v.uri();
    let a41 = v.duration();
    let a42 = v.number();
    let a43 = v.trigger();
    let a44 = v.text();
    let a45 = v.text();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; ikal::vcalendar! { alarms: [ikal::valarm!(@audio, )?, ikal::valarm!(@audio, duration: &a41, attach: [a44.clone(), format!("{}", a45)], trigger: a43, repeat: (a42 | 0))?], events: [{ related_to: [a7.as_str(), a8.as_str(), a9.clone()], alarms: [ikal::valarm!(@email, attendee: [a18.as_str()], iana_prop: a17.x_prop.clone(), duration: v.id(&a11), attach: [v.id(&a14), a15.clone(), format!("{}", a16)], summary: format!("{}", a12), description: format!("{}", a13),)?], status: Completed, rrule: v.id(&a6), priority: (a10 + 0), class: Confidential, }], freebusy: [ikal::vfreebusy! { freebusy: [a32.clone(), a33.clone(), a34.clone(), a35.clone()], attendee: [v.id(&a28)], dtstart: a31, contact: v.id(&a36), dtend: a29, dtstamp: a30.clone(), iana_prop: a27.x_prop.clone() }?, ikal::vfreebusy! { dtstamp: a37.as_str(), uid: v.id(&a38), attendee: [a39.clone(), a40.clone()], }?], prodid: a3.clone(), calscale: Some(ikal::Text::from(a1.as_str())), iana_prop: a2.x_prop.clone(), x_prop: a5.x_prop.clone(), journals: [ikal::vjournal! {  }?, ikal::vjournal! {  }?, ikal::vjournal! { last_modified: v.id(&a20), attendee: [v.id(&a21), v.id(&a22), v.id(&a23)], dtstamp: a24.as_str(), x_prop: a26.x_prop.clone(), created: format!("{}", a19), contact: [format!("{}", a25)], status: Cancelled }?], method: Some(ikal::Text::from(a4.as_str())) } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.alarms = vec![{ let mut x = ikal::valarm::Audio::default();  x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }, { let mut x = ikal::valarm::Audio::default(); x.duration = Some(length(&a41)?); x.attach = vec![text(&a44), text(&a45)]; x.trigger = trigger(&a43)?; x.repeat = Some(a42); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }]; x.events = vec![{ let mut x = ikal::VEvent::default(); x.related_to = vec![text(&a7), text(&a8), text(&a9)]; x.alarms = vec![{ let mut x = ikal::valarm::Email::default(); x.attendee = vec![uri(&a18)]; x.iana_prop = a17.x_prop.clone(); x.duration = Some(length(&a11)?); x.attach = vec![text(&a14), text(&a15), text(&a16)]; x.summary = text(&a12); x.description = text(&a13); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }]; x.status = Some(ikal::Status::Completed); x.rrule = Some(conv::<ikal::Recur>(&a6)?); x.priority = Some(a10); x.class = Some(ikal::Class::Confidential); x }]; x.freebusy = vec![{ let mut x = ikal::VFreebusy::default(); x.freebusy = vec![a32.clone(), a33.clone(), a34.clone(), a35.clone()]; x.attendee = vec![uri(&a28)]; x.dtstart = Some(conv::<ikal::Date>(&a31)?); x.contact = Some(text(&a36)); x.dtend = Some(conv::<ikal::Date>(&a29)?); x.dtstamp = conv::<ikal::DateTime>(&a30)?; x.iana_prop = a27.x_prop.clone(); x }, { let mut x = ikal::VFreebusy::default(); x.dtstamp = conv::<ikal::DateTime>(&a37)?; x.uid = text(&a38); x.attendee = vec![uri(&a39), uri(&a40)]; x }]; x.prodid = text(&a3); x.calscale = Some(text(&a1)); x.iana_prop = a2.x_prop.clone(); x.x_prop = a5.x_prop.clone(); x.journals = vec![{ let mut x = ikal::VJournal::default();  x }, { let mut x = ikal::VJournal::default();  x }, { let mut x = ikal::VJournal::default(); x.last_modified = Some(conv::<ikal::DateTime>(&a20)?); x.attendee = vec![uri(&a21), uri(&a22), uri(&a23)]; x.dtstamp = conv::<ikal::DateTime>(&a24)?; x.x_prop = a26.x_prop.clone(); x.created = Some(conv::<ikal::DateTime>(&a19)?); x.contact = vec![text(&a25)]; x.status = Some(ikal::Status::Cancelled); x }]; x.method = Some(text(&a4)); x }))();
    v.judge(m, h, 10)
}
fn m359(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.props();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.date();
    let a7 = v.text();
    let a8 = v.text();
    let a9 = v.byte();
    let a10 = v.date();
    let a11 = v.byte();
    let a12 = v.props();
    let a13 = v.duration();
    let a14 = v.number();
    let a15 = v.trigger();
    let a16 = v.props();
    let a17 = v.props();
    let a18 = v.props();
    let a19 = v.trigger();
    let a20 = v.trigger();
    let a21 = v.uri();
    let a22 = v.duration();
    let a23 = v.number();
    let a24 = v.text();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let input = a1.clone(); let res = a2.clone(); let tmp = a3.clone(); let date = a4.clone(); let value = a5.clone(); let text = a6.clone(); let f = a7.clone(); let result = a8.clone(); let init = a9.clone(); let d = a10.clone(); let n = a11.clone(); let name = a12.clone(); let map = a13.clone(); let values = a14.clone(); let item = a15.clone(); let object = a16.clone(); let ty = a17.clone(); let a = a18.clone(); let dt = a19.clone(); let e = a20.clone(); let base = a21.clone(); let alarm = a22.clone(); let vevent = a23.clone(); let it = a24.clone(); ikal::vcalendar! { events: [], version: tmp.as_str(), journals: [], todo: [ikal::vtodo! { location: format!("{}", value), recurid: text.trim_matches('~'), percent_complete: (init + 0), contact: [f.clone(), format!("{}", result)], priority: (n + 0), dtstart: d.as_str() }?], iana_prop: input.x_prop.clone(), alarms: [ikal::valarm!(@display, x_prop: ty.x_prop.clone(), iana_prop: object.x_prop.clone(), trigger: v.id(&item), repeat: (values | 0), duration: map.as_str(),)?, ikal::valarm!(@email, trigger: dt, x_prop: a.x_prop.clone())?, ikal::valarm!(@email, trigger: e.as_str(), attendee: [base.clone()], attach: [], description: it.as_str(), duration: v.id(&alarm), repeat: vevent)?], timezones: [], freebusy: [ikal::vfreebusy! { x_prop: name.x_prop.clone() }?], x_prop: res.x_prop.clone(), method: Some(ikal::Text::from(date.as_str())), } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.events = vec![]; x.version = text(&a3); x.journals = vec![]; x.todo = vec![{ let mut x = ikal::VTodo::default(); x.location = Some(text(&a5)); x.recurid = Some(conv::<ikal::Date>(&a6)?); x.percent_complete = Some(a9); x.contact = vec![text(&a7), text(&a8)]; x.priority = Some(a11); x.dtstart = Some(conv::<ikal::Date>(&a10)?); x }]; x.iana_prop = a1.x_prop.clone(); x.alarms = vec![{ let mut x = ikal::valarm::Display::default(); x.x_prop = a17.x_prop.clone(); x.iana_prop = a16.x_prop.clone(); x.trigger = trigger(&a15)?; x.repeat = Some(a14); x.duration = Some(length(&a13)?); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }, { let mut x = ikal::valarm::Email::default(); x.trigger = trigger(&a19)?; x.x_prop = a18.x_prop.clone(); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }, { let mut x = ikal::valarm::Email::default(); x.trigger = trigger(&a20)?; x.attendee = vec![uri(&a21)]; x.attach = vec![]; x.description = text(&a24); x.duration = Some(length(&a22)?); x.repeat = Some(a23); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }]; x.timezones = vec![]; x.freebusy = vec![{ let mut x = ikal::VFreebusy::default(); x.x_prop = a12.x_prop.clone(); x }]; x.x_prop = a2.x_prop.clone(); x.method = Some(text(&a4)); x }))();
    v.judge(m, h, 2)
}
fn m360(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.text();
    let a3 = v.props();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.text();
    let a7 = v.uri();
    let a8 = v.uri();
    let a9 = v.number();
    let a10 = v.date_time();
    let a11 = v.props();
    let a12 = v.uri();
    let a13 = v.text();
    let a14 = v.date();
    let a15 = v.date();
    let a16 = v.date();
    let a17 = v.text();
    let a18 = v.uri();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; ikal::vcalendar! { todo: [ikal::vtodo! { summary: v.id(&a6), class: Private, }?, ikal::vtodo! { sequence: a9, organizer: a8.as_str(), completed: a10.as_str(), url: a7.as_str(), }?, ikal::vtodo! { iana_prop: a11.x_prop.clone(), organizer: a12.as_str(), exdate: [format!("{}", a14), format!("{}", a15), a16.trim_matches('~')], summary: v.id(&a17), related_to: [a13.clone()] }?], freebusy: [ikal::vfreebusy! { organizer: v.id(&a18) }?], iana_prop: a3.x_prop.clone(), prodid: format!("{}", a4), method: Some(ikal::Text::from(a2.as_str())), x_prop: a1.x_prop.clone(), calscale: Some(ikal::Text::from(a5.as_str())), } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.todo = vec![{ let mut x = ikal::VTodo::default(); x.summary = Some(text(&a6)); x.class = Some(ikal::Class::Private); x }, { let mut x = ikal::VTodo::default(); x.sequence = Some(a9); x.organizer = Some(uri(&a8)); x.completed = Some(conv::<ikal::DateTime>(&a10)?); x.url = Some(uri(&a7)); x }, { let mut x = ikal::VTodo::default(); x.iana_prop = a11.x_prop.clone(); x.organizer = Some(uri(&a12)); x.exdate = vec![conv::<ikal::Date>(&a14)?, conv::<ikal::Date>(&a15)?, conv::<ikal::Date>(&a16)?]; x.summary = Some(text(&a17)); x.related_to = vec![text(&a13)]; x }]; x.freebusy = vec![{ let mut x = ikal::VFreebusy::default(); x.organizer = Some(uri(&a18)); x }]; x.iana_prop = a3.x_prop.clone(); x.prodid = text(&a4); x.method = Some(text(&a2)); x.x_prop = a1.x_prop.clone(); x.calscale = Some(text(&a5)); x }))();
    v.judge(m, h, 3)
}
fn m361(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.props();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.text();
    let a7 = v.date_time();
    let a8 = v.text();
    let a9 = v.text();
    let a10 = v.text();
    let a11 = v.text();
    let a12 = v.date_time();
    let a13 = v.props();
    let a14 = v.text();
    let a15 = v.uri();
    let a16 = v.date_time();
    let a17 = v.date();
    let a18 = v.code();
    let a19 = v.text();
    let a20 = v.props();
    let a21 = v.date_time();
    let a22 = v.text();
    let a23 = v.date();
    let a24 = v.text();
    let a25 = v.date();
    let a26 = v.status();
    let a27 = v.uri();
    let a28 = v.duration();
    let a29 = v.number();
    let a30 = v.props();
    let a31 = v.trigger();
    let a32 = v.text();
    let a33 = v.text();
    let a34 = v.number();
    let a35 = v.text();
    let a36 = v.props();
    let a37 = v.duration();
    let a38 = v.text();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let default = a1.clone(); let text = a2.clone(); let vcalendar = a3.clone(); let alarm = a4.clone(); let map = a5.clone(); let builder = a6.clone(); let val = a7.clone(); let date = a8.clone(); let component = a9.clone(); let list = a10.clone(); let field = a11.clone(); let t = a12.clone(); let d = a13.clone(); let err = a14.clone(); let value = a15.clone(); let x = a16.clone(); let vevent = a17.clone(); let base = a18.clone(); let c = a19.clone(); let calendar = a20.clone(); let init = a21.clone(); let parsed = a22.clone(); let o = a23.clone(); let self_ = a24.clone(); let item = a25.clone(); let f = a26.clone(); let m = a27.clone(); let tmp = a28.clone(); let input = a29.clone(); let i = a30.clone(); let parts = a31.clone(); let result = a32.clone(); let ty = a33.clone(); let it = a34.clone(); let ok = a35.clone(); let r = a36.clone(); let event = a37.clone(); let entry = a38.clone(); ikal::vcalendar! { journals: [ikal::vjournal! { last_modified: v.id(&t), created: format!("{}", val), attach: [date.clone(), v.id(&component), v.id(&list), v.id(&field)] }?], freebusy: [ikal::vfreebusy! { attendee: [value.as_str()], uid: err.clone(), iana_prop: d.x_prop.clone(), comment: [], x_prop: calendar.x_prop.clone(), dtstamp: x.trim_matches('~'), rstatus: [{ statcode: base, statdesc: c.as_str() }], dtstart: vevent, }?, ikal::vfreebusy! { dtstart: item, dtend: format!("{}", o), uid: v.id(&self_), contact: parsed.as_str(), rstatus: [format!("{}", f)], dtstamp: init.as_str(), }?, ikal::vfreebusy! {  }?], version: map.as_str(), todo: [], x_prop: text.x_prop.clone(), iana_prop: default.x_prop.clone(), calscale: Some(ikal::Text::from(alarm.as_str())), method: Some(ikal::Text::from(builder.as_str())), alarms: [ikal::valarm!(@email, attendee: [v.id(&m)], duration: &tmp, iana_prop: i.x_prop.clone(), repeat: (input | 0),)?, ikal::valarm!(@email, description: format!("{}", entry), summary: ok.as_str(), attach: [result.as_str(), ty.as_str()], iana_prop: r.x_prop.clone(), repeat: (it | 0), trigger: parts.as_str(), duration: event.as_str())?], prodid: format!("{}", vcalendar), } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.journals = vec![{ let mut x = ikal::VJournal::default(); x.last_modified = Some(conv::<ikal::DateTime>(&a12)?); x.created = Some(conv::<ikal::DateTime>(&a7)?); x.attach = vec![text(&a8), text(&a9), text(&a10), text(&a11)]; x }]; x.freebusy = vec![{ let mut x = ikal::VFreebusy::default(); x.attendee = vec![uri(&a15)]; x.uid = text(&a14); x.iana_prop = a13.x_prop.clone(); x.comment = vec![]; x.x_prop = a20.x_prop.clone(); x.dtstamp = conv::<ikal::DateTime>(&a16)?; x.rstatus = vec![ikal::RequestStatus { statcode: a18, statdesc: a19.clone(), extdata: None }]; x.dtstart = Some(conv::<ikal::Date>(&a17)?); x }, { let mut x = ikal::VFreebusy::default(); x.dtstart = Some(conv::<ikal::Date>(&a25)?); x.dtend = Some(conv::<ikal::Date>(&a23)?); x.uid = text(&a24); x.contact = Some(text(&a22)); x.rstatus = vec![conv::<ikal::RequestStatus>(&a26)?]; x.dtstamp = conv::<ikal::DateTime>(&a21)?; x }, { let mut x = ikal::VFreebusy::default();  x }]; x.version = text(&a5); x.todo = vec![]; x.x_prop = a2.x_prop.clone(); x.iana_prop = a1.x_prop.clone(); x.calscale = Some(text(&a4)); x.method = Some(text(&a6)); x.alarms = vec![{ let mut x = ikal::valarm::Email::default(); x.attendee = vec![uri(&a27)]; x.duration = Some(length(&a28)?); x.iana_prop = a30.x_prop.clone(); x.repeat = Some(a29); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }, { let mut x = ikal::valarm::Email::default(); x.description = text(&a38); x.summary = text(&a35); x.attach = vec![text(&a32), text(&a33)]; x.iana_prop = a36.x_prop.clone(); x.repeat = Some(a34); x.trigger = trigger(&a31)?; x.duration = Some(length(&a37)?); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }]; x.prodid = text(&a3); x }))();
    v.judge(m, h, 6)
}
fn m362(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.duration();
    let a7 = v.date();
    let a8 = v.text();
    let a9 = v.uri();
    let a10 = v.text();
    let a11 = v.text();
    let a12 = v.duration();
    let a13 = v.code();
    let a14 = v.text();
    let a15 = v.code();
    let a16 = v.text();
    let a17 = v.text();
    let a18 = v.props();
    let a19 = v.uri();
    let a20 = v.byte();
    let a21 = v.uri();
    let a22 = v.uri();
    let a23 = v.uri();
    let a24 = v.date_time();
    let a25 = v.period();
    let a26 = v.period();
    let a27 = v.period();
    let a28 = v.code();
    let a29 = v.text();
    let a30 = v.props();
    let a31 = v.date();
    let a32 = v.date();
    let a33 = v.text();
    let a34 = v.props();
    let a35 = v.props();
    let a36 = v.props();
    let a37 = v.date_time();
    let a38 = v.uri();
    let a39 = v.rule();
    let a40 = v.text();
    let a41 = v.text();
    let a42 = v.text();
    let a43 = v.uri();
    let a44 = v.props();
    let a45 = v.props();
    let a46 = v.offset();
    let a47 = v.date();
    let a48 = v.offset();
    let a49 = v.date();
    let a50 = v.text();
    let a51 = v.props();
    let a52 = v.props();
    let a53 = v.offset();
    let a54 = v.text();
    let a55 = v.text();
    let a56 = v.text();
    let a57 = v.props();
    let a58 = v.offset();
    let a59 = v.date();
    let a60 = v.offset();
    let a61 = v.props();
    let a62 = v.props();
    let a63 = v.text();
    let a64 = v.text();
    let a65 = v.offset();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let val = a1.clone(); let result = a2.clone(); let dt = a3.clone(); let ok = a4.clone(); let f = a5.clone(); let field = a6.clone(); let ret = a7.clone(); let output = a8.clone(); let config = a9.clone(); let x = a10.clone(); let r = a11.clone(); let base = a12.clone(); let event = a13.clone(); let b = a14.clone(); let out = a15.clone(); let res = a16.clone(); let alarm = a17.clone(); let s = a18.clone(); let vevent = a19.clone(); let list = a20.clone(); let a = a21.clone(); let name = a22.clone(); let t = a23.clone(); let self_ = a24.clone(); let err = a25.clone(); let entry = a26.clone(); let this = a27.clone(); let date = a28.clone(); let c = a29.clone(); let input = a30.clone(); let fields = a31.clone(); let default = a32.clone(); let calendar = a33.clone(); let d = a34.clone(); let m = a35.clone(); let init = a36.clone(); let item = a37.clone(); let key = a38.clone(); let parts = a39.clone(); let i = a40.clone(); let object = a41.clone(); let it = a42.clone(); let map = a43.clone(); let e = a44.clone(); let parsed = a45.clone(); let tmp = a46.clone(); let ast = a47.clone(); let values = a48.clone(); let text = a49.clone(); let o = a50.clone(); let component = a51.clone(); let ty = a52.clone(); let inner = a53.clone(); let builder = a54.clone(); let vcalendar = a55.clone(); let value = a56.clone(); let n = a57.clone(); ikal::vcalendar! { timezones: [ikal::vtimezone! { last_modified: item, tzurl: v.id(&key), x_prop: init.x_prop.clone(), daylight: [{ rrule: parts.clone(), comment: [i.clone(), v.id(&object)], }, {  }], iana_prop: m.x_prop.clone(), }?, ikal::vtimezone! { standard: [{ tzoffsetto: tmp, tzoffsetfrom: values, dtstart: ast.clone() }, { iana_prop: component.x_prop.clone(), dtstart: text.trim_matches('~'), comment: [o.clone()] }], tzid: format!("{}", it), x_prop: e.x_prop.clone(), iana_prop: parsed.x_prop.clone(), tzurl: v.id(&map), }?, ikal::vtimezone! { daylight: [{ iana_prop: a62.x_prop.clone(), comment: [], tzoffsetfrom: a65, x_prop: a61.x_prop.clone(), tzoffsetto: a60.trim_matches('~'), tzname: [format!("{}", a63), format!("{}", a64)] }, {  }], standard: [{ tzoffsetto: a58, comment: [], iana_prop: n.x_prop.clone(), rrule: { freq: Secondly }, tzname: [builder.as_str(), vcalendar.as_str(), value.as_str()], dtstart: v.id(&a59), tzoffsetfrom: format!("{}", inner) }], x_prop: ty.x_prop.clone(), }?], alarms: [], journals: [], freebusy: [ikal::vfreebusy! { uid: format!("{}", calendar), rstatus: [{ statdesc: c.as_str(), statcode: date }], attendee: [a.as_str(), v.id(&name), t.as_str()], iana_prop: d.x_prop.clone(), dtstamp: format!("{}", self_), dtstart: default.as_str(), x_prop: input.x_prop.clone(), freebusy: [err.clone(), entry.clone(), this.clone()], dtend: fields.as_str() }?], events: [{ resources: [format!("{}", dt), ok.as_str(), v.id(&f)], alarms: [ikal::valarm!(@email, )?], duration: field.as_str() }, { dtend: ret.clone(), class: Private, rstatus: [{ statcode: event, statdesc: b.as_str() }, { statdesc: res.as_str(), statcode: out, extdata: alarm.clone() }], x_prop: s.x_prop.clone(), duration: base.as_str(), url: v.id(&vevent), organizer: v.id(&config), related_to: [x.clone(), v.id(&r)], description: output.clone() }, { alarms: [], }], x_prop: val.x_prop.clone(), version: result.as_str(), todo: [ikal::vtodo! { priority: list, }?], } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.timezones = vec![{ let mut x = ikal::VTimezone::default(); x.last_modified = Some(conv::<ikal::DateTime>(&a37)?); x.tzurl = Some(uri(&a38)); x.x_prop = a36.x_prop.clone(); x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.rrule = Some(conv::<ikal::Recur>(&a39)?); x.comment = vec![text(&a40), text(&a41)]; x }, { let mut x = ikal::vtimezone::Daylight::default();  x }]; x.iana_prop = a35.x_prop.clone(); x }, { let mut x = ikal::VTimezone::default(); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a46)?; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a48)?; x.dtstart = conv::<ikal::Date>(&a47)?; x }, { let mut x = ikal::vtimezone::Standard::default(); x.iana_prop = a51.x_prop.clone(); x.dtstart = conv::<ikal::Date>(&a49)?; x.comment = vec![text(&a50)]; x }]; x.tzid = text(&a42); x.x_prop = a44.x_prop.clone(); x.iana_prop = a45.x_prop.clone(); x.tzurl = Some(uri(&a43)); x }, { let mut x = ikal::VTimezone::default(); x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.iana_prop = a62.x_prop.clone(); x.comment = vec![]; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a65)?; x.x_prop = a61.x_prop.clone(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a60)?; x.tzname = vec![text(&a63), text(&a64)]; x }, { let mut x = ikal::vtimezone::Daylight::default();  x }]; x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a58)?; x.comment = vec![]; x.iana_prop = a57.x_prop.clone(); x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Secondly; x }); x.tzname = vec![text(&a54), text(&a55), text(&a56)]; x.dtstart = conv::<ikal::Date>(&a59)?; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a53)?; x }]; x.x_prop = a52.x_prop.clone(); x }]; x.alarms = vec![]; x.journals = vec![]; x.freebusy = vec![{ let mut x = ikal::VFreebusy::default(); x.uid = text(&a33); x.rstatus = vec![ikal::RequestStatus { statcode: a28, statdesc: a29.clone(), extdata: None }]; x.attendee = vec![uri(&a21), uri(&a22), uri(&a23)]; x.iana_prop = a34.x_prop.clone(); x.dtstamp = conv::<ikal::DateTime>(&a24)?; x.dtstart = Some(conv::<ikal::Date>(&a32)?); x.x_prop = a30.x_prop.clone(); x.freebusy = vec![a25.clone(), a26.clone(), a27.clone()]; x.dtend = Some(conv::<ikal::Date>(&a31)?); x }]; x.events = vec![{ let mut x = ikal::VEvent::default(); x.resources = vec![text(&a3), text(&a4), text(&a5)]; x.alarms = vec![{ let mut x = ikal::valarm::Email::default();  x.action = text("EMAIL"); ikal::VAlarm::Email(x) }]; x.duration = Some(length(&a6)?); x }, { let mut x = ikal::VEvent::default(); x.dtend = Some(conv::<ikal::Date>(&a7)?); x.class = Some(ikal::Class::Private); x.rstatus = vec![ikal::RequestStatus { statcode: a13, statdesc: a14.clone(), extdata: None }, ikal::RequestStatus { statcode: a15, statdesc: a16.clone(), extdata: Some(a17.clone()) }]; x.x_prop = a18.x_prop.clone(); x.duration = Some(length(&a12)?); x.url = Some(uri(&a19)); x.organizer = Some(uri(&a9)); x.related_to = vec![text(&a10), text(&a11)]; x.description = Some(text(&a8)); x }, { let mut x = ikal::VEvent::default(); x.alarms = vec![]; x }]; x.x_prop = a1.x_prop.clone(); x.version = text(&a2); x.todo = vec![{ let mut x = ikal::VTodo::default(); x.priority = Some(a20); x }]; x }))();
    v.judge(m, h, 9)
}
fn m363(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let a2 = v.number();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.date();
    let a7 = v.props();
    let a8 = v.duration();
    let a9 = v.props();
    let a10 = v.date();
    let a11 = v.date();
    let a12 = v.props();
    let a13 = v.uri();
    let a14 = v.duration();
    let a15 = v.uri();
    let a16 = v.number();
    let a17 = v.props();
    let a18 = v.text();
    let a19 = v.props();
    let a20 = v.text();
    let a21 = v.text();
    let a22 = v.text();
    let a23 = v.trigger();
    let a24 = v.number();
    let a25 = v.text();
    let a26 = v.text();
    let a27 = v.number();
    let a28 = v.text();
    let a29 = v.uri();
    let a30 = v.uri();
    let a31 = v.trigger();
    let a32 = v.props();
    let a33 = v.props();
    let a34 = v.text();
    let a35 = v.rule();
    let a36 = v.text();
    let a37 = v.uri();
    let a38 = v.uri();
    let a39 = v.number();
    let a40 = v.props();
    let a41 = v.date();
    let a42 = v.date_time();
    let a43 = v.date();
    let a44 = v.text();
    let a45 = v.uri();
    let a46 = v.uri();
    let a47 = v.uri();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; ikal::vcalendar! { alarms: [], journals: [ikal::vjournal! { dtstart: a43.as_str(), uid: a44.clone(), attendee: [a45.as_str(), a46.as_str(), a47.clone()] }?], events: [{ dtstamp: a1.trim_matches('~'), recurid: format!("{}", a6), sequence: a2, exdate: [], related_to: [a3.as_str(), format!("{}", a4), v.id(&a5)], alarms: [ikal::valarm!(@audio, x_prop: a7.x_prop.clone(),)?, ikal::valarm!(@audio, attach: [], duration: v.id(&a8), iana_prop: a9.x_prop.clone(),)?], }, { alarms: [ikal::valarm!(@audio, repeat: a16,)?, ikal::valarm!(@email, iana_prop: a19.x_prop.clone(), summary: a18.clone(), x_prop: a17.x_prop.clone(), attach: [v.id(&a20), a21.clone(), a22.as_str()], repeat: (a24 | 0), attendee: [], trigger: a23.as_str(),)?, ikal::valarm!(@email, iana_prop: a32.x_prop.clone(), attach: [v.id(&a25), a26.as_str()], repeat: a27, x_prop: a33.x_prop.clone(), trigger: a31, summary: format!("{}", a28), attendee: [a29.clone(), a30.as_str()], description: a34.clone(),)?], recurid: v.id(&a10), organizer: a13.clone(), status: Cancelled, duration: &a14, iana_prop: a12.x_prop.clone(), dtend: a11, url: a15.clone() }, { dtstart: a41.as_str(), attendee: [a37.as_str(), a38.clone()], sequence: (a39 | 0), location: a36.clone(), x_prop: a40.x_prop.clone(), rrule: a35.as_str(), created: a42, exdate: [] }], } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.alarms = vec![]; x.journals = vec![{ let mut x = ikal::VJournal::default(); x.dtstart = conv::<ikal::Date>(&a43)?; x.uid = text(&a44); x.attendee = vec![uri(&a45), uri(&a46), uri(&a47)]; x }]; x.events = vec![{ let mut x = ikal::VEvent::default(); x.dtstamp = conv::<ikal::DateTime>(&a1)?; x.recurid = Some(conv::<ikal::Date>(&a6)?); x.sequence = Some(a2); x.exdate = vec![]; x.related_to = vec![text(&a3), text(&a4), text(&a5)]; x.alarms = vec![{ let mut x = ikal::valarm::Audio::default(); x.x_prop = a7.x_prop.clone(); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }, { let mut x = ikal::valarm::Audio::default(); x.attach = vec![]; x.duration = Some(length(&a8)?); x.iana_prop = a9.x_prop.clone(); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }]; x }, { let mut x = ikal::VEvent::default(); x.alarms = vec![{ let mut x = ikal::valarm::Audio::default(); x.repeat = Some(a16); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }, { let mut x = ikal::valarm::Email::default(); x.iana_prop = a19.x_prop.clone(); x.summary = text(&a18); x.x_prop = a17.x_prop.clone(); x.attach = vec![text(&a20), text(&a21), text(&a22)]; x.repeat = Some(a24); x.attendee = vec![]; x.trigger = trigger(&a23)?; x.action = text("EMAIL"); ikal::VAlarm::Email(x) }, { let mut x = ikal::valarm::Email::default(); x.iana_prop = a32.x_prop.clone(); x.attach = vec![text(&a25), text(&a26)]; x.repeat = Some(a27); x.x_prop = a33.x_prop.clone(); x.trigger = trigger(&a31)?; x.summary = text(&a28); x.attendee = vec![uri(&a29), uri(&a30)]; x.description = text(&a34); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }]; x.recurid = Some(conv::<ikal::Date>(&a10)?); x.organizer = Some(uri(&a13)); x.status = Some(ikal::Status::Cancelled); x.duration = Some(length(&a14)?); x.iana_prop = a12.x_prop.clone(); x.dtend = Some(conv::<ikal::Date>(&a11)?); x.url = Some(uri(&a15)); x }, { let mut x = ikal::VEvent::default(); x.dtstart = conv::<ikal::Date>(&a41)?; x.attendee = vec![uri(&a37), uri(&a38)]; x.sequence = Some(a39); x.location = Some(text(&a36)); x.x_prop = a40.x_prop.clone(); x.rrule = Some(conv::<ikal::Recur>(&a35)?); x.created = Some(conv::<ikal::DateTime>(&a42)?); x.exdate = vec![]; x }]; x }))();
    v.judge(m, h, 5)
}
fn m364(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.props();
    let a5 = v.number();
    let a6 = v.text();
    let a7 = v.text();
    let a8 = v.text();
    let a9 = v.text();
    let a10 = v.uri();
    let a11 = v.duration();
    let a12 = v.uri();
    let a13 = v.float();
    let a14 = v.float();
    let a15 = v.text();
    let a16 = v.text();
    let a17 = v.props();
    let a18 = v.text();
    let a19 = v.date();
    let a20 = v.props();
    let a21 = v.text();
    let a22 = v.props();
    let a23 = v.date_time();
    let a24 = v.props();
    let a25 = v.text();
    let a26 = v.props();
    let a27 = v.props();
    let a28 = v.offset();
    let a29 = v.offset();
    let a30 = v.offset();
    let a31 = v.text();
    let a32 = v.date();
    let a33 = v.props();
    let a34 = v.weekday();
    let a35 = v.weekday().weekday;
    let a36 = v.byte() as i8 % 24;
    let a37 = v.byte();
    let a38 = v.props();
    let a39 = v.text();
    let a40 = v.date();
    let a41 = v.props();
    let a42 = v.props();
    let a43 = v.text();
    let a44 = v.offset();
    let a45 = v.rule();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let t = a1.clone(); let vevent = a2.clone(); let out = a3.clone(); let tmp = a4.clone(); let r = a5.clone(); let c = a6.clone(); let value = a7.clone(); let component = a8.clone(); let object = a9.clone(); let alarm = a10.clone(); let parsed = a11.clone(); let text = a12.clone(); let input = a13.clone(); let ast = a14.clone(); let n = a15.clone(); let item = a16.clone(); let default = a17.clone(); let val = a18.clone(); let s = a19.clone(); let vcalendar = a20.clone(); let i = a21.clone(); let res = a22.clone(); let it = a23.clone(); let x = a24.clone(); let calendar = a25.clone(); let date = a26.clone(); let self_ = a27.clone(); let f = a28.clone(); let builder = a29.clone(); let err = a30.clone(); let ok = a31.clone(); let ty = a32.clone(); let output = a33.clone(); let field = a34.clone(); let e = a35.clone(); let parts = a36.clone(); let init = a37.clone(); let o = a38.clone(); let map = a39.clone(); let list = a40.clone(); let event = a41.clone(); let d = a42.clone(); let values = a43.clone(); let result = a44.clone(); let entry = a45.clone(); ikal::vcalendar! { prodid: format!("{}", out), freebusy: [ikal::vfreebusy! { uid: i.as_str() }?], timezones: [ikal::vtimezone! { tzid: v.id(&calendar), last_modified: it, x_prop: res.x_prop.clone(), iana_prop: x.x_prop.clone(), standard: [{ x_prop: self_.x_prop.clone(), iana_prop: date.x_prop.clone(), tzoffsetto: f.clone(), tzname: [] }, { dtstart: v.id(&ty), tzoffsetfrom: err.trim_matches('~'), tzoffsetto: builder.trim_matches('~'), iana_prop: o.x_prop.clone(), tzname: [], x_prop: output.x_prop.clone(), comment: [ok.clone()], rrule: { by_day: [field.clone()], count: init, by_hour: [parts, 7], freq: Daily, wkst: Some(e.clone()) }, }, { comment: [map.as_str()], iana_prop: event.x_prop.clone(), tzoffsetfrom: result.clone(), rrule: entry.trim_matches('~'), dtstart: v.id(&list), tzname: [values.as_str()], x_prop: d.x_prop.clone() }], }?], todo: [ikal::vtodo! {  }?, ikal::vtodo! { related_to: [], iana_prop: default.x_prop.clone() }?, ikal::vtodo! { due: s, comment: [val.as_str()], x_prop: vcalendar.x_prop.clone(), }?], x_prop: tmp.x_prop.clone(), calscale: Some(ikal::Text::from(t.as_str())), events: [{ uid: c.clone(), categories: [], geo: { lat: input, lon: ast }, duration: parsed.as_str(), organizer: v.id(&text), url: alarm.as_str(), comment: [n.clone(), v.id(&item)], contact: [v.id(&value), component.clone(), v.id(&object)], sequence: (r | 0), }], version: v.id(&vevent), } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.prodid = text(&a3); x.freebusy = vec![{ let mut x = ikal::VFreebusy::default(); x.uid = text(&a21); x }]; x.timezones = vec![{ let mut x = ikal::VTimezone::default(); x.tzid = text(&a25); x.last_modified = Some(conv::<ikal::DateTime>(&a23)?); x.x_prop = a22.x_prop.clone(); x.iana_prop = a24.x_prop.clone(); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.x_prop = a27.x_prop.clone(); x.iana_prop = a26.x_prop.clone(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a28)?; x.tzname = vec![]; x }, { let mut x = ikal::vtimezone::Standard::default(); x.dtstart = conv::<ikal::Date>(&a32)?; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a30)?; x.tzoffsetto = conv::<chrono::FixedOffset>(&a29)?; x.iana_prop = a38.x_prop.clone(); x.tzname = vec![]; x.x_prop = a33.x_prop.clone(); x.comment = vec![text(&a31)]; x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Daily; x.by_day = vec![a34.clone()]; x.wkst = Some(a35.clone()); x.by_hour = vec![a36, 7]; x.count = Some(a37); x }); x }, { let mut x = ikal::vtimezone::Standard::default(); x.comment = vec![text(&a39)]; x.iana_prop = a41.x_prop.clone(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a44)?; x.rrule = Some(conv::<ikal::Recur>(&a45)?); x.dtstart = conv::<ikal::Date>(&a40)?; x.tzname = vec![text(&a43)]; x.x_prop = a42.x_prop.clone(); x }]; x }]; x.todo = vec![{ let mut x = ikal::VTodo::default();  x }, { let mut x = ikal::VTodo::default(); x.related_to = vec![]; x.iana_prop = a17.x_prop.clone(); x }, { let mut x = ikal::VTodo::default(); x.due = Some(conv::<ikal::Date>(&a19)?); x.comment = vec![text(&a18)]; x.x_prop = a20.x_prop.clone(); x }]; x.x_prop = a4.x_prop.clone(); x.calscale = Some(text(&a1)); x.events = vec![{ let mut x = ikal::VEvent::default(); x.uid = text(&a6); x.categories = vec![]; x.geo = Some(ikal::Geo { lat: a13, lon: a14 }); x.duration = Some(length(&a11)?); x.organizer = Some(uri(&a12)); x.url = Some(uri(&a10)); x.comment = vec![text(&a15), text(&a16)]; x.contact = vec![text(&a7), text(&a8), text(&a9)]; x.sequence = Some(a5); x }]; x.version = text(&a2); x }))();
    v.judge(m, h, 8)
}
fn m365(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.uri();
    let a3 = v.date();
    let a4 = v.text();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let config = a1.clone(); let output = a2.clone(); let calendar = a3.clone(); let i = a4.clone(); ikal::vcalendar! { freebusy: [ikal::vfreebusy! { dtend: calendar.as_str(), contact: i.clone(), attendee: [output.clone()] }?], method: Some(ikal::Text::from(config.as_str())), events: [], } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.freebusy = vec![{ let mut x = ikal::VFreebusy::default(); x.dtend = Some(conv::<ikal::Date>(&a3)?); x.contact = Some(text(&a4)); x.attendee = vec![uri(&a2)]; x }]; x.method = Some(text(&a1)); x.events = vec![]; x }))();
    v.judge(m, h, 0)
}
fn m366(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.status();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.text();
    let a7 = v.text();
    let a8 = v.date();
    let a9 = v.text();
    let a10 = v.text();
    let a11 = v.text();
    let a12 = v.text();
    let a13 = v.duration();
    let a14 = v.date();
    let a15 = v.date_time();
    let a16 = v.props();
    let a17 = v.props();
    let a18 = v.code();
    let a19 = v.text();
    let a20 = v.date();
    let a21 = v.text();
    let a22 = v.uri();
    let a23 = v.uri();
    let a24 = v.uri();
    let a25 = v.uri();
    let a26 = v.uri();
    let a27 = v.text();
    let a28 = v.uri();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; ikal::vcalendar! { events: [{ comment: [a5.clone(), a6.clone(), a7.as_str()], dtstart: a8.trim_matches('~'), contact: [format!("{}", a10), v.id(&a11), v.id(&a12)], status: Final, categories: [format!("{}", a3)], rstatus: [a2.as_str()], uid: v.id(&a4), location: v.id(&a9), duration: &a13, }], freebusy: [ikal::vfreebusy! { dtstart: a14 }?, ikal::vfreebusy! { x_prop: a17.x_prop.clone(), iana_prop: a16.x_prop.clone(), dtstamp: a15.trim_matches('~'), }?, ikal::vfreebusy! { url: a28.clone(), organizer: a26.as_str(), dtend: v.id(&a20), attendee: [a22.clone(), a23.clone(), a24.as_str(), a25.clone()], rstatus: [{ statcode: a18, statdesc: a19.as_str() }], uid: a27.as_str(), contact: a21.clone(), }?], iana_prop: a1.x_prop.clone() } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.events = vec![{ let mut x = ikal::VEvent::default(); x.comment = vec![text(&a5), text(&a6), text(&a7)]; x.dtstart = conv::<ikal::Date>(&a8)?; x.contact = vec![text(&a10), text(&a11), text(&a12)]; x.status = Some(ikal::Status::Final); x.categories = vec![text(&a3)]; x.rstatus = vec![conv::<ikal::RequestStatus>(&a2)?]; x.uid = text(&a4); x.location = Some(text(&a9)); x.duration = Some(length(&a13)?); x }]; x.freebusy = vec![{ let mut x = ikal::VFreebusy::default(); x.dtstart = Some(conv::<ikal::Date>(&a14)?); x }, { let mut x = ikal::VFreebusy::default(); x.x_prop = a17.x_prop.clone(); x.iana_prop = a16.x_prop.clone(); x.dtstamp = conv::<ikal::DateTime>(&a15)?; x }, { let mut x = ikal::VFreebusy::default(); x.url = Some(uri(&a28)); x.organizer = Some(uri(&a26)); x.dtend = Some(conv::<ikal::Date>(&a20)?); x.attendee = vec![uri(&a22), uri(&a23), uri(&a24), uri(&a25)]; x.rstatus = vec![ikal::RequestStatus { statcode: a18, statdesc: a19.clone(), extdata: None }]; x.uid = text(&a27); x.contact = Some(text(&a21)); x }]; x.iana_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 5)
}
fn m367(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.date_time();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.text();
    let a7 = v.number();
    let a8 = v.date_time();
    let a9 = v.date();
    let a10 = v.text();
    let a11 = v.code();
    let a12 = v.text();
    let a13 = v.date();
    let a14 = v.date();
    let a15 = v.trigger();
    let a16 = v.props();
    let a17 = v.number();
    let a18 = v.trigger();
    let a19 = v.text();
    let a20 = v.uri();
    let a21 = v.text();
    let a22 = v.props();
    let a23 = v.number();
    let a24 = v.date();
    let a25 = v.uri();
    let a26 = v.uri();
    let a27 = v.text();
    let a28 = v.date_time();
    let a29 = v.code();
    let a30 = v.text();
    let a31 = v.uri();
    let a32 = v.uri();
    let a33 = v.date_time();
    let a34 = v.props();
    let a35 = v.text();
    let a36 = v.number();
    let a37 = v.date_time();
    let a38 = v.uri();
    let a39 = v.text();
    let a40 = v.props();
    let a41 = v.props();
    let a42 = v.date();
    let a43 = v.text();
    let a44 = v.text();
    let a45 = v.text();
    let a46 = v.text();
    let a47 = v.text();
    let a48 = v.text();
    let a49 = v.text();
    let a50 = v.props();
    let a51 = v.props();
    let a52 = v.offset();
    let a53 = v.props();
    let a54 = v.props();
    let a55 = v.text();
    let a56 = v.text();
    let a57 = v.text();
    let a58 = v.text();
    let a59 = v.text();
    let a60 = v.text();
    let a61 = v.offset();
    let a62 = v.props();
    let a63 = v.text();
    let a64 = v.text();
    let a65 = v.text();
    let a66 = v.text();
    let a67 = v.offset();
    let a68 = v.offset();
    let a69 = v.rule();
    let a70 = v.offset();
    let a71 = v.date();
    let a72 = v.props();
    let a73 = v.text();
    let a74 = v.text();
    let a75 = v.text();
    let a76 = v.props();
    let a77 = v.props();
    let a78 = v.props();
    let a79 = v.text();
    let a80 = v.date();
    let a81 = v.offset();
    let a82 = v.offset();
    let a83 = v.rule();
    let a84 = v.text();
    let a85 = v.duration();
    let a86 = v.props();
    let a87 = v.trigger();
    let a88 = v.props();
    let a89 = v.number();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let i = a1.clone(); let n = a2.clone(); let e = a3.clone(); let ok = a4.clone(); let output = a5.clone(); let parts = a6.clone(); let vevent = a7.clone(); let f = a8.clone(); let entry = a9.clone(); let component = a10.clone(); let o = a11.clone(); let ret = a12.clone(); let result = a13.clone(); let values = a14.clone(); let ast = a15.clone(); let res = a16.clone(); let date = a17.clone(); let base = a18.clone(); let b = a19.clone(); let object = a20.clone(); let list = a21.clone(); let builder = a22.clone(); let key = a23.clone(); let tmp = a24.clone(); let text = a25.clone(); let val = a26.clone(); let parsed = a27.clone(); let input = a28.clone(); let dt = a29.clone(); let map = a30.clone(); let fields = a31.clone(); let event = a32.clone(); let vcalendar = a33.clone(); let m = a34.clone(); let err = a35.clone(); let t = a36.clone(); let field = a37.clone(); let ty = a38.clone(); let out = a39.clone(); let alarm = a40.clone(); let item = a41.clone(); let this = a42.clone(); let config = a43.clone(); let it = a44.clone(); let r = a45.clone(); let x = a46.clone(); let name = a47.clone(); let a = a48.clone(); let c = a49.clone(); let s = a50.clone(); let calendar = a51.clone(); let default = a52.clone(); let inner = a53.clone(); let init = a54.clone(); let d = a55.clone(); let self_ = a56.clone(); let value = a57.clone(); ikal::vcalendar! { version: v.id(&i), alarms: [ikal::valarm!(@display, x_prop: a86.x_prop.clone(), repeat: (a89 | 0), description: a84.clone(), trigger: a87, duration: a85.as_str(), iana_prop: a88.x_prop.clone())?, ikal::valarm!(@display, )?], timezones: [ikal::vtimezone! { last_modified: field.clone(), daylight: [{ comment: [a63.as_str(), a64.clone(), format!("{}", a65), a66.clone()], tzoffsetfrom: format!("{}", a68), rrule: v.id(&a69), tzoffsetto: a67.clone(), x_prop: a62.x_prop.clone() }, { dtstart: a71.as_str(), iana_prop: a76.x_prop.clone(), tzname: [v.id(&a73), a74.as_str(), v.id(&a75)], x_prop: a72.x_prop.clone(), tzoffsetto: a70, }, { rrule: format!("{}", a83), comment: [], dtstart: a80.trim_matches('~'), x_prop: a77.x_prop.clone(), tzoffsetfrom: a82, tzname: [a79.clone()], iana_prop: a78.x_prop.clone(), tzoffsetto: a81.trim_matches('~'), }], tzid: format!("{}", out), x_prop: alarm.x_prop.clone(), standard: [{ x_prop: s.x_prop.clone(), tzname: [x.as_str(), name.as_str(), a.clone(), c.as_str()], dtstart: this.as_str(), comment: [config.as_str(), it.clone(), r.clone()], iana_prop: calendar.x_prop.clone() }, { x_prop: inner.x_prop.clone(), tzoffsetfrom: v.id(&default), }, { comment: [d.as_str(), self_.clone(), value.clone()], iana_prop: init.x_prop.clone(), tzoffsetfrom: a61.clone(), tzname: [format!("{}", a58), format!("{}", a59), a60.as_str()], }], iana_prop: item.x_prop.clone(), tzurl: ty.clone(), }?], journals: [ikal::vjournal! { sequence: t, iana_prop: m.x_prop.clone(), summary: err.clone() }?], todo: [ikal::vtodo! {  }?, ikal::vtodo! { recurid: tmp, attendee: [text.as_str(), val.clone()], }?, ikal::vtodo! { organizer: v.id(&fields), last_modified: format!("{}", vcalendar), rstatus: [{ statcode: dt, statdesc: map.as_str() }], url: event.as_str(), class: Private, location: parsed.clone(), status: NeedsAction, completed: input.as_str(), }?], method: Some(ikal::Text::from(n.as_str())), events: [{ rstatus: [{ statcode: o, statdesc: ret.as_str() }], exdate: [result, format!("{}", values)], created: e.clone(), sequence: vevent, recurid: v.id(&entry), class: Private, alarms: [ikal::valarm!(@audio, trigger: v.id(&ast),)?, ikal::valarm!(@display, trigger: base, iana_prop: res.x_prop.clone(), repeat: (date | 0), description: b.as_str())?, ikal::valarm!(@email, repeat: key, iana_prop: builder.x_prop.clone(), attendee: [object.as_str()], description: list.clone())?], contact: [ok.clone(), output.clone(), format!("{}", parts)], summary: component.as_str(), last_modified: f.clone() }], } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.version = text(&a1); x.alarms = vec![{ let mut x = ikal::valarm::Display::default(); x.x_prop = a86.x_prop.clone(); x.repeat = Some(a89); x.description = text(&a84); x.trigger = trigger(&a87)?; x.duration = Some(length(&a85)?); x.iana_prop = a88.x_prop.clone(); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }, { let mut x = ikal::valarm::Display::default();  x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }]; x.timezones = vec![{ let mut x = ikal::VTimezone::default(); x.last_modified = Some(conv::<ikal::DateTime>(&a37)?); x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.comment = vec![text(&a63), text(&a64), text(&a65), text(&a66)]; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a68)?; x.rrule = Some(conv::<ikal::Recur>(&a69)?); x.tzoffsetto = conv::<chrono::FixedOffset>(&a67)?; x.x_prop = a62.x_prop.clone(); x }, { let mut x = ikal::vtimezone::Daylight::default(); x.dtstart = conv::<ikal::Date>(&a71)?; x.iana_prop = a76.x_prop.clone(); x.tzname = vec![text(&a73), text(&a74), text(&a75)]; x.x_prop = a72.x_prop.clone(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a70)?; x }, { let mut x = ikal::vtimezone::Daylight::default(); x.rrule = Some(conv::<ikal::Recur>(&a83)?); x.comment = vec![]; x.dtstart = conv::<ikal::Date>(&a80)?; x.x_prop = a77.x_prop.clone(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a82)?; x.tzname = vec![text(&a79)]; x.iana_prop = a78.x_prop.clone(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a81)?; x }]; x.tzid = text(&a39); x.x_prop = a40.x_prop.clone(); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.x_prop = a50.x_prop.clone(); x.tzname = vec![text(&a46), text(&a47), text(&a48), text(&a49)]; x.dtstart = conv::<ikal::Date>(&a42)?; x.comment = vec![text(&a43), text(&a44), text(&a45)]; x.iana_prop = a51.x_prop.clone(); x }, { let mut x = ikal::vtimezone::Standard::default(); x.x_prop = a53.x_prop.clone(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a52)?; x }, { let mut x = ikal::vtimezone::Standard::default(); x.comment = vec![text(&a55), text(&a56), text(&a57)]; x.iana_prop = a54.x_prop.clone(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a61)?; x.tzname = vec![text(&a58), text(&a59), text(&a60)]; x }]; x.iana_prop = a41.x_prop.clone(); x.tzurl = Some(uri(&a38)); x }]; x.journals = vec![{ let mut x = ikal::VJournal::default(); x.sequence = Some(a36); x.iana_prop = a34.x_prop.clone(); x.summary = Some(text(&a35)); x }]; x.todo = vec![{ let mut x = ikal::VTodo::default();  x }, { let mut x = ikal::VTodo::default(); x.recurid = Some(conv::<ikal::Date>(&a24)?); x.attendee = vec![uri(&a25), uri(&a26)]; x }, { let mut x = ikal::VTodo::default(); x.organizer = Some(uri(&a31)); x.last_modified = Some(conv::<ikal::DateTime>(&a33)?); x.rstatus = vec![ikal::RequestStatus { statcode: a29, statdesc: a30.clone(), extdata: None }]; x.url = Some(uri(&a32)); x.class = Some(ikal::Class::Private); x.location = Some(text(&a27)); x.status = Some(ikal::Status::NeedsAction); x.completed = Some(conv::<ikal::DateTime>(&a28)?); x }]; x.method = Some(text(&a2)); x.events = vec![{ let mut x = ikal::VEvent::default(); x.rstatus = vec![ikal::RequestStatus { statcode: a11, statdesc: a12.clone(), extdata: None }]; x.exdate = vec![conv::<ikal::Date>(&a13)?, conv::<ikal::Date>(&a14)?]; x.created = Some(conv::<ikal::DateTime>(&a3)?); x.sequence = Some(a7); x.recurid = Some(conv::<ikal::Date>(&a9)?); x.class = Some(ikal::Class::Private); x.alarms = vec![{ let mut x = ikal::valarm::Audio::default(); x.trigger = trigger(&a15)?; x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }, { let mut x = ikal::valarm::Display::default(); x.trigger = trigger(&a18)?; x.iana_prop = a16.x_prop.clone(); x.repeat = Some(a17); x.description = text(&a19); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }, { let mut x = ikal::valarm::Email::default(); x.repeat = Some(a23); x.iana_prop = a22.x_prop.clone(); x.attendee = vec![uri(&a20)]; x.description = text(&a21); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }]; x.contact = vec![text(&a4), text(&a5), text(&a6)]; x.summary = Some(text(&a10)); x.last_modified = Some(conv::<ikal::DateTime>(&a8)?); x }]; x }))();
    v.judge(m, h, 8)
}
fn m368(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let a2 = v.props();
    let a3 = v.uri();
    let a4 = v.props();
    let a5 = v.text();
    let a6 = v.text();
    let a7 = v.text();
    let a8 = v.props();
    let a9 = v.props();
    let a10 = v.offset();
    let a11 = v.text();
    let a12 = v.date();
    let a13 = v.rule();
    let a14 = v.props();
    let a15 = v.offset();
    let a16 = v.text();
    let a17 = v.text();
    let a18 = v.text();
    let a19 = v.props();
    let a20 = v.text();
    let a21 = v.text();
    let a22 = v.props();
    let a23 = v.rule();
    let a24 = v.props();
    let a25 = v.offset();
    let a26 = v.offset();
    let a27 = v.date();
    let a28 = v.props();
    let a29 = v.props();
    let a30 = v.text();
    let a31 = v.date_time();
    let a32 = v.date();
    let a33 = v.rule();
    let a34 = v.props();
    let a35 = v.offset();
    let a36 = v.props();
    let a37 = v.offset();
    let a38 = v.rule();
    let a39 = v.offset();
    let a40 = v.props();
    let a41 = v.props();
    let a42 = v.offset();
    let a43 = v.text();
    let a44 = v.text();
    let a45 = v.text();
    let a46 = v.text();
    let a47 = v.date();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let s = a1.clone(); let fields = a2.clone(); let field = a3.clone(); let f = a4.clone(); let text = a5.clone(); let base = a6.clone(); let key = a7.clone(); let n = a8.clone(); let d = a9.clone(); let i = a10.clone(); let value = a11.clone(); let output = a12.clone(); let vcalendar = a13.clone(); let object = a14.clone(); let ret = a15.clone(); let init = a16.clone(); let component = a17.clone(); let ty = a18.clone(); let out = a19.clone(); let alarm = a20.clone(); let x = a21.clone(); let inner = a22.clone(); let t = a23.clone(); let date = a24.clone(); let self_ = a25.clone(); let c = a26.clone(); let ast = a27.clone(); let item = a28.clone(); let todo = a29.clone(); let val = a30.clone(); let ok = a31.clone(); let entry = a32.clone(); let map = a33.clone(); let parts = a34.clone(); let vevent = a35.clone(); let this = a36.clone(); let input = a37.clone(); let name = a38.clone(); let dt = a39.clone(); let values = a40.clone(); let b = a41.clone(); let r = a42.clone(); let builder = a43.clone(); let o = a44.clone(); let default = a45.clone(); let calendar = a46.clone(); let e = a47.clone(); ikal::vcalendar! { timezones: [ikal::vtimezone! { last_modified: s.clone(), iana_prop: fields.x_prop.clone(), tzid: text.as_str(), standard: [{ iana_prop: n.x_prop.clone(), tzname: [v.id(&base), key.as_str()], x_prop: d.x_prop.clone(), }, {  }, { dtstart: output.trim_matches('~'), rrule: vcalendar, tzoffsetto: ret.trim_matches('~'), tzname: [value.clone()], comment: [v.id(&init), format!("{}", component), ty.as_str()], iana_prop: object.x_prop.clone(), tzoffsetfrom: v.id(&i), }], x_prop: f.x_prop.clone(), tzurl: field.as_str(), }?, ikal::vtimezone! { daylight: [{ tzname: [], tzoffsetfrom: c.trim_matches('~'), iana_prop: date.x_prop.clone(), tzoffsetto: self_.trim_matches('~'), dtstart: ast.clone() }], standard: [{ x_prop: out.x_prop.clone() }, { comment: [alarm.clone(), x.as_str()], x_prop: inner.x_prop.clone() }, { rrule: format!("{}", t) }], }?, ikal::vtimezone! { daylight: [{ dtstart: format!("{}", entry), tzoffsetto: format!("{}", input), comment: [], x_prop: this.x_prop.clone(), rrule: map, iana_prop: parts.x_prop.clone(), tzoffsetfrom: vevent.as_str() }, { dtstart: format!("{}", e), comment: [v.id(&builder), v.id(&o), default.clone(), calendar.clone()], iana_prop: values.x_prop.clone(), x_prop: b.x_prop.clone(), tzoffsetfrom: dt, rrule: name, tzoffsetto: r.as_str() }], tzid: val.clone(), iana_prop: todo.x_prop.clone(), standard: [], x_prop: item.x_prop.clone(), last_modified: ok.trim_matches('~') }?], } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.timezones = vec![{ let mut x = ikal::VTimezone::default(); x.last_modified = Some(conv::<ikal::DateTime>(&a1)?); x.iana_prop = a2.x_prop.clone(); x.tzid = text(&a5); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.iana_prop = a8.x_prop.clone(); x.tzname = vec![text(&a6), text(&a7)]; x.x_prop = a9.x_prop.clone(); x }, { let mut x = ikal::vtimezone::Standard::default();  x }, { let mut x = ikal::vtimezone::Standard::default(); x.dtstart = conv::<ikal::Date>(&a12)?; x.rrule = Some(conv::<ikal::Recur>(&a13)?); x.tzoffsetto = conv::<chrono::FixedOffset>(&a15)?; x.tzname = vec![text(&a11)]; x.comment = vec![text(&a16), text(&a17), text(&a18)]; x.iana_prop = a14.x_prop.clone(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a10)?; x }]; x.x_prop = a4.x_prop.clone(); x.tzurl = Some(uri(&a3)); x }, { let mut x = ikal::VTimezone::default(); x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.tzname = vec![]; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a26)?; x.iana_prop = a24.x_prop.clone(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a25)?; x.dtstart = conv::<ikal::Date>(&a27)?; x }]; x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.x_prop = a19.x_prop.clone(); x }, { let mut x = ikal::vtimezone::Standard::default(); x.comment = vec![text(&a20), text(&a21)]; x.x_prop = a22.x_prop.clone(); x }, { let mut x = ikal::vtimezone::Standard::default(); x.rrule = Some(conv::<ikal::Recur>(&a23)?); x }]; x }, { let mut x = ikal::VTimezone::default(); x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.dtstart = conv::<ikal::Date>(&a32)?; x.tzoffsetto = conv::<chrono::FixedOffset>(&a37)?; x.comment = vec![]; x.x_prop = a36.x_prop.clone(); x.rrule = Some(conv::<ikal::Recur>(&a33)?); x.iana_prop = a34.x_prop.clone(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a35)?; x }, { let mut x = ikal::vtimezone::Daylight::default(); x.dtstart = conv::<ikal::Date>(&a47)?; x.comment = vec![text(&a43), text(&a44), text(&a45), text(&a46)]; x.iana_prop = a40.x_prop.clone(); x.x_prop = a41.x_prop.clone(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a39)?; x.rrule = Some(conv::<ikal::Recur>(&a38)?); x.tzoffsetto = conv::<chrono::FixedOffset>(&a42)?; x }]; x.tzid = text(&a30); x.iana_prop = a29.x_prop.clone(); x.standard = vec![]; x.x_prop = a28.x_prop.clone(); x.last_modified = Some(conv::<ikal::DateTime>(&a31)?); x }]; x }))();
    v.judge(m, h, 5)
}
fn m369(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.text();
    let a3 = v.props();
    let a4 = v.text();
    let a5 = v.date();
    let a6 = v.text();
    let a7 = v.text();
    let a8 = v.date();
    let a9 = v.text();
    let a10 = v.text();
    let a11 = v.text();
    let a12 = v.uri();
    let a13 = v.date();
    let a14 = v.date_time();
    let a15 = v.text();
    let a16 = v.text();
    let a17 = v.props();
    let a18 = v.trigger();
    let a19 = v.number();
    let a20 = v.trigger();
    let a21 = v.props();
    let a22 = v.date_time();
    let a23 = v.date_time();
    let a24 = v.uri();
    let a25 = v.uri();
    let a26 = v.uri();
    let a27 = v.uri();
    let a28 = v.text();
    let a29 = v.date_time();
    let a30 = v.text();
    let a31 = v.uri();
    let a32 = v.text();
    let a33 = v.date();
    let a34 = v.props();
    let a35 = v.props();
    let a36 = v.offset();
    let a37 = v.date();
    let a38 = v.props();
    let a39 = v.text();
    let a40 = v.text();
    let a41 = v.text();
    let a42 = v.text();
    let a43 = v.props();
    let a44 = v.text();
    let a45 = v.text();
    let a46 = v.text();
    let a47 = v.day();
    let a48 = v.byte();
    let a49 = v.offset();
    let a50 = v.date_time();
    let a51 = v.props();
    let a52 = v.uri();
    let a53 = v.props();
    let a54 = v.text();
    let a55 = v.offset();
    let a56 = v.props();
    let a57 = v.text();
    let a58 = v.props();
    let a59 = v.offset();
    let a60 = v.rule();
    let a61 = v.text();
    let a62 = v.date();
    let a63 = v.props();
    let a64 = v.offset();
    let a65 = v.text();
    let a66 = v.text();
    let a67 = v.text();
    let a68 = v.text();
    let a69 = v.text();
    let a70 = v.text();
    let a71 = v.text();
    let a72 = v.date();
    let a73 = v.offset();
    let a74 = v.props();
    let a75 = v.props();
    let a76 = v.offset();
    let a77 = v.text();
    let a78 = v.text();
    let a79 = v.duration();
    let a80 = v.number();
    let a81 = v.text();
    let a82 = v.trigger();
    let a83 = v.text();
    let a84 = v.duration();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let res = a1.clone(); let fields = a2.clone(); let self_ = a3.clone(); let c = a4.clone(); let err = a5.clone(); let o = a6.clone(); let text = a7.clone(); let b = a8.clone(); let parts = a9.clone(); let x = a10.clone(); let ty = a11.clone(); let input = a12.clone(); let it = a13.clone(); let map = a14.clone(); let name = a15.clone(); let this = a16.clone(); let ok = a17.clone(); let entry = a18.clone(); let event = a19.clone(); let m = a20.clone(); let t = a21.clone(); let field = a22.clone(); let i = a23.clone(); let output = a24.clone(); let ret = a25.clone(); let dt = a26.clone(); let r = a27.clone(); let ast = a28.clone(); let key = a29.clone(); let n = a30.clone(); let todo = a31.clone(); let tmp = a32.clone(); let item = a33.clone(); let object = a34.clone(); let values = a35.clone(); let default = a36.clone(); let calendar = a37.clone(); let val = a38.clone(); let date = a39.clone(); let a = a40.clone(); let parsed = a41.clone(); let config = a42.clone(); let alarm = a43.clone(); let e = a44.clone(); let vcalendar = a45.clone(); let builder = a46.clone(); let list = a47.clone(); let out = a48.clone(); let f = a49.clone(); let inner = a50.clone(); let s = a51.clone(); let result = a52.clone(); let value = a53.clone(); let init = a54.clone(); let base = a55.clone(); let component = a56.clone(); let d = a57.clone(); ikal::vcalendar! { method: Some(ikal::Text::from(c.as_str())), freebusy: [ikal::vfreebusy! { attendee: [output.as_str(), ret.as_str(), dt.as_str(), r.clone()], contact: v.id(&ast) }?, ikal::vfreebusy! {  }?], alarms: [ikal::valarm!(@display, repeat: (a80 | 0), duration: a79.as_str(), description: v.id(&a81), trigger: a82.as_str())?, ikal::valarm!(@email, )?, ikal::valarm!(@email, summary: a83.clone(), duration: v.id(&a84),)?], timezones: [ikal::vtimezone! { daylight: [{  }], tzid: n.as_str(), tzurl: todo.clone(), standard: [{ x_prop: values.x_prop.clone(), tzname: [tmp.clone()], iana_prop: object.x_prop.clone(), dtstart: format!("{}", item), tzoffsetto: default.trim_matches('~') }, { x_prop: val.x_prop.clone(), tzname: [date.as_str(), a.as_str(), parsed.as_str(), format!("{}", config)], iana_prop: alarm.x_prop.clone(), rrule: { interval: out, freq: Daily, until: ikal::Date::from(list) }, tzoffsetfrom: f.as_str(), comment: [e.as_str(), vcalendar.clone(), v.id(&builder)], dtstart: v.id(&calendar), }], last_modified: key }?, ikal::vtimezone! { x_prop: value.x_prop.clone(), standard: [{ rrule: a60.clone(), tzname: [d.as_str()], comment: [a61.as_str()], tzoffsetfrom: base.clone(), dtstart: a62, tzoffsetto: v.id(&a59), iana_prop: component.x_prop.clone(), x_prop: a58.x_prop.clone(), }, { tzname: [a65.clone(), v.id(&a66), format!("{}", a67)], tzoffsetto: v.id(&a64), x_prop: a63.x_prop.clone() }, { tzname: [a68.clone(), a69.as_str(), a70.as_str(), a71.as_str()], dtstart: a72, }], tzurl: v.id(&result), iana_prop: s.x_prop.clone(), daylight: [{ x_prop: a74.x_prop.clone(), comment: [v.id(&a77), a78.clone()], tzoffsetto: a76.clone(), tzoffsetfrom: a73.clone(), iana_prop: a75.x_prop.clone() }], tzid: format!("{}", init), last_modified: inner }?], iana_prop: res.x_prop.clone(), events: [ikal::vevent! { attach: [format!("{}", parts), v.id(&x), ty.clone()], url: input.as_str(), recurid: v.id(&err), created: map.trim_matches('~'), dtstart: it.trim_matches('~'), alarms: [ikal::valarm!(@display, description: format!("{}", this), trigger: v.id(&entry), x_prop: ok.x_prop.clone())?, ikal::valarm!(@audio, )?, ikal::valarm!(@audio, trigger: m.as_str(), repeat: (event | 0),)?], exdate: [v.id(&b)], comment: [v.id(&o), format!("{}", text)], location: format!("{}", name), }?, ikal::vevent! {  }?, ikal::vevent! { iana_prop: t.x_prop.clone() }?], journals: [ikal::vjournal! {  }?, ikal::vjournal! { dtstamp: i.trim_matches('~'), created: format!("{}", field), description: [], }?], x_prop: self_.x_prop.clone(), prodid: v.id(&fields) } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.method = Some(text(&a4)); x.freebusy = vec![{ let mut x = ikal::VFreebusy::default(); x.attendee = vec![uri(&a24), uri(&a25), uri(&a26), uri(&a27)]; x.contact = Some(text(&a28)); x }, { let mut x = ikal::VFreebusy::default();  x }]; x.alarms = vec![{ let mut x = ikal::valarm::Display::default(); x.repeat = Some(a80); x.duration = Some(length(&a79)?); x.description = text(&a81); x.trigger = trigger(&a82)?; x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }, { let mut x = ikal::valarm::Email::default();  x.action = text("EMAIL"); ikal::VAlarm::Email(x) }, { let mut x = ikal::valarm::Email::default(); x.summary = text(&a83); x.duration = Some(length(&a84)?); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }]; x.timezones = vec![{ let mut x = ikal::VTimezone::default(); x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default();  x }]; x.tzid = text(&a30); x.tzurl = Some(uri(&a31)); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.x_prop = a35.x_prop.clone(); x.tzname = vec![text(&a32)]; x.iana_prop = a34.x_prop.clone(); x.dtstart = conv::<ikal::Date>(&a33)?; x.tzoffsetto = conv::<chrono::FixedOffset>(&a36)?; x }, { let mut x = ikal::vtimezone::Standard::default(); x.x_prop = a38.x_prop.clone(); x.tzname = vec![text(&a39), text(&a40), text(&a41), text(&a42)]; x.iana_prop = a43.x_prop.clone(); x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Daily; x.until = Some(ikal::Date::Date(a47)); x.interval = a48; x }); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a49)?; x.comment = vec![text(&a44), text(&a45), text(&a46)]; x.dtstart = conv::<ikal::Date>(&a37)?; x }]; x.last_modified = Some(conv::<ikal::DateTime>(&a29)?); x }, { let mut x = ikal::VTimezone::default(); x.x_prop = a53.x_prop.clone(); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.rrule = Some(conv::<ikal::Recur>(&a60)?); x.tzname = vec![text(&a57)]; x.comment = vec![text(&a61)]; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a55)?; x.dtstart = conv::<ikal::Date>(&a62)?; x.tzoffsetto = conv::<chrono::FixedOffset>(&a59)?; x.iana_prop = a56.x_prop.clone(); x.x_prop = a58.x_prop.clone(); x }, { let mut x = ikal::vtimezone::Standard::default(); x.tzname = vec![text(&a65), text(&a66), text(&a67)]; x.tzoffsetto = conv::<chrono::FixedOffset>(&a64)?; x.x_prop = a63.x_prop.clone(); x }, { let mut x = ikal::vtimezone::Standard::default(); x.tzname = vec![text(&a68), text(&a69), text(&a70), text(&a71)]; x.dtstart = conv::<ikal::Date>(&a72)?; x }]; x.tzurl = Some(uri(&a52)); x.iana_prop = a51.x_prop.clone(); x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.x_prop = a74.x_prop.clone(); x.comment = vec![text(&a77), text(&a78)]; x.tzoffsetto = conv::<chrono::FixedOffset>(&a76)?; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a73)?; x.iana_prop = a75.x_prop.clone(); x }]; x.tzid = text(&a54); x.last_modified = Some(conv::<ikal::DateTime>(&a50)?); x }]; x.iana_prop = a1.x_prop.clone(); x.events = vec![{ let mut x = ikal::VEvent::default(); x.attach = vec![text(&a9), text(&a10), text(&a11)]; x.url = Some(uri(&a12)); x.recurid = Some(conv::<ikal::Date>(&a5)?); x.created = Some(conv::<ikal::DateTime>(&a14)?); x.dtstart = conv::<ikal::Date>(&a13)?; x.alarms = vec![{ let mut x = ikal::valarm::Display::default(); x.description = text(&a16); x.trigger = trigger(&a18)?; x.x_prop = a17.x_prop.clone(); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }, { let mut x = ikal::valarm::Audio::default();  x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }, { let mut x = ikal::valarm::Audio::default(); x.trigger = trigger(&a20)?; x.repeat = Some(a19); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }]; x.exdate = vec![conv::<ikal::Date>(&a8)?]; x.comment = vec![text(&a6), text(&a7)]; x.location = Some(text(&a15)); x }, { let mut x = ikal::VEvent::default();  x }, { let mut x = ikal::VEvent::default(); x.iana_prop = a21.x_prop.clone(); x }]; x.journals = vec![{ let mut x = ikal::VJournal::default();  x }, { let mut x = ikal::VJournal::default(); x.dtstamp = conv::<ikal::DateTime>(&a23)?; x.created = Some(conv::<ikal::DateTime>(&a22)?); x.description = vec![]; x }]; x.x_prop = a3.x_prop.clone(); x.prodid = text(&a2); x }))();
    v.judge(m, h, 16)
}
fn m370(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.text();
    let a3 = v.props();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.float();
    let a7 = v.float();
    let a8 = v.props();
    let a9 = v.byte();
    let a10 = v.date_time();
    let a11 = v.text();
    let a12 = v.uri();
    let a13 = v.text();
    let a14 = v.text();
    let a15 = v.date();
    let a16 = v.text();
    let a17 = v.date();
    let a18 = v.status();
    let a19 = v.props();
    let a20 = v.props();
    let a21 = v.date();
    let a22 = v.offset();
    let a23 = v.offset();
    let a24 = v.weekday();
    let a25 = v.day();
    let a26 = v.text();
    let a27 = v.text();
    let a28 = v.text();
    let a29 = v.text();
    let a30 = v.text();
    let a31 = v.text();
    let a32 = v.props();
    let a33 = v.text();
    let a34 = v.text();
    let a35 = v.text();
    let a36 = v.offset();
    let a37 = v.props();
    let a38 = v.date();
    let a39 = v.byte() as i8 % 31;
    let a40 = v.byte() as i8 % 24;
    let a41 = v.day();
    let a42 = v.weekday();
    let a43 = v.weekday().weekday;
    let a44 = v.offset();
    let a45 = v.text();
    let a46 = v.offset();
    let a47 = v.date();
    let a48 = v.props();
    let a49 = v.props();
    let a50 = v.uri();
    let a51 = v.text();
    let a52 = v.date_time();
    let a53 = v.offset();
    let a54 = v.props();
    let a55 = v.weekday().weekday;
    let a56 = v.byte();
    let a57 = v.byte() as i8 % 24;
    let a58 = v.weekday();
    let a59 = v.text();
    let a60 = v.text();
    let a61 = v.text();
    let a62 = v.text();
    let a63 = v.offset();
    let a64 = v.date();
    let a65 = v.props();
    let a66 = v.text();
    let a67 = v.date();
    let a68 = v.props();
    let a69 = v.offset();
    let a70 = v.offset();
    let a71 = v.props();
    let a72 = v.byte();
    let a73 = v.props();
    let a74 = v.text();
    let a75 = v.offset();
    let a76 = v.props();
    let a77 = v.offset();
    let a78 = v.offset();
    let a79 = v.rule();
    let a80 = v.props();
    let a81 = v.offset();
    let a82 = v.props();
    let a83 = v.text();
    let a84 = v.text();
    let a85 = v.text();
    let a86 = v.text();
    let a87 = v.date();
    let a88 = v.text();
    let a89 = v.text();
    let a90 = v.text();
    let a91 = v.text();
    let a92 = v.offset();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; ikal::vcalendar! { events: [], todo: [ikal::vtodo! { geo: { lon: a7, lat: a6 }, attendee: [], contact: [], organizer: a12.clone(), iana_prop: a8.x_prop.clone(), priority: u8::from(a9), summary: a11.as_str(), created: a10, }?, ikal::vtodo! { exdate: [a17.clone()], location: a16.as_str(), rstatus: [a18], recurid: a15.trim_matches('~'), resources: [a13.clone(), v.id(&a14)], }?], prodid: a2.clone(), method: Some(ikal::Text::from(a4.as_str())), x_prop: a1.x_prop.clone(), calscale: Some(ikal::Text::from(a5.as_str())), iana_prop: a3.x_prop.clone(), freebusy: [], timezones: [ikal::vtimezone! { standard: [{ rrule: { until: ikal::Date::from(a25), by_day: [a24.clone()], freq: Minutely }, x_prop: a19.x_prop.clone(), dtstart: a21.trim_matches('~'), tzoffsetto: v.id(&a22), tzname: [v.id(&a28), format!("{}", a29), v.id(&a30), format!("{}", a31)], comment: [a26.clone(), v.id(&a27)], tzoffsetfrom: a23.as_str(), iana_prop: a20.x_prop.clone() }, { tzoffsetto: a36.trim_matches('~'), rrule: { wkst: Some(a43.clone()), by_day: [a42.clone()], by_monthday: [a39], by_hour: [a40, 7], until: ikal::Date::from(a41), freq: Daily }, tzoffsetfrom: v.id(&a44), iana_prop: a32.x_prop.clone(), dtstart: v.id(&a38), comment: [v.id(&a33), v.id(&a34), v.id(&a35)], x_prop: a37.x_prop.clone() }], daylight: [{ tzoffsetto: a46.as_str(), tzname: [a45.clone()], dtstart: a47.as_str(), }], }?, ikal::vtimezone! { standard: [{ x_prop: a65.x_prop.clone(), rrule: { wkst: Some(a55.clone()), count: a56, by_hour: [a57, 7], freq: Secondly, by_day: [a58.clone()] }, comment: [a59.clone(), a60.clone(), v.id(&a61), v.id(&a62)], tzoffsetfrom: a53, iana_prop: a54.x_prop.clone(), dtstart: a64.trim_matches('~'), tzoffsetto: a63, }, { tzoffsetfrom: v.id(&a70), iana_prop: a71.x_prop.clone(), tzoffsetto: v.id(&a69), x_prop: a68.x_prop.clone(), dtstart: format!("{}", a67), comment: [format!("{}", a66)], tzname: [] }, { tzname: [a74.as_str()], rrule: { freq: Hourly, interval: a72 }, iana_prop: a76.x_prop.clone(), x_prop: a73.x_prop.clone(), tzoffsetto: a75.as_str(), tzoffsetfrom: a77.clone(), comment: [] }], daylight: [{ x_prop: a80.x_prop.clone(), tzoffsetfrom: a78.clone(), dtstart: a87.trim_matches('~'), iana_prop: a82.x_prop.clone(), tzname: [v.id(&a83), v.id(&a84), format!("{}", a85), format!("{}", a86)], tzoffsetto: a81, rrule: a79, }, { tzname: [format!("{}", a89), a90.clone(), v.id(&a91)], comment: [format!("{}", a88)], tzoffsetto: a92.as_str(), }, {  }], iana_prop: a48.x_prop.clone(), tzurl: a50.as_str(), last_modified: a52, x_prop: a49.x_prop.clone(), tzid: a51.as_str() }?] } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.events = vec![]; x.todo = vec![{ let mut x = ikal::VTodo::default(); x.geo = Some(ikal::Geo { lat: a6, lon: a7 }); x.attendee = vec![]; x.contact = vec![]; x.organizer = Some(uri(&a12)); x.iana_prop = a8.x_prop.clone(); x.priority = Some(a9); x.summary = Some(text(&a11)); x.created = Some(conv::<ikal::DateTime>(&a10)?); x }, { let mut x = ikal::VTodo::default(); x.exdate = vec![conv::<ikal::Date>(&a17)?]; x.location = Some(text(&a16)); x.rstatus = vec![conv::<ikal::RequestStatus>(&a18)?]; x.recurid = Some(conv::<ikal::Date>(&a15)?); x.resources = vec![text(&a13), text(&a14)]; x }]; x.prodid = text(&a2); x.method = Some(text(&a4)); x.x_prop = a1.x_prop.clone(); x.calscale = Some(text(&a5)); x.iana_prop = a3.x_prop.clone(); x.freebusy = vec![]; x.timezones = vec![{ let mut x = ikal::VTimezone::default(); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Minutely; x.by_day = vec![a24.clone()]; x.until = Some(ikal::Date::Date(a25)); x }); x.x_prop = a19.x_prop.clone(); x.dtstart = conv::<ikal::Date>(&a21)?; x.tzoffsetto = conv::<chrono::FixedOffset>(&a22)?; x.tzname = vec![text(&a28), text(&a29), text(&a30), text(&a31)]; x.comment = vec![text(&a26), text(&a27)]; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a23)?; x.iana_prop = a20.x_prop.clone(); x }, { let mut x = ikal::vtimezone::Standard::default(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a36)?; x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Daily; x.by_monthday = vec![a39]; x.by_hour = vec![a40, 7]; x.until = Some(ikal::Date::Date(a41)); x.by_day = vec![a42.clone()]; x.wkst = Some(a43.clone()); x }); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a44)?; x.iana_prop = a32.x_prop.clone(); x.dtstart = conv::<ikal::Date>(&a38)?; x.comment = vec![text(&a33), text(&a34), text(&a35)]; x.x_prop = a37.x_prop.clone(); x }]; x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a46)?; x.tzname = vec![text(&a45)]; x.dtstart = conv::<ikal::Date>(&a47)?; x }]; x }, { let mut x = ikal::VTimezone::default(); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.x_prop = a65.x_prop.clone(); x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Secondly; x.wkst = Some(a55.clone()); x.count = Some(a56); x.by_hour = vec![a57, 7]; x.by_day = vec![a58.clone()]; x }); x.comment = vec![text(&a59), text(&a60), text(&a61), text(&a62)]; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a53)?; x.iana_prop = a54.x_prop.clone(); x.dtstart = conv::<ikal::Date>(&a64)?; x.tzoffsetto = conv::<chrono::FixedOffset>(&a63)?; x }, { let mut x = ikal::vtimezone::Standard::default(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a70)?; x.iana_prop = a71.x_prop.clone(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a69)?; x.x_prop = a68.x_prop.clone(); x.dtstart = conv::<ikal::Date>(&a67)?; x.comment = vec![text(&a66)]; x.tzname = vec![]; x }, { let mut x = ikal::vtimezone::Standard::default(); x.tzname = vec![text(&a74)]; x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Hourly; x.interval = a72; x }); x.iana_prop = a76.x_prop.clone(); x.x_prop = a73.x_prop.clone(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a75)?; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a77)?; x.comment = vec![]; x }]; x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.x_prop = a80.x_prop.clone(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a78)?; x.dtstart = conv::<ikal::Date>(&a87)?; x.iana_prop = a82.x_prop.clone(); x.tzname = vec![text(&a83), text(&a84), text(&a85), text(&a86)]; x.tzoffsetto = conv::<chrono::FixedOffset>(&a81)?; x.rrule = Some(conv::<ikal::Recur>(&a79)?); x }, { let mut x = ikal::vtimezone::Daylight::default(); x.tzname = vec![text(&a89), text(&a90), text(&a91)]; x.comment = vec![text(&a88)]; x.tzoffsetto = conv::<chrono::FixedOffset>(&a92)?; x }, { let mut x = ikal::vtimezone::Daylight::default();  x }]; x.iana_prop = a48.x_prop.clone(); x.tzurl = Some(uri(&a50)); x.last_modified = Some(conv::<ikal::DateTime>(&a52)?); x.x_prop = a49.x_prop.clone(); x.tzid = text(&a51); x }]; x }))();
    v.judge(m, h, 17)
}
fn m371(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.props();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.text();
    let a7 = v.text();
    let a8 = v.text();
    let a9 = v.code();
    let a10 = v.text();
    let a11 = v.text();
    let a12 = v.text();
    let a13 = v.text();
    let a14 = v.date();
    let a15 = v.date_time();
    let a16 = v.text();
    let a17 = v.text();
    let a18 = v.status();
    let a19 = v.text();
    let a20 = v.text();
    let a21 = v.text();
    let a22 = v.text();
    let a23 = v.text();
    let a24 = v.text();
    let a25 = v.text();
    let a26 = v.text();
    let a27 = v.date();
    let a28 = v.uri();
    let a29 = v.text();
    let a30 = v.text();
    let a31 = v.text();
    let a32 = v.text();
    let a33 = v.text();
    let a34 = v.uri();
    let a35 = v.props();
    let a36 = v.date_time();
    let a37 = v.props();
    let a38 = v.props();
    let a39 = v.text();
    let a40 = v.props();
    let a41 = v.trigger();
    let a42 = v.text();
    let a43 = v.text();
    let a44 = v.text();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let vcalendar = a1.clone(); let input = a2.clone(); let parts = a3.clone(); let calendar = a4.clone(); let field = a5.clone(); let ty = a6.clone(); let key = a7.clone(); let err = a8.clone(); let o = a9.clone(); let fields = a10.clone(); let t = a11.clone(); let a = a12.clone(); let entry = a13.clone(); let dt = a14.clone(); let d = a15.clone(); let name = a16.clone(); let component = a17.clone(); let date = a18.clone(); let val = a19.clone(); let value = a20.clone(); let ok = a21.clone(); let m = a22.clone(); let ast = a23.clone(); let ret = a24.clone(); let output = a25.clone(); let map = a26.clone(); let init = a27.clone(); let x = a28.clone(); let object = a29.clone(); let r = a30.clone(); let b = a31.clone(); let config = a32.clone(); let f = a33.clone(); let this = a34.clone(); let result = a35.clone(); let list = a36.clone(); let builder = a37.clone(); let e = a38.clone(); let it = a39.clone(); let parsed = a40.clone(); let i = a41.clone(); let out = a42.clone(); let text = a43.clone(); let tmp = a44.clone(); ikal::vcalendar! { events: [{ attach: [format!("{}", a), format!("{}", entry)], resources: [format!("{}", key)], dtstart: dt.clone(), rstatus: [{ extdata: t.clone(), statcode: o, statdesc: fields.as_str() }], location: format!("{}", err), created: d.trim_matches('~'), categories: [name.as_str(), v.id(&component)] }, { rstatus: [date], uid: v.id(&ok), class: Confidential, transp: Opaque, categories: [format!("{}", m), ast.as_str(), v.id(&ret)], comment: [format!("{}", val), format!("{}", value)], }, { transp: Transparent, url: x.clone(), related_to: [output.clone(), format!("{}", map)], dtstart: init.clone(), attach: [object.as_str(), v.id(&r)] }], iana_prop: input.x_prop.clone(), todo: [ikal::vtodo! { status: Completed, uid: v.id(&b), }?], x_prop: vcalendar.x_prop.clone(), alarms: [ikal::valarm!(@email, attach: [out.clone(), text.as_str(), format!("{}", tmp)], iana_prop: e.x_prop.clone(), x_prop: parsed.x_prop.clone(), summary: format!("{}", it), trigger: i)?], prodid: calendar.as_str(), timezones: [ikal::vtimezone! { tzid: format!("{}", f), x_prop: result.x_prop.clone(), iana_prop: builder.x_prop.clone(), tzurl: this.clone(), last_modified: list.clone(), }?], journals: [ikal::vjournal! { class: Confidential, categories: [v.id(&config)] }?], version: parts.as_str(), calscale: Some(ikal::Text::from(field.as_str())), method: Some(ikal::Text::from(ty.as_str())) } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.events = vec![{ let mut x = ikal::VEvent::default(); x.attach = vec![text(&a12), text(&a13)]; x.resources = vec![text(&a7)]; x.dtstart = conv::<ikal::Date>(&a14)?; x.rstatus = vec![ikal::RequestStatus { statcode: a9, statdesc: a10.clone(), extdata: Some(a11.clone()) }]; x.location = Some(text(&a8)); x.created = Some(conv::<ikal::DateTime>(&a15)?); x.categories = vec![text(&a16), text(&a17)]; x }, { let mut x = ikal::VEvent::default(); x.rstatus = vec![conv::<ikal::RequestStatus>(&a18)?]; x.uid = text(&a21); x.class = Some(ikal::Class::Confidential); x.transp = Some(ikal::TimeTransparency::Opaque); x.categories = vec![text(&a22), text(&a23), text(&a24)]; x.comment = vec![text(&a19), text(&a20)]; x }, { let mut x = ikal::VEvent::default(); x.transp = Some(ikal::TimeTransparency::Transparent); x.url = Some(uri(&a28)); x.related_to = vec![text(&a25), text(&a26)]; x.dtstart = conv::<ikal::Date>(&a27)?; x.attach = vec![text(&a29), text(&a30)]; x }]; x.iana_prop = a2.x_prop.clone(); x.todo = vec![{ let mut x = ikal::VTodo::default(); x.status = Some(ikal::Status::Completed); x.uid = text(&a31); x }]; x.x_prop = a1.x_prop.clone(); x.alarms = vec![{ let mut x = ikal::valarm::Email::default(); x.attach = vec![text(&a42), text(&a43), text(&a44)]; x.iana_prop = a38.x_prop.clone(); x.x_prop = a40.x_prop.clone(); x.summary = text(&a39); x.trigger = trigger(&a41)?; x.action = text("EMAIL"); ikal::VAlarm::Email(x) }]; x.prodid = text(&a4); x.timezones = vec![{ let mut x = ikal::VTimezone::default(); x.tzid = text(&a33); x.x_prop = a35.x_prop.clone(); x.iana_prop = a37.x_prop.clone(); x.tzurl = Some(uri(&a34)); x.last_modified = Some(conv::<ikal::DateTime>(&a36)?); x }]; x.journals = vec![{ let mut x = ikal::VJournal::default(); x.class = Some(ikal::Class::Confidential); x.categories = vec![text(&a32)]; x }]; x.version = text(&a3); x.calscale = Some(text(&a5)); x.method = Some(text(&a6)); x }))();
    v.judge(m, h, 6)
}
fn m372(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.props();
    let a3 = v.props();
    let a4 = v.date_time();
    let a5 = v.props();
    let a6 = v.date_time();
    let a7 = v.duration();
    let a8 = v.uri();
    let a9 = v.text();
    let a10 = v.text();
    let a11 = v.text();
    let a12 = v.text();
    let a13 = v.date();
    let a14 = v.date();
    let a15 = v.trigger();
    let a16 = v.text();
    let a17 = v.props();
    let a18 = v.duration();
    let a19 = v.text();
    let a20 = v.props();
    let a21 = v.trigger();
    let a22 = v.text();
    let a23 = v.props();
    let a24 = v.date();
    let a25 = v.props();
    let a26 = v.uri();
    let a27 = v.date_time();
    let a28 = v.date_time();
    let a29 = v.number();
    let a30 = v.date();
    let a31 = v.text();
    let a32 = v.text();
    let a33 = v.text();
    let a34 = v.text();
    let a35 = v.text();
    let a36 = v.text();
    let a37 = v.text();
    let a38 = v.text();
    let a39 = v.text();
    let a40 = v.text();
    let a41 = v.text();
    let a42 = v.text();
    let a43 = v.uri();
    let a44 = v.props();
    let a45 = v.number();
    let a46 = v.text();
    let a47 = v.text();
    let a48 = v.text();
    let a49 = v.text();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; ikal::vcalendar! { x_prop: a3.x_prop.clone(), todo: [], events: [{ iana_prop: a5.x_prop.clone(), attendee: [a8.clone()], duration: &a7, last_modified: a6.trim_matches('~'), dtstamp: format!("{}", a4), }, { rstatus: [], related_to: [format!("{}", a9), v.id(&a10), a11.clone(), a12.clone()], dtstart: a14.clone(), dtend: a13, alarms: [ikal::valarm!(@audio, trigger: v.id(&a15), attach: [a16.clone()])?, ikal::valarm!(@audio, attach: [v.id(&a19)], iana_prop: a17.x_prop.clone(), duration: &a18, x_prop: a20.x_prop.clone())?, ikal::valarm!(@audio, trigger: a21.as_str())?] }], timezones: [], method: Some(ikal::Text::from(a1.as_str())), alarms: [ikal::valarm!(@email, summary: a49.as_str(), attach: [format!("{}", a46), v.id(&a47), a48.as_str()], repeat: a45, x_prop: a44.x_prop.clone(),)?], iana_prop: a2.x_prop.clone(), journals: [ikal::vjournal! { url: a26.as_str(), comment: [format!("{}", a22)], dtstart: a24.as_str(), dtstamp: v.id(&a27), iana_prop: a25.x_prop.clone(), created: a28.trim_matches('~'), recurid: a30.trim_matches('~'), sequence: (a29 | 0), x_prop: a23.x_prop.clone() }?, ikal::vjournal! { organizer: a43.as_str(), uid: format!("{}", a40), related_to: [a41.clone(), a42.clone()], contact: [v.id(&a31), a32.clone(), format!("{}", a33)], attach: [a34.as_str(), a35.clone(), v.id(&a36), a37.as_str()], categories: [a38.clone(), a39.clone()], }?, ikal::vjournal! {  }?], } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.x_prop = a3.x_prop.clone(); x.todo = vec![]; x.events = vec![{ let mut x = ikal::VEvent::default(); x.iana_prop = a5.x_prop.clone(); x.attendee = vec![uri(&a8)]; x.duration = Some(length(&a7)?); x.last_modified = Some(conv::<ikal::DateTime>(&a6)?); x.dtstamp = conv::<ikal::DateTime>(&a4)?; x }, { let mut x = ikal::VEvent::default(); x.rstatus = vec![]; x.related_to = vec![text(&a9), text(&a10), text(&a11), text(&a12)]; x.dtstart = conv::<ikal::Date>(&a14)?; x.dtend = Some(conv::<ikal::Date>(&a13)?); x.alarms = vec![{ let mut x = ikal::valarm::Audio::default(); x.trigger = trigger(&a15)?; x.attach = vec![text(&a16)]; x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }, { let mut x = ikal::valarm::Audio::default(); x.attach = vec![text(&a19)]; x.iana_prop = a17.x_prop.clone(); x.duration = Some(length(&a18)?); x.x_prop = a20.x_prop.clone(); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }, { let mut x = ikal::valarm::Audio::default(); x.trigger = trigger(&a21)?; x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }]; x }]; x.timezones = vec![]; x.method = Some(text(&a1)); x.alarms = vec![{ let mut x = ikal::valarm::Email::default(); x.summary = text(&a49); x.attach = vec![text(&a46), text(&a47), text(&a48)]; x.repeat = Some(a45); x.x_prop = a44.x_prop.clone(); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }]; x.iana_prop = a2.x_prop.clone(); x.journals = vec![{ let mut x = ikal::VJournal::default(); x.url = Some(uri(&a26)); x.comment = vec![text(&a22)]; x.dtstart = conv::<ikal::Date>(&a24)?; x.dtstamp = conv::<ikal::DateTime>(&a27)?; x.iana_prop = a25.x_prop.clone(); x.created = Some(conv::<ikal::DateTime>(&a28)?); x.recurid = Some(conv::<ikal::Date>(&a30)?); x.sequence = Some(a29); x.x_prop = a23.x_prop.clone(); x }, { let mut x = ikal::VJournal::default(); x.organizer = Some(uri(&a43)); x.uid = text(&a40); x.related_to = vec![text(&a41), text(&a42)]; x.contact = vec![text(&a31), text(&a32), text(&a33)]; x.attach = vec![text(&a34), text(&a35), text(&a36), text(&a37)]; x.categories = vec![text(&a38), text(&a39)]; x }, { let mut x = ikal::VJournal::default();  x }]; x }))();
    v.judge(m, h, 7)
}
fn m373(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.number();
    let a6 = v.byte();
    let a7 = v.date_time();
    let a8 = v.date();
    let a9 = v.text();
    let a10 = v.text();
    let a11 = v.date();
    let a12 = v.text();
    let a13 = v.text();
    let a14 = v.text();
    let a15 = v.rule();
    let a16 = v.date_time();
    let a17 = v.date();
    let a18 = v.text();
    let a19 = v.uri();
    let a20 = v.props();
    let a21 = v.text();
    let a22 = v.status();
    let a23 = v.uri();
    let a24 = v.text();
    let a25 = v.text();
    let a26 = v.period();
    let a27 = v.period();
    let a28 = v.period();
    let a29 = v.period();
    let a30 = v.date();
    let a31 = v.text();
    let a32 = v.date_time();
    let a33 = v.uri();
    let a34 = v.uri();
    let a35 = v.uri();
    let a36 = v.uri();
    let a37 = v.date();
    let a38 = v.date();
    let a39 = v.text();
    let a40 = v.text();
    let a41 = v.period();
    let a42 = v.props();
    let a43 = v.uri();
    let a44 = v.props();
    let a45 = v.uri();
    let a46 = v.props();
    let a47 = v.text();
    let a48 = v.date_time();
    let a49 = v.offset();
    let a50 = v.text();
    let a51 = v.props();
    let a52 = v.offset();
    let a53 = v.date();
    let a54 = v.rule();
    let a55 = v.rule();
    let a56 = v.offset();
    let a57 = v.text();
    let a58 = v.text();
    let a59 = v.text();
    let a60 = v.text();
    let a61 = v.date();
    let a62 = v.props();
    let a63 = v.offset();
    let a64 = v.uri();
    let a65 = v.props();
    let a66 = v.date();
    let a67 = v.offset();
    let a68 = v.rule();
    let a69 = v.offset();
    let a70 = v.text();
    let a71 = v.text();
    let a72 = v.text();
    let a73 = v.text();
    let a74 = v.props();
    let a75 = v.props();
    let a76 = v.offset();
    let a77 = v.offset();
    let a78 = v.text();
    let a79 = v.date();
    let a80 = v.props();
    let a81 = v.offset();
    let a82 = v.props();
    let a83 = v.rule();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; ikal::vcalendar! { freebusy: [ikal::vfreebusy! { uid: a24.clone(), freebusy: [a26.clone(), a27.clone(), a28.clone(), a29.clone()], dtstart: a30.as_str(), dtstamp: v.id(&a32), contact: format!("{}", a25), rstatus: [a22], url: a23.clone(), comment: [format!("{}", a31)] }?, ikal::vfreebusy! { contact: a39.clone(), x_prop: a42.x_prop.clone(), uid: format!("{}", a40), url: a43.clone(), dtend: v.id(&a37), freebusy: [a41.clone()], dtstart: format!("{}", a38), comment: [], attendee: [a33.clone(), a34.clone(), a35.clone(), a36.as_str()], }?], todo: [ikal::vtodo! { attach: [a2.as_str()], sequence: (a5 | 0), contact: [format!("{}", a3), format!("{}", a4)], exdate: [], }?, ikal::vtodo! { due: a8.as_str(), related_to: [v.id(&a9), a10.as_str()], rrule: v.id(&a15), resources: [format!("{}", a12), a13.clone(), v.id(&a14)], exdate: [v.id(&a11)], priority: (a6 + 0), completed: v.id(&a7) }?], events: [], method: Some(ikal::Text::from(a1.as_str())), journals: [ikal::vjournal! { created: a16.trim_matches('~'), exdate: [a17.as_str()], x_prop: a20.x_prop.clone(), uid: a18.as_str(), url: v.id(&a19), }?, ikal::vjournal! { contact: [a21.clone()], exdate: [], description: [], }?], timezones: [ikal::vtimezone! { iana_prop: a44.x_prop.clone(), last_modified: a48, tzid: format!("{}", a47), tzurl: a45.as_str(), x_prop: a46.x_prop.clone(), standard: [{ x_prop: a51.x_prop.clone(), tzoffsetto: a52.as_str(), tzoffsetfrom: a49.trim_matches('~'), comment: [a50.clone()], rrule: a54.trim_matches('~'), dtstart: a53.trim_matches('~') }, { rrule: v.id(&a55), tzoffsetto: format!("{}", a63), comment: [v.id(&a57), a58.as_str(), a59.clone(), v.id(&a60)], dtstart: a61, iana_prop: a62.x_prop.clone(), tzoffsetfrom: a56.clone() }] }?, ikal::vtimezone! { standard: [{ rrule: a68.trim_matches('~'), dtstart: format!("{}", a66), iana_prop: a65.x_prop.clone(), tzoffsetfrom: a69.trim_matches('~'), tzname: [a70.clone(), a71.clone(), a72.as_str()], comment: [format!("{}", a73)], tzoffsetto: a67.trim_matches('~') }, { iana_prop: a74.x_prop.clone(), x_prop: a75.x_prop.clone(), tzoffsetto: a76.clone() }, { dtstart: a79.clone(), x_prop: a80.x_prop.clone(), rrule: a83.as_str(), tzoffsetfrom: a77.trim_matches('~'), tzoffsetto: a81.clone(), iana_prop: a82.x_prop.clone(), comment: [v.id(&a78)] }], tzurl: v.id(&a64) }?] } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.freebusy = vec![{ let mut x = ikal::VFreebusy::default(); x.uid = text(&a24); x.freebusy = vec![a26.clone(), a27.clone(), a28.clone(), a29.clone()]; x.dtstart = Some(conv::<ikal::Date>(&a30)?); x.dtstamp = conv::<ikal::DateTime>(&a32)?; x.contact = Some(text(&a25)); x.rstatus = vec![conv::<ikal::RequestStatus>(&a22)?]; x.url = Some(uri(&a23)); x.comment = vec![text(&a31)]; x }, { let mut x = ikal::VFreebusy::default(); x.contact = Some(text(&a39)); x.x_prop = a42.x_prop.clone(); x.uid = text(&a40); x.url = Some(uri(&a43)); x.dtend = Some(conv::<ikal::Date>(&a37)?); x.freebusy = vec![a41.clone()]; x.dtstart = Some(conv::<ikal::Date>(&a38)?); x.comment = vec![]; x.attendee = vec![uri(&a33), uri(&a34), uri(&a35), uri(&a36)]; x }]; x.todo = vec![{ let mut x = ikal::VTodo::default(); x.attach = vec![text(&a2)]; x.sequence = Some(a5); x.contact = vec![text(&a3), text(&a4)]; x.exdate = vec![]; x }, { let mut x = ikal::VTodo::default(); x.due = Some(conv::<ikal::Date>(&a8)?); x.related_to = vec![text(&a9), text(&a10)]; x.rrule = Some(conv::<ikal::Recur>(&a15)?); x.resources = vec![text(&a12), text(&a13), text(&a14)]; x.exdate = vec![conv::<ikal::Date>(&a11)?]; x.priority = Some(a6); x.completed = Some(conv::<ikal::DateTime>(&a7)?); x }]; x.events = vec![]; x.method = Some(text(&a1)); x.journals = vec![{ let mut x = ikal::VJournal::default(); x.created = Some(conv::<ikal::DateTime>(&a16)?); x.exdate = vec![conv::<ikal::Date>(&a17)?]; x.x_prop = a20.x_prop.clone(); x.uid = text(&a18); x.url = Some(uri(&a19)); x }, { let mut x = ikal::VJournal::default(); x.contact = vec![text(&a21)]; x.exdate = vec![]; x.description = vec![]; x }]; x.timezones = vec![{ let mut x = ikal::VTimezone::default(); x.iana_prop = a44.x_prop.clone(); x.last_modified = Some(conv::<ikal::DateTime>(&a48)?); x.tzid = text(&a47); x.tzurl = Some(uri(&a45)); x.x_prop = a46.x_prop.clone(); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.x_prop = a51.x_prop.clone(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a52)?; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a49)?; x.comment = vec![text(&a50)]; x.rrule = Some(conv::<ikal::Recur>(&a54)?); x.dtstart = conv::<ikal::Date>(&a53)?; x }, { let mut x = ikal::vtimezone::Standard::default(); x.rrule = Some(conv::<ikal::Recur>(&a55)?); x.tzoffsetto = conv::<chrono::FixedOffset>(&a63)?; x.comment = vec![text(&a57), text(&a58), text(&a59), text(&a60)]; x.dtstart = conv::<ikal::Date>(&a61)?; x.iana_prop = a62.x_prop.clone(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a56)?; x }]; x }, { let mut x = ikal::VTimezone::default(); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.rrule = Some(conv::<ikal::Recur>(&a68)?); x.dtstart = conv::<ikal::Date>(&a66)?; x.iana_prop = a65.x_prop.clone(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a69)?; x.tzname = vec![text(&a70), text(&a71), text(&a72)]; x.comment = vec![text(&a73)]; x.tzoffsetto = conv::<chrono::FixedOffset>(&a67)?; x }, { let mut x = ikal::vtimezone::Standard::default(); x.iana_prop = a74.x_prop.clone(); x.x_prop = a75.x_prop.clone(); x.tzoffsetto = conv::<chrono::FixedOffset>(&a76)?; x }, { let mut x = ikal::vtimezone::Standard::default(); x.dtstart = conv::<ikal::Date>(&a79)?; x.x_prop = a80.x_prop.clone(); x.rrule = Some(conv::<ikal::Recur>(&a83)?); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a77)?; x.tzoffsetto = conv::<chrono::FixedOffset>(&a81)?; x.iana_prop = a82.x_prop.clone(); x.comment = vec![text(&a78)]; x }]; x.tzurl = Some(uri(&a64)); x }]; x }))();
    v.judge(m, h, 13)
}
fn m374(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.props();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.props();
    let a6 = v.text();
    let a7 = v.date_time();
    let a8 = v.number();
    let a9 = v.uri();
    let a10 = v.text();
    let a11 = v.text();
    let a12 = v.date();
    let a13 = v.trigger();
    let a14 = v.number();
    let a15 = v.props();
    let a16 = v.props();
    let a17 = v.props();
    let a18 = v.trigger();
    let a19 = v.duration();
    let a20 = v.text();
    let a21 = v.byte();
    let a22 = v.weekday().weekday;
    let a23 = v.weekday();
    let a24 = v.text();
    let a25 = v.text();
    let a26 = v.text();
    let a27 = v.text();
    let a28 = v.text();
    let a29 = v.position();
    let a30 = v.props();
    let a31 = v.date();
    let a32 = v.text();
    let a33 = v.uri();
    let a34 = v.uri();
    let a35 = v.uri();
    let a36 = v.uri();
    let a37 = v.status();
    let a38 = v.date();
    let a39 = v.props();
    let a40 = v.text();
    let a41 = v.date();
    let a42 = v.date_time();
    let a43 = v.uri();
    let a44 = v.props();
    let a45 = v.text();
    let a46 = v.props();
    let a47 = v.props();
    let a48 = v.text();
    let a49 = v.text();
    let a50 = v.offset();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let o = a1.clone(); let component = a2.clone(); let parsed = a3.clone(); let entry = a4.clone(); let config = a5.clone(); let default = a6.clone(); let todo = a7.clone(); let object = a8.clone(); let t = a9.clone(); let fields = a10.clone(); let f = a11.clone(); let input = a12.clone(); let key = a13.clone(); let parts = a14.clone(); let builder = a15.clone(); let err = a16.clone(); let item = a17.clone(); let c = a18.clone(); let x = a19.clone(); let ast = a20.clone(); let vcalendar = a21.clone(); let field = a22.clone(); let this = a23.clone(); let s = a24.clone(); let inner = a25.clone(); let m = a26.clone(); let self_ = a27.clone(); let ok = a28.clone(); let b = a29.clone(); let text = a30.clone(); let date = a31.clone(); let value = a32.clone(); let val = a33.clone(); let list = a34.clone(); let n = a35.clone(); let ret = a36.clone(); let vevent = a37.clone(); let a = a38.clone(); let event = a39.clone(); let i = a40.clone(); let output = a41.clone(); let ty = a42.clone(); let init = a43.clone(); let base = a44.clone(); let res = a45.clone(); let name = a46.clone(); let e = a47.clone(); let out = a48.clone(); let map = a49.clone(); let dt = a50.clone(); ikal::vcalendar! { timezones: [ikal::vtimezone! { iana_prop: base.x_prop.clone(), last_modified: ty.as_str(), standard: [{ tzname: [out.clone()], iana_prop: name.x_prop.clone(), x_prop: e.x_prop.clone(), }], daylight: [{ tzoffsetfrom: dt.trim_matches('~'), comment: [format!("{}", map)] }], tzid: res.clone(), tzurl: v.id(&init) }?], freebusy: [ikal::vfreebusy! { uid: format!("{}", value), attendee: [val.as_str(), list.clone(), n.clone(), ret.clone()], dtend: date, }?, ikal::vfreebusy! { dtend: output.trim_matches('~'), dtstart: a.clone(), uid: format!("{}", i), rstatus: [vevent], iana_prop: event.x_prop.clone() }?], iana_prop: config.x_prop.clone(), x_prop: component.x_prop.clone(), method: Some(ikal::Text::from(entry.as_str())), version: format!("{}", o), alarms: [ikal::valarm!(@audio, )?], events: [{ sequence: object, location: default.clone(), uid: format!("{}", f), recurid: v.id(&input), organizer: t.as_str(), summary: format!("{}", fields), categories: [], dtstamp: todo.clone(), alarms: [ikal::valarm!(@audio, iana_prop: builder.x_prop.clone(), trigger: key.as_str(), x_prop: err.x_prop.clone(), repeat: parts,)?, ikal::valarm!(@display, trigger: c, duration: x.as_str(), description: ast.clone(), iana_prop: item.x_prop.clone())?] }, { summary: v.id(&s), rrule: { by_day: [this.clone()], wkst: Some(field.clone()), freq: Daily, interval: vcalendar }, }, { geo: b, x_prop: text.x_prop.clone(), comment: [m.as_str(), self_.clone(), v.id(&ok)], status: NeedsAction, location: format!("{}", inner) }], journals: [ikal::vjournal! {  }?], prodid: v.id(&parsed), } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.timezones = vec![{ let mut x = ikal::VTimezone::default(); x.iana_prop = a44.x_prop.clone(); x.last_modified = Some(conv::<ikal::DateTime>(&a42)?); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.tzname = vec![text(&a48)]; x.iana_prop = a46.x_prop.clone(); x.x_prop = a47.x_prop.clone(); x }]; x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a50)?; x.comment = vec![text(&a49)]; x }]; x.tzid = text(&a45); x.tzurl = Some(uri(&a43)); x }]; x.freebusy = vec![{ let mut x = ikal::VFreebusy::default(); x.uid = text(&a32); x.attendee = vec![uri(&a33), uri(&a34), uri(&a35), uri(&a36)]; x.dtend = Some(conv::<ikal::Date>(&a31)?); x }, { let mut x = ikal::VFreebusy::default(); x.dtend = Some(conv::<ikal::Date>(&a41)?); x.dtstart = Some(conv::<ikal::Date>(&a38)?); x.uid = text(&a40); x.rstatus = vec![conv::<ikal::RequestStatus>(&a37)?]; x.iana_prop = a39.x_prop.clone(); x }]; x.iana_prop = a5.x_prop.clone(); x.x_prop = a2.x_prop.clone(); x.method = Some(text(&a4)); x.version = text(&a1); x.alarms = vec![{ let mut x = ikal::valarm::Audio::default();  x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }]; x.events = vec![{ let mut x = ikal::VEvent::default(); x.sequence = Some(a8); x.location = Some(text(&a6)); x.uid = text(&a11); x.recurid = Some(conv::<ikal::Date>(&a12)?); x.organizer = Some(uri(&a9)); x.summary = Some(text(&a10)); x.categories = vec![]; x.dtstamp = conv::<ikal::DateTime>(&a7)?; x.alarms = vec![{ let mut x = ikal::valarm::Audio::default(); x.iana_prop = a15.x_prop.clone(); x.trigger = trigger(&a13)?; x.x_prop = a16.x_prop.clone(); x.repeat = Some(a14); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }, { let mut x = ikal::valarm::Display::default(); x.trigger = trigger(&a18)?; x.duration = Some(length(&a19)?); x.description = text(&a20); x.iana_prop = a17.x_prop.clone(); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }]; x }, { let mut x = ikal::VEvent::default(); x.summary = Some(text(&a24)); x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Daily; x.interval = a21; x.wkst = Some(a22.clone()); x.by_day = vec![a23.clone()]; x }); x }, { let mut x = ikal::VEvent::default(); x.geo = Some(conv::<ikal::Geo>(&a29)?); x.x_prop = a30.x_prop.clone(); x.comment = vec![text(&a26), text(&a27), text(&a28)]; x.status = Some(ikal::Status::NeedsAction); x.location = Some(text(&a25)); x }]; x.journals = vec![{ let mut x = ikal::VJournal::default();  x }]; x.prodid = text(&a3); x }))();
    v.judge(m, h, 5)
}
fn m375(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.uri();
    let a3 = v.uri();
    let a4 = v.props();
    let a5 = v.text();
    let a6 = v.text();
    let a7 = v.duration();
    let a8 = v.byte();
    let a9 = v.text();
    let a10 = v.date_time();
    let a11 = v.date_time();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; ikal::vcalendar! { freebusy: [ikal::vfreebusy! {  }?], alarms: [], todo: [ikal::vtodo! {  }?, ikal::vtodo! { created: a10, duration: v.id(&a7), x_prop: a4.x_prop.clone(), contact: [a9.as_str()], priority: u8::from(a8), comment: [a5.as_str(), a6.clone()], completed: a11.trim_matches('~'), attendee: [a2.clone(), v.id(&a3)], location: format!("{}", a1), }?], } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.freebusy = vec![{ let mut x = ikal::VFreebusy::default();  x }]; x.alarms = vec![]; x.todo = vec![{ let mut x = ikal::VTodo::default();  x }, { let mut x = ikal::VTodo::default(); x.created = Some(conv::<ikal::DateTime>(&a10)?); x.duration = Some(length(&a7)?); x.x_prop = a4.x_prop.clone(); x.contact = vec![text(&a9)]; x.priority = Some(a8); x.comment = vec![text(&a5), text(&a6)]; x.completed = Some(conv::<ikal::DateTime>(&a11)?); x.attendee = vec![uri(&a2), uri(&a3)]; x.location = Some(text(&a1)); x }]; x }))();
    v.judge(m, h, 2)
}
fn m376(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.props();
    let a4 = v.props();
    let a5 = v.text();
    let a6 = v.number();
    let a7 = v.rule();
    let a8 = v.text();
    let a9 = v.text();
    let a10 = v.status();
    let a11 = v.uri();
    let a12 = v.uri();
    let a13 = v.uri();
    let a14 = v.props();
    let a15 = v.uri();
    let a16 = v.date();
    let a17 = v.date();
    let a18 = v.date();
    let a19 = v.uri();
    let a20 = v.text();
    let a21 = v.props();
    let a22 = v.uri();
    let a23 = v.date_time();
    let a24 = v.props();
    let a25 = v.uri();
    let a26 = v.text();
    let a27 = v.date_time();
    let a28 = v.uri();
    let a29 = v.uri();
    let a30 = v.text();
    let a31 = v.props();
    let a32 = v.uri();
    let a33 = v.props();
    let a34 = v.uri();
    let a35 = v.props();
    let a36 = v.date_time();
    let a37 = v.props();
    let a38 = v.props();
    let a39 = v.uri();
    let a40 = v.date_time();
    let a41 = v.text();
    let a42 = v.date();
    let a43 = v.text();
    let a44 = v.text();
    let a45 = v.byte() as i8 % 31;
    let a46 = v.byte();
    let a47 = v.weekday();
    let a48 = v.day();
    let a49 = v.byte();
    let a50 = v.props();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let d = a1.clone(); let base = a2.clone(); let map = a3.clone(); let self_ = a4.clone(); let n = a5.clone(); let err = a6.clone(); let val = a7.clone(); let out = a8.clone(); let s = a9.clone(); let a = a10.clone(); let r = a11.clone(); let tmp = a12.clone(); let values = a13.clone(); let ty = a14.clone(); let t = a15.clone(); let c = a16.clone(); let parts = a17.clone(); let name = a18.clone(); let field = a19.clone(); let config = a20.clone(); let output = a21.clone(); let f = a22.clone(); let vcalendar = a23.clone(); let date = a24.clone(); let b = a25.clone(); let x = a26.clone(); let fields = a27.clone(); let this = a28.clone(); let ok = a29.clone(); let text = a30.clone(); let parsed = a31.clone(); let component = a32.clone(); let vevent = a33.clone(); let todo = a34.clone(); let res = a35.clone(); let result = a36.clone(); let object = a37.clone(); let calendar = a38.clone(); let input = a39.clone(); let dt = a40.clone(); let it = a41.clone(); let i = a42.clone(); let init = a43.clone(); let event = a44.clone(); let builder = a45.clone(); let key = a46.clone(); let m = a47.clone(); let default = a48.clone(); let list = a49.clone(); let o = a50.clone(); ikal::vcalendar! { method: Some(ikal::Text::from(d.as_str())), iana_prop: map.x_prop.clone(), version: base.clone(), freebusy: [ikal::vfreebusy! { attendee: [v.id(&r), tmp.clone()], organizer: v.id(&values), dtstart: format!("{}", c), url: t.clone(), iana_prop: ty.x_prop.clone(), }?, ikal::vfreebusy! { contact: v.id(&config), dtstamp: vcalendar.trim_matches('~'), x_prop: output.x_prop.clone(), iana_prop: date.x_prop.clone(), dtstart: parts.clone(), dtend: name.trim_matches('~'), url: f.as_str(), organizer: field.clone(), freebusy: [], }?, ikal::vfreebusy! { attendee: [this.as_str(), ok.clone()], url: b.as_str(), dtstamp: v.id(&fields), uid: format!("{}", x) }?], x_prop: self_.x_prop.clone(), events: [{ sequence: err, class: Confidential, rrule: v.id(&val), status: Cancelled, related_to: [v.id(&out), format!("{}", s)], rstatus: [a.trim_matches('~')], }], prodid: v.id(&n), timezones: [ikal::vtimezone! { x_prop: vevent.x_prop.clone(), standard: [], tzid: text.clone(), iana_prop: parsed.x_prop.clone(), tzurl: component.clone() }?, ikal::vtimezone! { last_modified: result.as_str(), iana_prop: res.x_prop.clone(), x_prop: object.x_prop.clone(), daylight: [], standard: [], tzurl: todo.clone(), }?, ikal::vtimezone! { tzurl: input.as_str(), tzid: it.clone(), iana_prop: calendar.x_prop.clone(), last_modified: dt.clone(), standard: [{ iana_prop: o.x_prop.clone(), dtstart: i.as_str(), rrule: { interval: key, freq: Daily, by_day: [m.clone()], until: ikal::Date::from(default), count: list, by_monthday: [builder] }, tzname: [v.id(&init), format!("{}", event)], }], }?], } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.method = Some(text(&a1)); x.iana_prop = a3.x_prop.clone(); x.version = text(&a2); x.freebusy = vec![{ let mut x = ikal::VFreebusy::default(); x.attendee = vec![uri(&a11), uri(&a12)]; x.organizer = Some(uri(&a13)); x.dtstart = Some(conv::<ikal::Date>(&a16)?); x.url = Some(uri(&a15)); x.iana_prop = a14.x_prop.clone(); x }, { let mut x = ikal::VFreebusy::default(); x.contact = Some(text(&a20)); x.dtstamp = conv::<ikal::DateTime>(&a23)?; x.x_prop = a21.x_prop.clone(); x.iana_prop = a24.x_prop.clone(); x.dtstart = Some(conv::<ikal::Date>(&a17)?); x.dtend = Some(conv::<ikal::Date>(&a18)?); x.url = Some(uri(&a22)); x.organizer = Some(uri(&a19)); x.freebusy = vec![]; x }, { let mut x = ikal::VFreebusy::default(); x.attendee = vec![uri(&a28), uri(&a29)]; x.url = Some(uri(&a25)); x.dtstamp = conv::<ikal::DateTime>(&a27)?; x.uid = text(&a26); x }]; x.x_prop = a4.x_prop.clone(); x.events = vec![{ let mut x = ikal::VEvent::default(); x.sequence = Some(a6); x.class = Some(ikal::Class::Confidential); x.rrule = Some(conv::<ikal::Recur>(&a7)?); x.status = Some(ikal::Status::Cancelled); x.related_to = vec![text(&a8), text(&a9)]; x.rstatus = vec![conv::<ikal::RequestStatus>(&a10)?]; x }]; x.prodid = text(&a5); x.timezones = vec![{ let mut x = ikal::VTimezone::default(); x.x_prop = a33.x_prop.clone(); x.standard = vec![]; x.tzid = text(&a30); x.iana_prop = a31.x_prop.clone(); x.tzurl = Some(uri(&a32)); x }, { let mut x = ikal::VTimezone::default(); x.last_modified = Some(conv::<ikal::DateTime>(&a36)?); x.iana_prop = a35.x_prop.clone(); x.x_prop = a37.x_prop.clone(); x.daylight = vec![]; x.standard = vec![]; x.tzurl = Some(uri(&a34)); x }, { let mut x = ikal::VTimezone::default(); x.tzurl = Some(uri(&a39)); x.tzid = text(&a41); x.iana_prop = a38.x_prop.clone(); x.last_modified = Some(conv::<ikal::DateTime>(&a40)?); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.iana_prop = a50.x_prop.clone(); x.dtstart = conv::<ikal::Date>(&a42)?; x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Daily; x.by_monthday = vec![a45]; x.interval = a46; x.by_day = vec![a47.clone()]; x.until = Some(ikal::Date::Date(a48)); x.count = Some(a49); x }); x.tzname = vec![text(&a43), text(&a44)]; x }]; x }]; x }))();
    v.judge(m, h, 8)
}
fn m377(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.props();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.uri();
    let a6 = v.byte();
    let a7 = v.date_time();
    let a8 = v.uri();
    let a9 = v.text();
    let a10 = v.props();
    let a11 = v.props();
    let a12 = v.props();
    let a13 = v.date();
    let a14 = v.offset();
    let a15 = v.text();
    let a16 = v.offset();
    let a17 = v.props();
    let a18 = v.text();
    let a19 = v.text();
    let a20 = v.offset();
    let a21 = v.offset();
    let a22 = v.trigger();
    let a23 = v.number();
    let a24 = v.duration();
    let a25 = v.text();
    let a26 = v.props();
    let a27 = v.uri();
    let a28 = v.uri();
    let a29 = v.uri();
    let a30 = v.trigger();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let component = a1.clone(); let self_ = a2.clone(); let date = a3.clone(); let input = a4.clone(); let calendar = a5.clone(); let d = a6.clone(); let builder = a7.clone(); let c = a8.clone(); let object = a9.clone(); let field = a10.clone(); let base = a11.clone(); let a = a12.clone(); let ast = a13.clone(); let parts = a14.clone(); let output = a15.clone(); let name = a16.clone(); let b = a17.clone(); let res = a18.clone(); let vevent = a19.clone(); let ty = a20.clone(); let it = a21.clone(); let key = a22.clone(); let n = a23.clone(); let err = a24.clone(); let out = a25.clone(); let parsed = a26.clone(); let item = a27.clone(); let ret = a28.clone(); let text = a29.clone(); let e = a30.clone(); ikal::vcalendar! { prodid: v.id(&date), todo: [ikal::vtodo! { attendee: [calendar.as_str()], percent_complete: u8::from(d), }?], x_prop: self_.x_prop.clone(), iana_prop: component.x_prop.clone(), timezones: [ikal::vtimezone! { daylight: [], tzid: v.id(&object), last_modified: builder, tzurl: v.id(&c), standard: [{ x_prop: field.x_prop.clone() }, { comment: [output.as_str()], dtstart: ast, x_prop: a.x_prop.clone(), tzname: [], tzoffsetto: v.id(&parts), tzoffsetfrom: name.trim_matches('~'), iana_prop: base.x_prop.clone(), }, { tzname: [], tzoffsetfrom: ty.clone(), tzoffsetto: it.clone(), iana_prop: b.x_prop.clone(), comment: [res.as_str(), v.id(&vevent)], }] }?], alarms: [ikal::valarm!(@email, )?, ikal::valarm!(@audio, repeat: (n | 0), trigger: key.as_str(), duration: v.id(&err),)?, ikal::valarm!(@email, summary: format!("{}", out), attendee: [item.clone(), ret.clone(), text.clone()], trigger: e, x_prop: parsed.x_prop.clone())?], method: Some(ikal::Text::from(input.as_str())), } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.prodid = text(&a3); x.todo = vec![{ let mut x = ikal::VTodo::default(); x.attendee = vec![uri(&a5)]; x.percent_complete = Some(a6); x }]; x.x_prop = a2.x_prop.clone(); x.iana_prop = a1.x_prop.clone(); x.timezones = vec![{ let mut x = ikal::VTimezone::default(); x.daylight = vec![]; x.tzid = text(&a9); x.last_modified = Some(conv::<ikal::DateTime>(&a7)?); x.tzurl = Some(uri(&a8)); x.standard = vec![{ let mut x = ikal::vtimezone::Standard::default(); x.x_prop = a10.x_prop.clone(); x }, { let mut x = ikal::vtimezone::Standard::default(); x.comment = vec![text(&a15)]; x.dtstart = conv::<ikal::Date>(&a13)?; x.x_prop = a12.x_prop.clone(); x.tzname = vec![]; x.tzoffsetto = conv::<chrono::FixedOffset>(&a14)?; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a16)?; x.iana_prop = a11.x_prop.clone(); x }, { let mut x = ikal::vtimezone::Standard::default(); x.tzname = vec![]; x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a20)?; x.tzoffsetto = conv::<chrono::FixedOffset>(&a21)?; x.iana_prop = a17.x_prop.clone(); x.comment = vec![text(&a18), text(&a19)]; x }]; x }]; x.alarms = vec![{ let mut x = ikal::valarm::Email::default();  x.action = text("EMAIL"); ikal::VAlarm::Email(x) }, { let mut x = ikal::valarm::Audio::default(); x.repeat = Some(a23); x.trigger = trigger(&a22)?; x.duration = Some(length(&a24)?); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }, { let mut x = ikal::valarm::Email::default(); x.summary = text(&a25); x.attendee = vec![uri(&a27), uri(&a28), uri(&a29)]; x.trigger = trigger(&a30)?; x.x_prop = a26.x_prop.clone(); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }]; x.method = Some(text(&a4)); x }))();
    v.judge(m, h, 6)
}
fn m378(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.date();
    let a6 = v.code();
    let a7 = v.text();
    let a8 = v.code();
    let a9 = v.text();
    let a10 = v.text();
    let a11 = v.text();
    let a12 = v.text();
    let a13 = v.byte();
    let a14 = v.date_time();
    let a15 = v.text();
    let a16 = v.byte();
    let a17 = v.text();
    let a18 = v.text();
    let a19 = v.number();
    let a20 = v.props();
    let a21 = v.trigger();
    let a22 = v.props();
    let a23 = v.text();
    let a24 = v.props();
    let a25 = v.props();
    let a26 = v.duration();
    let a27 = v.number();
    let a28 = v.props();
    let a29 = v.trigger();
    let a30 = v.props();
    let a31 = v.position();
    let a32 = v.text();
    let a33 = v.uri();
    let a34 = v.duration();
    let a35 = v.date();
    let a36 = v.trigger();
    let a37 = v.duration();
    let a38 = v.text();
    let a39 = v.text();
    let a40 = v.text();
    let a41 = v.props();
    let a42 = v.props();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let builder = a1.clone(); let result = a2.clone(); let text = a3.clone(); let ok = a4.clone(); let o = a5.clone(); let res = a6.clone(); let entry = a7.clone(); let r = a8.clone(); let n = a9.clone(); let base = a10.clone(); let input = a11.clone(); let name = a12.clone(); let values = a13.clone(); let err = a14.clone(); let inner = a15.clone(); let fields = a16.clone(); let out = a17.clone(); let d = a18.clone(); let vevent = a19.clone(); let t = a20.clone(); let init = a21.clone(); let it = a22.clone(); let key = a23.clone(); let list = a24.clone(); let x = a25.clone(); let i = a26.clone(); let ty = a27.clone(); let output = a28.clone(); let dt = a29.clone(); let tmp = a30.clone(); let todo = a31.clone(); let default = a32.clone(); let ret = a33.clone(); let this = a34.clone(); let m = a35.clone(); let map = a36.clone(); let e = a37.clone(); let c = a38.clone(); let alarm = a39.clone(); let val = a40.clone(); let a = a41.clone(); let config = a42.clone(); ikal::vcalendar! { prodid: format!("{}", result), events: [{ priority: (values + 0), rstatus: [{ statcode: res, statdesc: entry.as_str() }, { statcode: r, statdesc: n.as_str() }], dtstart: o.clone(), created: err.trim_matches('~'), transp: Opaque, resources: [ok.as_str()], alarms: [], summary: name.as_str(), comment: [v.id(&base), format!("{}", input)], }, { alarms: [ikal::valarm!(@audio, x_prop: t.x_prop.clone(), repeat: vevent, attach: [format!("{}", d)],)?, ikal::valarm!(@display, description: format!("{}", key), iana_prop: it.x_prop.clone(), trigger: v.id(&init), x_prop: list.x_prop.clone())?, ikal::valarm!(@audio, x_prop: output.x_prop.clone(), trigger: dt.as_str(), repeat: (ty | 0), duration: i.as_str(), iana_prop: x.x_prop.clone(),)?], priority: (fields + 0), status: Draft, resources: [inner.as_str()], description: out.as_str() }, { dtstart: format!("{}", m), transp: Opaque, geo: todo.trim_matches('~'), rstatus: [], categories: [], url: ret.clone(), iana_prop: tmp.x_prop.clone(), location: format!("{}", default), duration: &this }], alarms: [ikal::valarm!(@email, duration: v.id(&e), attach: [c.as_str()], x_prop: config.x_prop.clone(), iana_prop: a.x_prop.clone(), trigger: map.as_str(), summary: format!("{}", val), description: format!("{}", alarm),)?], method: Some(ikal::Text::from(text.as_str())), journals: [ikal::vjournal! { status: Completed, }?, ikal::vjournal! {  }?], iana_prop: builder.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.prodid = text(&a2); x.events = vec![{ let mut x = ikal::VEvent::default(); x.priority = Some(a13); x.rstatus = vec![ikal::RequestStatus { statcode: a6, statdesc: a7.clone(), extdata: None }, ikal::RequestStatus { statcode: a8, statdesc: a9.clone(), extdata: None }]; x.dtstart = conv::<ikal::Date>(&a5)?; x.created = Some(conv::<ikal::DateTime>(&a14)?); x.transp = Some(ikal::TimeTransparency::Opaque); x.resources = vec![text(&a4)]; x.alarms = vec![]; x.summary = Some(text(&a12)); x.comment = vec![text(&a10), text(&a11)]; x }, { let mut x = ikal::VEvent::default(); x.alarms = vec![{ let mut x = ikal::valarm::Audio::default(); x.x_prop = a20.x_prop.clone(); x.repeat = Some(a19); x.attach = vec![text(&a18)]; x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }, { let mut x = ikal::valarm::Display::default(); x.description = text(&a23); x.iana_prop = a22.x_prop.clone(); x.trigger = trigger(&a21)?; x.x_prop = a24.x_prop.clone(); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }, { let mut x = ikal::valarm::Audio::default(); x.x_prop = a28.x_prop.clone(); x.trigger = trigger(&a29)?; x.repeat = Some(a27); x.duration = Some(length(&a26)?); x.iana_prop = a25.x_prop.clone(); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }]; x.priority = Some(a16); x.status = Some(ikal::Status::Draft); x.resources = vec![text(&a15)]; x.description = Some(text(&a17)); x }, { let mut x = ikal::VEvent::default(); x.dtstart = conv::<ikal::Date>(&a35)?; x.transp = Some(ikal::TimeTransparency::Opaque); x.geo = Some(conv::<ikal::Geo>(&a31)?); x.rstatus = vec![]; x.categories = vec![]; x.url = Some(uri(&a33)); x.iana_prop = a30.x_prop.clone(); x.location = Some(text(&a32)); x.duration = Some(length(&a34)?); x }]; x.alarms = vec![{ let mut x = ikal::valarm::Email::default(); x.duration = Some(length(&a37)?); x.attach = vec![text(&a38)]; x.x_prop = a42.x_prop.clone(); x.iana_prop = a41.x_prop.clone(); x.trigger = trigger(&a36)?; x.summary = text(&a40); x.description = text(&a39); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }]; x.method = Some(text(&a3)); x.journals = vec![{ let mut x = ikal::VJournal::default(); x.status = Some(ikal::Status::Completed); x }, { let mut x = ikal::VJournal::default();  x }]; x.iana_prop = a1.x_prop.clone(); x }))();
    v.judge(m, h, 3)
}
fn m379(v: &mut V) -> Result<(), String> {
    let a1 = v.props();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.props();
    let a6 = v.text();
    let a7 = v.byte();
    let a8 = v.byte();
    let a9 = v.day();
    let a10 = v.byte();
    let a11 = v.date();
    let a12 = v.text();
    let a13 = v.text();
    let a14 = v.number();
    let a15 = v.date_time();
    let a16 = v.text();
    let a17 = v.text();
    let a18 = v.text();
    let a19 = v.text();
    let a20 = v.uri();
    let a21 = v.code();
    let a22 = v.text();
    let a23 = v.text();
    let a24 = v.status();
    let a25 = v.text();
    let a26 = v.text();
    let a27 = v.rule();
    let a28 = v.uri();
    let a29 = v.text();
    let a30 = v.uri();
    let a31 = v.number();
    let a32 = v.offset();
    let a33 = v.text();
    let a34 = v.props();
    let a35 = v.text();
    let a36 = v.text();
    let a37 = v.text();
    let a38 = v.text();
    let a39 = v.text();
    let a40 = v.duration();
    let m: ikal::Result<ikal::VCalendar> = (|| { let v = &*v; let n = a1.clone(); let ty = a2.clone(); let b = a3.clone(); let init = a4.clone(); let d = a5.clone(); let err = a6.clone(); let entry = a7.clone(); let e = a8.clone(); let ok = a9.clone(); let o = a10.clone(); let val = a11.clone(); let t = a12.clone(); let output = a13.clone(); let dt = a14.clone(); let this = a15.clone(); let base = a16.clone(); let parts = a17.clone(); let a = a18.clone(); let s = a19.clone(); let map = a20.clone(); let self_ = a21.clone(); let res = a22.clone(); let field = a23.clone(); let parsed = a24.clone(); let fields = a25.clone(); let f = a26.clone(); let object = a27.clone(); let input = a28.clone(); let alarm = a29.clone(); let c = a30.clone(); let vevent = a31.clone(); let inner = a32.clone(); let event = a33.clone(); let component = a34.clone(); let config = a35.clone(); let vcalendar = a36.clone(); let name = a37.clone(); let ret = a38.clone(); let it = a39.clone(); let out = a40.clone(); ikal::vcalendar! { version: err.clone(), iana_prop: n.x_prop.clone(), alarms: [ikal::valarm!(@display, description: v.id(&event))?, ikal::valarm!(@email, summary: it.clone(), attach: [format!("{}", config), v.id(&vcalendar), name.clone(), v.id(&ret)], x_prop: component.x_prop.clone(), duration: &out)?, ikal::valarm!(@email, )?], journals: [ikal::vjournal! { url: v.id(&map), categories: [v.id(&base), parts.clone(), a.as_str(), s.clone()], rstatus: [{ statcode: self_, statdesc: res.as_str(), extdata: field.clone() }, v.id(&parsed)] }?, ikal::vjournal! {  }?, ikal::vjournal! { organizer: c.as_str(), comment: [fields.as_str(), format!("{}", f)], url: input.clone(), sequence: (vevent | 0), related_to: [v.id(&alarm)], rrule: format!("{}", object), }?], todo: [ikal::vtodo! { rrule: { until: ikal::Date::from(ok), count: e, interval: o, freq: Weekly }, percent_complete: entry, recurid: v.id(&val), }?, ikal::vtodo! { created: format!("{}", this), sequence: dt, resources: [v.id(&t), format!("{}", output)], }?], timezones: [ikal::vtimezone! { standard: [], daylight: [{ tzoffsetfrom: inner.as_str(), }], }?], calscale: Some(ikal::Text::from(b.as_str())), method: Some(ikal::Text::from(ty.as_str())), prodid: init.as_str(), x_prop: d.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VCalendar> = (|| Ok({ let mut x = ikal::VCalendar::default(); x.version = text(&a6); x.iana_prop = a1.x_prop.clone(); x.alarms = vec![{ let mut x = ikal::valarm::Display::default(); x.description = text(&a33); x.action = text("DISPLAY"); ikal::VAlarm::Display(x) }, { let mut x = ikal::valarm::Email::default(); x.summary = text(&a39); x.attach = vec![text(&a35), text(&a36), text(&a37), text(&a38)]; x.x_prop = a34.x_prop.clone(); x.duration = Some(length(&a40)?); x.action = text("EMAIL"); ikal::VAlarm::Email(x) }, { let mut x = ikal::valarm::Email::default();  x.action = text("EMAIL"); ikal::VAlarm::Email(x) }]; x.journals = vec![{ let mut x = ikal::VJournal::default(); x.url = Some(uri(&a20)); x.categories = vec![text(&a16), text(&a17), text(&a18), text(&a19)]; x.rstatus = vec![ikal::RequestStatus { statcode: a21, statdesc: a22.clone(), extdata: Some(a23.clone()) }, conv::<ikal::RequestStatus>(&a24)?]; x }, { let mut x = ikal::VJournal::default();  x }, { let mut x = ikal::VJournal::default(); x.organizer = Some(uri(&a30)); x.comment = vec![text(&a25), text(&a26)]; x.url = Some(uri(&a28)); x.sequence = Some(a31); x.related_to = vec![text(&a29)]; x.rrule = Some(conv::<ikal::Recur>(&a27)?); x }]; x.todo = vec![{ let mut x = ikal::VTodo::default(); x.rrule = Some({ let mut x = ikal::Recur::default(); x.freq = ikal::Freq::Weekly; x.count = Some(a8); x.until = Some(ikal::Date::Date(a9)); x.interval = a10; x }); x.percent_complete = Some(a7); x.recurid = Some(conv::<ikal::Date>(&a11)?); x }, { let mut x = ikal::VTodo::default(); x.created = Some(conv::<ikal::DateTime>(&a15)?); x.sequence = Some(a14); x.resources = vec![text(&a12), text(&a13)]; x }]; x.timezones = vec![{ let mut x = ikal::VTimezone::default(); x.standard = vec![]; x.daylight = vec![{ let mut x = ikal::vtimezone::Daylight::default(); x.tzoffsetfrom = conv::<chrono::FixedOffset>(&a32)?; x }]; x }]; x.calscale = Some(text(&a3)); x.method = Some(text(&a2)); x.prodid = text(&a4); x.x_prop = a5.x_prop.clone(); x }))();
    v.judge(m, h, 9)
}
fn m380(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.date();
    let a4 = v.text();
    let a5 = v.text();
    let a6 = v.text();
    let a7 = v.date();
    let a8 = v.date_time();
    let a9 = v.props();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let vcalendar = a1.clone(); let parts = a2.clone(); let res = a3.clone(); let text = a4.clone(); let item = a5.clone(); let o = a6.clone(); let c = a7.clone(); let b = a8.clone(); let self_ = a9.clone(); ikal::vevent! { dtstart: v.id(&c), last_modified: b.clone(), recurid: res.as_str(), x_prop: self_.x_prop.clone(), comment: [text.clone(), item.as_str(), o.clone()], contact: [v.id(&vcalendar), parts.clone()], status: Completed, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.dtstart = conv::<ikal::Date>(&a7)?; x.last_modified = Some(conv::<ikal::DateTime>(&a8)?); x.recurid = Some(conv::<ikal::Date>(&a3)?); x.x_prop = a9.x_prop.clone(); x.comment = vec![text(&a4), text(&a5), text(&a6)]; x.contact = vec![text(&a1), text(&a2)]; x.status = Some(ikal::Status::Completed); x }))();
    v.judge(m, h, 2)
}
fn m381(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! {  } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default();  x }))();
    v.judge(m, h, 0)
}
fn m382(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.number();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let a = a1.clone(); let text = a2.clone(); let event = a3.clone(); let todo = a4.clone(); ikal::vevent! { sequence: todo, rstatus: [], contact: [v.id(&a), format!("{}", text), event.clone()] } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.sequence = Some(a4); x.rstatus = vec![]; x.contact = vec![text(&a1), text(&a2), text(&a3)]; x }))();
    v.judge(m, h, 1)
}
fn m383(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! {  } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default();  x }))();
    v.judge(m, h, 0)
}
fn m384(v: &mut V) -> Result<(), String> {
    let a1 = v.text();
    let a2 = v.text();
    let a3 = v.props();
    let a4 = v.trigger();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let i = a1.clone(); let s = a2.clone(); let res = a3.clone(); let vcalendar = a4.clone(); ikal::vevent! { alarms: [ikal::valarm!(@audio, x_prop: res.x_prop.clone(), trigger: vcalendar.as_str(), attach: [format!("{}", i), format!("{}", s)],)?] } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.alarms = vec![{ let mut x = ikal::valarm::Audio::default(); x.x_prop = a3.x_prop.clone(); x.trigger = trigger(&a4)?; x.attach = vec![text(&a1), text(&a2)]; x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }]; x }))();
    v.judge(m, h, 0)
}
fn m385(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let a2 = v.text();
    let a3 = v.uri();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { dtend: a1, description: a2.clone(), attendee: [v.id(&a3)], } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.dtend = Some(conv::<ikal::Date>(&a1)?); x.description = Some(text(&a2)); x.attendee = vec![uri(&a3)]; x }))();
    v.judge(m, h, 1)
}
fn m386(v: &mut V) -> Result<(), String> {
    let a1 = v.date_time();
    let a2 = v.text();
    let a3 = v.text();
    let a4 = v.text();
    let a5 = v.props();
    let a6 = v.uri();
    let a7 = v.date();
    let a8 = v.text();
    let a9 = v.text();
    let a10 = v.text();
    let a11 = v.props();
    let a12 = v.props();
    let a13 = v.number();
    let a14 = v.trigger();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let it = a1.clone(); let parsed = a2.clone(); let object = a3.clone(); let a = a4.clone(); let c = a5.clone(); let config = a6.clone(); let x = a7.clone(); let item = a8.clone(); let vevent = a9.clone(); let ast = a10.clone(); let i = a11.clone(); let text = a12.clone(); let inner = a13.clone(); let base = a14.clone(); ikal::vevent! { last_modified: it.as_str(), attendee: [config.clone()], resources: [parsed.as_str(), object.as_str(), v.id(&a)], alarms: [ikal::valarm!(@audio, iana_prop: i.x_prop.clone(), trigger: base, x_prop: text.x_prop.clone(), repeat: inner,)?], summary: vevent.clone(), class: Private, recurid: format!("{}", x), uid: v.id(&ast), contact: [item.as_str()], iana_prop: c.x_prop.clone(), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.last_modified = Some(conv::<ikal::DateTime>(&a1)?); x.attendee = vec![uri(&a6)]; x.resources = vec![text(&a2), text(&a3), text(&a4)]; x.alarms = vec![{ let mut x = ikal::valarm::Audio::default(); x.iana_prop = a11.x_prop.clone(); x.trigger = trigger(&a14)?; x.x_prop = a12.x_prop.clone(); x.repeat = Some(a13); x.action = text("AUDIO"); ikal::VAlarm::Audio(x) }]; x.summary = Some(text(&a9)); x.class = Some(ikal::Class::Private); x.recurid = Some(conv::<ikal::Date>(&a7)?); x.uid = text(&a10); x.contact = vec![text(&a8)]; x.iana_prop = a5.x_prop.clone(); x }))();
    v.judge(m, h, 2)
}
fn m387(v: &mut V) -> Result<(), String> {
    let a1 = v.number();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let values = a1.clone(); ikal::vevent! { sequence: values, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.sequence = Some(a1); x }))();
    v.judge(m, h, 0)
}
fn m388(v: &mut V) -> Result<(), String> {
    let a1 = v.float();
    let a2 = v.float();
    let a3 = v.duration();
    let a4 = v.text();
    let a5 = v.number();
    let a6 = v.text();
    let a7 = v.text();
    let a8 = v.text();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let d = a1.clone(); let entry = a2.clone(); let a = a3.clone(); let n = a4.clone(); let ty = a5.clone(); let parts = a6.clone(); let b = a7.clone(); let v = a8.clone(); ikal::vevent! { comment: [n.clone()], sequence: (ty | 0), related_to: [format!("{}", parts), b.clone(), v.as_str()], geo: { lat: d, lon: entry }, duration: &a, resources: [], } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.comment = vec![text(&a4)]; x.sequence = Some(a5); x.related_to = vec![text(&a6), text(&a7), text(&a8)]; x.geo = Some(ikal::Geo { lat: a1, lon: a2 }); x.duration = Some(length(&a3)?); x.resources = vec![]; x }))();
    v.judge(m, h, 0)
}
fn m389(v: &mut V) -> Result<(), String> {
    let a1 = v.date();
    let a2 = v.props();
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; let x = a1.clone(); let list = a2.clone(); ikal::vevent! { iana_prop: list.x_prop.clone(), status: NeedsAction, transp: Transparent, recurid: x.as_str(), } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.iana_prop = a2.x_prop.clone(); x.status = Some(ikal::Status::NeedsAction); x.transp = Some(ikal::TimeTransparency::Transparent); x.recurid = Some(conv::<ikal::Date>(&a1)?); x }))();
    v.judge(m, h, 0)
}
fn m390(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { class: Public, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.class = Some(ikal::Class::Public); x }))();
    v.judge(m, h, 0)
}
fn m391(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { class: Private } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.class = Some(ikal::Class::Private); x }))();
    v.judge(m, h, 0)
}
fn m392(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { class: Confidential, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.class = Some(ikal::Class::Confidential); x }))();
    v.judge(m, h, 0)
}
fn m393(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { status: Tentative, } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.status = Some(ikal::Status::Tentative); x }))();
    v.judge(m, h, 0)
}
fn m394(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { status: Confirmed, } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.status = Some(ikal::Status::Confirmed); x }))();
    v.judge(m, h, 0)
}
fn m395(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { status: Cancelled } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.status = Some(ikal::Status::Cancelled); x }))();
    v.judge(m, h, 0)
}
fn m396(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { status: NeedsAction } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.status = Some(ikal::Status::NeedsAction); x }))();
    v.judge(m, h, 0)
}
fn m397(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { status: Completed } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.status = Some(ikal::Status::Completed); x }))();
    v.judge(m, h, 0)
}
fn m398(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { status: InProcess, } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.status = Some(ikal::Status::InProcess); x }))();
    v.judge(m, h, 0)
}
fn m399(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { status: Draft } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.status = Some(ikal::Status::Draft); x }))();
    v.judge(m, h, 0)
}
fn m400(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VTodo> = (|| { let v = &*v; ikal::vtodo! { status: Final, } })();
    let h: ikal::Result<ikal::VTodo> = (|| Ok({ let mut x = ikal::VTodo::default(); x.status = Some(ikal::Status::Final); x }))();
    v.judge(m, h, 0)
}
fn m401(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { status: Tentative, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.status = Some(ikal::Status::Tentative); x }))();
    v.judge(m, h, 0)
}
fn m402(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { status: Confirmed, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.status = Some(ikal::Status::Confirmed); x }))();
    v.judge(m, h, 0)
}
fn m403(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { status: Cancelled, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.status = Some(ikal::Status::Cancelled); x }))();
    v.judge(m, h, 0)
}
fn m404(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { status: NeedsAction, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.status = Some(ikal::Status::NeedsAction); x }))();
    v.judge(m, h, 0)
}
fn m405(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { status: Completed } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.status = Some(ikal::Status::Completed); x }))();
    v.judge(m, h, 0)
}
fn m406(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { status: InProcess, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.status = Some(ikal::Status::InProcess); x }))();
    v.judge(m, h, 0)
}
fn m407(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { status: Draft, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.status = Some(ikal::Status::Draft); x }))();
    v.judge(m, h, 0)
}
fn m408(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { status: Final, } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.status = Some(ikal::Status::Final); x }))();
    v.judge(m, h, 0)
}
fn m409(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { status: Tentative } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.status = Some(ikal::Status::Tentative); x }))();
    v.judge(m, h, 0)
}
fn m410(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { status: Confirmed, } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.status = Some(ikal::Status::Confirmed); x }))();
    v.judge(m, h, 0)
}
fn m411(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { status: Cancelled } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.status = Some(ikal::Status::Cancelled); x }))();
    v.judge(m, h, 0)
}
fn m412(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { status: NeedsAction } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.status = Some(ikal::Status::NeedsAction); x }))();
    v.judge(m, h, 0)
}
fn m413(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { status: Completed, } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.status = Some(ikal::Status::Completed); x }))();
    v.judge(m, h, 0)
}
fn m414(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { status: InProcess, } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.status = Some(ikal::Status::InProcess); x }))();
    v.judge(m, h, 0)
}
fn m415(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { status: Draft, } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.status = Some(ikal::Status::Draft); x }))();
    v.judge(m, h, 0)
}
fn m416(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VJournal> = (|| { let v = &*v; ikal::vjournal! { status: Final } })();
    let h: ikal::Result<ikal::VJournal> = (|| Ok({ let mut x = ikal::VJournal::default(); x.status = Some(ikal::Status::Final); x }))();
    v.judge(m, h, 0)
}
fn m417(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { transp: Opaque } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.transp = Some(ikal::TimeTransparency::Opaque); x }))();
    v.judge(m, h, 0)
}
fn m418(v: &mut V) -> Result<(), String> {
    let m: ikal::Result<ikal::VEvent> = (|| { let v = &*v; ikal::vevent! { transp: Transparent } })();
    let h: ikal::Result<ikal::VEvent> = (|| Ok({ let mut x = ikal::VEvent::default(); x.transp = Some(ikal::TimeTransparency::Transparent); x }))();
    v.judge(m, h, 0)
}

pub const CALLS: &[(fn(&mut V) -> Result<(), String>, &str, &str)] = &[
    (m0, "VEvent", ""),
    (m1, "VEvent", "dtstamp"),
    (m2, "VEvent", "dtstamp"),
    (m3, "VEvent", "uid"),
    (m4, "VEvent", "uid"),
    (m5, "VEvent", "dtstart"),
    (m6, "VEvent", "dtstart"),
    (m7, "VEvent", "class"),
    (m8, "VEvent", "class"),
    (m9, "VEvent", "created"),
    (m10, "VEvent", "created"),
    (m11, "VEvent", "description"),
    (m12, "VEvent", "description"),
    (m13, "VEvent", "geo"),
    (m14, "VEvent", "geo"),
    (m15, "VEvent", "last_modified"),
    (m16, "VEvent", "last_modified"),
    (m17, "VEvent", "location"),
    (m18, "VEvent", "location"),
    (m19, "VEvent", "organizer"),
    (m20, "VEvent", "organizer"),
    (m21, "VEvent", "priority"),
    (m22, "VEvent", "priority"),
    (m23, "VEvent", "sequence"),
    (m24, "VEvent", "sequence"),
    (m25, "VEvent", "status"),
    (m26, "VEvent", "status"),
    (m27, "VEvent", "summary"),
    (m28, "VEvent", "summary"),
    (m29, "VEvent", "transp"),
    (m30, "VEvent", "transp"),
    (m31, "VEvent", "url"),
    (m32, "VEvent", "url"),
    (m33, "VEvent", "recurid"),
    (m34, "VEvent", "recurid"),
    (m35, "VEvent", "rrule"),
    (m36, "VEvent", "rrule"),
    (m37, "VEvent", "dtend"),
    (m38, "VEvent", "dtend"),
    (m39, "VEvent", "duration"),
    (m40, "VEvent", "duration"),
    (m41, "VEvent", "resources"),
    (m42, "VEvent", "resources"),
    (m43, "VEvent", "attach"),
    (m44, "VEvent", "attach"),
    (m45, "VEvent", "attendee"),
    (m46, "VEvent", "attendee"),
    (m47, "VEvent", "categories"),
    (m48, "VEvent", "categories"),
    (m49, "VEvent", "comment"),
    (m50, "VEvent", "comment"),
    (m51, "VEvent", "contact"),
    (m52, "VEvent", "contact"),
    (m53, "VEvent", "exdate"),
    (m54, "VEvent", "exdate"),
    (m55, "VEvent", "rstatus"),
    (m56, "VEvent", "rstatus"),
    (m57, "VEvent", "related_to"),
    (m58, "VEvent", "related_to"),
    (m59, "VEvent", "x_prop"),
    (m60, "VEvent", "x_prop"),
    (m61, "VEvent", "iana_prop"),
    (m62, "VEvent", "iana_prop"),
    (m63, "VEvent", "duration x_prop summary exdate organizer comment class location contact uid dtstamp sequence last_modified description resources status recurid attach dtend rstatus created rrule iana_prop categories related_to attendee transp priority url dtstart geo"),
    (m64, "VEvent", "alarms recurid rstatus sequence rrule categories comment"),
    (m65, "VEvent", "dtend x_prop"),
    (m66, "VEvent", "alarms contact dtstamp transp"),
    (m67, "VEvent", "description status"),
    (m68, "VEvent", "location uid priority contact description related_to rrule recurid"),
    (m69, "VEvent", "rrule sequence alarms"),
    (m70, "VEvent", "description geo class created"),
    (m71, "VEvent", "attendee"),
    (m72, "VTodo", ""),
    (m73, "VTodo", "dtstamp"),
    (m74, "VTodo", "dtstamp"),
    (m75, "VTodo", "uid"),
    (m76, "VTodo", "uid"),
    (m77, "VTodo", "class"),
    (m78, "VTodo", "class"),
    (m79, "VTodo", "completed"),
    (m80, "VTodo", "completed"),
    (m81, "VTodo", "created"),
    (m82, "VTodo", "created"),
    (m83, "VTodo", "dtstart"),
    (m84, "VTodo", "dtstart"),
    (m85, "VTodo", "geo"),
    (m86, "VTodo", "geo"),
    (m87, "VTodo", "last_modified"),
    (m88, "VTodo", "last_modified"),
    (m89, "VTodo", "location"),
    (m90, "VTodo", "location"),
    (m91, "VTodo", "organizer"),
    (m92, "VTodo", "organizer"),
    (m93, "VTodo", "percent_complete"),
    (m94, "VTodo", "percent_complete"),
    (m95, "VTodo", "priority"),
    (m96, "VTodo", "priority"),
    (m97, "VTodo", "recurid"),
    (m98, "VTodo", "recurid"),
    (m99, "VTodo", "sequence"),
    (m100, "VTodo", "sequence"),
    (m101, "VTodo", "status"),
    (m102, "VTodo", "status"),
    (m103, "VTodo", "summary"),
    (m104, "VTodo", "summary"),
    (m105, "VTodo", "url"),
    (m106, "VTodo", "url"),
    (m107, "VTodo", "rrule"),
    (m108, "VTodo", "rrule"),
    (m109, "VTodo", "due"),
    (m110, "VTodo", "due"),
    (m111, "VTodo", "duration"),
    (m112, "VTodo", "duration"),
    (m113, "VTodo", "resources"),
    (m114, "VTodo", "resources"),
    (m115, "VTodo", "attach"),
    (m116, "VTodo", "attach"),
    (m117, "VTodo", "attendee"),
    (m118, "VTodo", "attendee"),
    (m119, "VTodo", "categories"),
    (m120, "VTodo", "categories"),
    (m121, "VTodo", "comment"),
    (m122, "VTodo", "comment"),
    (m123, "VTodo", "contact"),
    (m124, "VTodo", "contact"),
    (m125, "VTodo", "exdate"),
    (m126, "VTodo", "exdate"),
    (m127, "VTodo", "rstatus"),
    (m128, "VTodo", "rstatus"),
    (m129, "VTodo", "related_to"),
    (m130, "VTodo", "related_to"),
    (m131, "VTodo", "x_prop"),
    (m132, "VTodo", "x_prop"),
    (m133, "VTodo", "iana_prop"),
    (m134, "VTodo", "iana_prop"),
    (m135, "VTodo", "class completed geo url dtstamp created last_modified iana_prop uid categories dtstart x_prop resources due location attach summary attendee rstatus priority contact duration organizer percent_complete comment rrule sequence exdate recurid related_to status"),
    (m136, "VTodo", "dtstart dtstamp x_prop rrule resources duration priority"),
    (m137, "VTodo", "exdate duration dtstart x_prop"),
    (m138, "VTodo", "sequence dtstamp"),
    (m139, "VTodo", ""),
    (m140, "VTodo", "categories geo rrule resources dtstamp"),
    (m141, "VTodo", "url summary"),
    (m142, "VTodo", "comment last_modified class url iana_prop"),
    (m143, "VTodo", "url dtstamp"),
    (m144, "VJournal", ""),
    (m145, "VJournal", "dtstamp"),
    (m146, "VJournal", "dtstamp"),
    (m147, "VJournal", "uid"),
    (m148, "VJournal", "uid"),
    (m149, "VJournal", "class"),
    (m150, "VJournal", "class"),
    (m151, "VJournal", "created"),
    (m152, "VJournal", "created"),
    (m153, "VJournal", "dtstart"),
    (m154, "VJournal", "dtstart"),
    (m155, "VJournal", "last_modified"),
    (m156, "VJournal", "last_modified"),
    (m157, "VJournal", "organizer"),
    (m158, "VJournal", "organizer"),
    (m159, "VJournal", "recurid"),
    (m160, "VJournal", "recurid"),
    (m161, "VJournal", "sequence"),
    (m162, "VJournal", "sequence"),
    (m163, "VJournal", "status"),
    (m164, "VJournal", "status"),
    (m165, "VJournal", "summary"),
    (m166, "VJournal", "summary"),
    (m167, "VJournal", "url"),
    (m168, "VJournal", "url"),
    (m169, "VJournal", "rrule"),
    (m170, "VJournal", "rrule"),
    (m171, "VJournal", "description"),
    (m172, "VJournal", "description"),
    (m173, "VJournal", "attach"),
    (m174, "VJournal", "attach"),
    (m175, "VJournal", "attendee"),
    (m176, "VJournal", "attendee"),
    (m177, "VJournal", "categories"),
    (m178, "VJournal", "categories"),
    (m179, "VJournal", "comment"),
    (m180, "VJournal", "comment"),
    (m181, "VJournal", "contact"),
    (m182, "VJournal", "contact"),
    (m183, "VJournal", "exdate"),
    (m184, "VJournal", "exdate"),
    (m185, "VJournal", "rstatus"),
    (m186, "VJournal", "rstatus"),
    (m187, "VJournal", "related_to"),
    (m188, "VJournal", "related_to"),
    (m189, "VJournal", "x_prop"),
    (m190, "VJournal", "x_prop"),
    (m191, "VJournal", "iana_prop"),
    (m192, "VJournal", "iana_prop"),
    (m193, "VJournal", "rstatus related_to organizer summary last_modified status comment exdate url dtstamp categories uid created class rrule attendee description recurid attach contact iana_prop sequence dtstart x_prop"),
    (m194, "VJournal", "created categories"),
    (m195, "VJournal", "iana_prop rstatus contact dtstamp summary"),
    (m196, "VJournal", ""),
    (m197, "VJournal", "organizer url rrule last_modified sequence status dtstart description"),
    (m198, "VJournal", "attach dtstamp comment categories last_modified x_prop"),
    (m199, "VJournal", "x_prop exdate"),
    (m200, "VJournal", "sequence last_modified exdate"),
    (m201, "VJournal", "attendee categories exdate dtstart url"),
    (m202, "VFreebusy", ""),
    (m203, "VFreebusy", "dtstamp"),
    (m204, "VFreebusy", "dtstamp"),
    (m205, "VFreebusy", "uid"),
    (m206, "VFreebusy", "uid"),
    (m207, "VFreebusy", "contact"),
    (m208, "VFreebusy", "contact"),
    (m209, "VFreebusy", "dtstart"),
    (m210, "VFreebusy", "dtstart"),
    (m211, "VFreebusy", "dtend"),
    (m212, "VFreebusy", "dtend"),
    (m213, "VFreebusy", "organizer"),
    (m214, "VFreebusy", "organizer"),
    (m215, "VFreebusy", "url"),
    (m216, "VFreebusy", "url"),
    (m217, "VFreebusy", "attendee"),
    (m218, "VFreebusy", "attendee"),
    (m219, "VFreebusy", "comment"),
    (m220, "VFreebusy", "comment"),
    (m221, "VFreebusy", "freebusy"),
    (m222, "VFreebusy", "freebusy"),
    (m223, "VFreebusy", "rstatus"),
    (m224, "VFreebusy", "rstatus"),
    (m225, "VFreebusy", "x_prop"),
    (m226, "VFreebusy", "x_prop"),
    (m227, "VFreebusy", "iana_prop"),
    (m228, "VFreebusy", "iana_prop"),
    (m229, "VFreebusy", "x_prop dtstamp url dtstart dtend attendee contact iana_prop freebusy uid organizer comment rstatus"),
    (m230, "VFreebusy", "rstatus dtend"),
    (m231, "VFreebusy", "iana_prop uid x_prop url comment contact dtstamp"),
    (m232, "VFreebusy", "x_prop dtstamp organizer"),
    (m233, "VFreebusy", "contact dtstamp comment x_prop dtend uid organizer attendee"),
    (m234, "VFreebusy", "url comment contact iana_prop freebusy dtstart"),
    (m235, "VFreebusy", "freebusy organizer dtend attendee dtstamp url dtstart iana_prop uid"),
    (m236, "VFreebusy", "rstatus contact x_prop dtstart attendee"),
    (m237, "VFreebusy", "dtstart x_prop"),
    (m238, "VTimezone", ""),
    (m239, "VTimezone", "tzid"),
    (m240, "VTimezone", "tzid"),
    (m241, "VTimezone", "last_modified"),
    (m242, "VTimezone", "last_modified"),
    (m243, "VTimezone", "tzurl"),
    (m244, "VTimezone", "tzurl"),
    (m245, "VTimezone", "x_prop"),
    (m246, "VTimezone", "x_prop"),
    (m247, "VTimezone", "iana_prop"),
    (m248, "VTimezone", "iana_prop"),
    (m249, "VTimezone", "tzid daylight last_modified iana_prop tzurl x_prop"),
    (m250, "VTimezone", "standard daylight"),
    (m251, "VTimezone", "daylight standard"),
    (m252, "VTimezone", "daylight"),
    (m253, "VTimezone", "daylight standard"),
    (m254, "VTimezone", "tzid daylight x_prop last_modified tzurl iana_prop"),
    (m255, "VTimezone", "standard tzurl tzid daylight"),
    (m256, "VTimezone", "last_modified tzid x_prop"),
    (m257, "VTimezone", "tzurl last_modified"),
    (m258, "VCalendar", ""),
    (m259, "VCalendar", "prodid"),
    (m260, "VCalendar", "prodid"),
    (m261, "VCalendar", "version"),
    (m262, "VCalendar", "version"),
    (m263, "VCalendar", "calscale"),
    (m264, "VCalendar", "calscale"),
    (m265, "VCalendar", "method"),
    (m266, "VCalendar", "method"),
    (m267, "VCalendar", "x_prop"),
    (m268, "VCalendar", "x_prop"),
    (m269, "VCalendar", "iana_prop"),
    (m270, "VCalendar", "iana_prop"),
    (m271, "VCalendar", "x_prop calscale prodid iana_prop events version timezones journals method alarms"),
    (m272, "VCalendar", "calscale iana_prop freebusy timezones method x_prop todo alarms version prodid journals"),
    (m273, "VCalendar", "freebusy timezones events journals"),
    (m274, "VCalendar", "events"),
    (m275, "VCalendar", "freebusy events timezones version"),
    (m276, "VCalendar", "todo freebusy method journals alarms"),
    (m277, "VCalendar", "todo events journals alarms version"),
    (m278, "valarm::Audio", ""),
    (m279, "valarm::Audio", "trigger"),
    (m280, "valarm::Audio", "trigger"),
    (m281, "valarm::Audio", "duration"),
    (m282, "valarm::Audio", "duration"),
    (m283, "valarm::Audio", "repeat"),
    (m284, "valarm::Audio", "repeat"),
    (m285, "valarm::Audio", "attach"),
    (m286, "valarm::Audio", "attach"),
    (m287, "valarm::Audio", "x_prop"),
    (m288, "valarm::Audio", "x_prop"),
    (m289, "valarm::Audio", "iana_prop"),
    (m290, "valarm::Audio", "iana_prop"),
    (m291, "valarm::Audio", "repeat iana_prop duration x_prop attach trigger"),
    (m292, "valarm::Audio", "duration"),
    (m293, "valarm::Audio", "trigger"),
    (m294, "valarm::Audio", "duration attach trigger repeat x_prop"),
    (m295, "valarm::Audio", "iana_prop x_prop"),
    (m296, "valarm::Audio", "iana_prop trigger repeat x_prop attach duration"),
    (m297, "valarm::Audio", "trigger iana_prop"),
    (m298, "valarm::Audio", "iana_prop repeat x_prop duration"),
    (m299, "valarm::Audio", "attach repeat iana_prop"),
    (m300, "valarm::Display", ""),
    (m301, "valarm::Display", "trigger"),
    (m302, "valarm::Display", "trigger"),
    (m303, "valarm::Display", "description"),
    (m304, "valarm::Display", "description"),
    (m305, "valarm::Display", "duration"),
    (m306, "valarm::Display", "duration"),
    (m307, "valarm::Display", "repeat"),
    (m308, "valarm::Display", "repeat"),
    (m309, "valarm::Display", "x_prop"),
    (m310, "valarm::Display", "x_prop"),
    (m311, "valarm::Display", "iana_prop"),
    (m312, "valarm::Display", "iana_prop"),
    (m313, "valarm::Display", "duration iana_prop description trigger x_prop repeat"),
    (m314, "valarm::Display", "description iana_prop"),
    (m315, "valarm::Display", ""),
    (m316, "valarm::Display", "repeat"),
    (m317, "valarm::Display", "x_prop duration repeat iana_prop trigger"),
    (m318, "valarm::Display", ""),
    (m319, "valarm::Display", "iana_prop x_prop trigger"),
    (m320, "valarm::Display", "iana_prop description repeat duration"),
    (m321, "valarm::Display", "duration repeat description"),
    (m322, "valarm::Email", ""),
    (m323, "valarm::Email", "trigger"),
    (m324, "valarm::Email", "trigger"),
    (m325, "valarm::Email", "description"),
    (m326, "valarm::Email", "description"),
    (m327, "valarm::Email", "summary"),
    (m328, "valarm::Email", "summary"),
    (m329, "valarm::Email", "attendee"),
    (m330, "valarm::Email", "attendee"),
    (m331, "valarm::Email", "duration"),
    (m332, "valarm::Email", "duration"),
    (m333, "valarm::Email", "repeat"),
    (m334, "valarm::Email", "repeat"),
    (m335, "valarm::Email", "attach"),
    (m336, "valarm::Email", "attach"),
    (m337, "valarm::Email", "x_prop"),
    (m338, "valarm::Email", "x_prop"),
    (m339, "valarm::Email", "iana_prop"),
    (m340, "valarm::Email", "iana_prop"),
    (m341, "valarm::Email", "description summary x_prop iana_prop duration repeat trigger attach attendee"),
    (m342, "valarm::Email", "iana_prop attendee duration summary description x_prop repeat"),
    (m343, "valarm::Email", "attendee description duration iana_prop repeat"),
    (m344, "valarm::Email", "trigger iana_prop attendee x_prop"),
    (m345, "valarm::Email", "x_prop duration attach description"),
    (m346, "valarm::Email", "trigger summary duration x_prop attach description iana_prop attendee repeat"),
    (m347, "valarm::Email", ""),
    (m348, "valarm::Email", "repeat attendee iana_prop attach description"),
    (m349, "valarm::Email", "repeat duration summary attendee attach"),
    (m350, "VTimezone", "tzurl standard"),
    (m351, "VTimezone", "standard daylight tzurl"),
    (m352, "VTimezone", "standard"),
    (m353, "VTimezone", "tzid standard daylight"),
    (m354, "VTimezone", "x_prop tzurl iana_prop tzid last_modified daylight"),
    (m355, "VTimezone", "tzid standard x_prop last_modified daylight"),
    (m356, "VTimezone", "daylight last_modified standard"),
    (m357, "VTimezone", "daylight standard"),
    (m358, "VCalendar", "alarms events freebusy prodid calscale iana_prop x_prop journals method"),
    (m359, "VCalendar", "events version journals todo iana_prop alarms timezones freebusy x_prop method"),
    (m360, "VCalendar", "todo freebusy iana_prop prodid method x_prop calscale"),
    (m361, "VCalendar", "journals freebusy version todo x_prop iana_prop calscale method alarms prodid"),
    (m362, "VCalendar", "timezones alarms journals freebusy events x_prop version todo"),
    (m363, "VCalendar", "alarms journals events"),
    (m364, "VCalendar", "prodid freebusy timezones todo x_prop calscale events version"),
    (m365, "VCalendar", "freebusy method events"),
    (m366, "VCalendar", "events freebusy iana_prop"),
    (m367, "VCalendar", "version alarms timezones journals todo method events"),
    (m368, "VCalendar", "timezones"),
    (m369, "VCalendar", "method freebusy alarms timezones iana_prop events journals x_prop prodid"),
    (m370, "VCalendar", "events todo prodid method x_prop calscale iana_prop freebusy timezones"),
    (m371, "VCalendar", "events iana_prop todo x_prop alarms prodid timezones journals version calscale method"),
    (m372, "VCalendar", "x_prop todo events timezones method alarms iana_prop journals"),
    (m373, "VCalendar", "freebusy todo events method journals timezones"),
    (m374, "VCalendar", "timezones freebusy iana_prop x_prop method version alarms events journals prodid"),
    (m375, "VCalendar", "freebusy alarms todo"),
    (m376, "VCalendar", "method iana_prop version freebusy x_prop events prodid timezones"),
    (m377, "VCalendar", "prodid todo x_prop iana_prop timezones alarms method"),
    (m378, "VCalendar", "prodid events alarms method journals iana_prop"),
    (m379, "VCalendar", "version iana_prop alarms journals todo timezones calscale method prodid x_prop"),
    (m380, "VEvent", "dtstart last_modified recurid x_prop comment contact status"),
    (m381, "VEvent", ""),
    (m382, "VEvent", "sequence rstatus contact"),
    (m383, "VEvent", ""),
    (m384, "VEvent", "alarms"),
    (m385, "VEvent", "dtend description attendee"),
    (m386, "VEvent", "last_modified attendee resources alarms summary class recurid uid contact iana_prop"),
    (m387, "VEvent", "sequence"),
    (m388, "VEvent", "comment sequence related_to geo duration resources"),
    (m389, "VEvent", "iana_prop status transp recurid"),
    (m390, "VEvent", "class"),
    (m391, "VEvent", "class"),
    (m392, "VEvent", "class"),
    (m393, "VTodo", "status"),
    (m394, "VTodo", "status"),
    (m395, "VTodo", "status"),
    (m396, "VTodo", "status"),
    (m397, "VTodo", "status"),
    (m398, "VTodo", "status"),
    (m399, "VTodo", "status"),
    (m400, "VTodo", "status"),
    (m401, "VEvent", "status"),
    (m402, "VEvent", "status"),
    (m403, "VEvent", "status"),
    (m404, "VEvent", "status"),
    (m405, "VEvent", "status"),
    (m406, "VEvent", "status"),
    (m407, "VEvent", "status"),
    (m408, "VEvent", "status"),
    (m409, "VJournal", "status"),
    (m410, "VJournal", "status"),
    (m411, "VJournal", "status"),
    (m412, "VJournal", "status"),
    (m413, "VJournal", "status"),
    (m414, "VJournal", "status"),
    (m415, "VJournal", "status"),
    (m416, "VJournal", "status"),
    (m417, "VEvent", "transp"),
    (m418, "VEvent", "transp"),
];

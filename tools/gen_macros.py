#!/usr/bin/env python3
"""Writes harness/src/bin/ikmac/calls.rs: invocations of ikal's builder macros over every field, each beside the
same component set up by hand, with the values drawn at run time."""
import os, random, re
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = random.Random(20240917)

# field kinds: how values are drawn, how the macro is given them, how the field is set by hand
# {a} is a variable
TEXT = dict(draw="v.text()", mac=["{a}.clone()", "{a}.as_str()", "v.id(&{a})", "format!(\"{{}}\", {a})"], hand="text(&{a})")
URI = dict(draw="v.uri()", mac=["{a}.clone()", "{a}.as_str()", "v.id(&{a})"], hand="uri(&{a})")
def parsed(draw, ty):
    return dict(draw=draw, mac=["{a}", "{a}.as_str()", "{a}.clone()", "v.id(&{a})", "format!(\"{{}}\", {a})", "{a}.trim_matches('~')"], hand="conv::<" + ty + ">(&{a})?")
DATE = parsed("v.date()", "ikal::Date")
DT = parsed("v.date_time()", "ikal::DateTime")
OFF = parsed("v.offset()", "chrono::FixedOffset")
TRIG = dict(draw="v.trigger()", mac=["{a}.as_str()", "{a}", "v.id(&{a})"], hand="trigger(&{a})?")
DUR = dict(draw="v.duration()", mac=["&{a}", "{a}.as_str()", "v.id(&{a})"], hand="length(&{a})?")
RRULE = parsed("v.rule()", "ikal::Recur")
GEO = parsed("v.position()", "ikal::Geo")
RSTAT = parsed("v.status()", "ikal::RequestStatus")
U8 = dict(draw="v.byte()", mac=["{a}", "({a} + 0)", "u8::from({a})"], hand="{a}")
U32 = dict(draw="v.number()", mac=["{a}", "({a} | 0)"], hand="{a}")
PERIOD = dict(draw="v.period()", mac=["{a}.clone()"], hand="{a}.clone()")
PROPS = dict(draw="v.props()", mac=["{a}.x_prop.clone()"], hand="{a}.x_prop.clone()")
def enum(ty, names):
    return dict(enum=ty, names=names)
CLASS = enum("Class", ["Public", "Private", "Confidential", "Custom"])
STATUS = enum("Status", ["Tentative", "Confirmed", "Cancelled", "NeedsAction", "Completed", "InProcess", "Draft", "Final"])
TRANSP = enum("TimeTransparency", ["Opaque", "Transparent"])
FREQ = enum("Freq", ["Secondly", "Minutely", "Hourly", "Daily", "Weekly", "Monthly", "Yearly"])
REQ, OPT, LIST, VAL = "req", "opt", "list", "val"

EVENTISH = [("attach", LIST, TEXT), ("attendee", LIST, URI), ("categories", LIST, TEXT), ("comment", LIST, TEXT), ("contact", LIST, TEXT),
            ("exdate", LIST, DATE), ("rstatus", LIST, RSTAT), ("related_to", LIST, TEXT)]
XI = [("x_prop", VAL, PROPS), ("iana_prop", VAL, PROPS)]
T = {
 "VEvent": [("dtstamp", REQ, DT), ("uid", REQ, TEXT), ("dtstart", REQ, DATE), ("class", OPT, CLASS), ("created", OPT, DT), ("description", OPT, TEXT),
            ("geo", OPT, GEO), ("last_modified", OPT, DT), ("location", OPT, TEXT), ("organizer", OPT, URI), ("priority", OPT, U8), ("sequence", OPT, U32),
            ("status", OPT, STATUS), ("summary", OPT, TEXT), ("transp", OPT, TRANSP), ("url", OPT, URI), ("recurid", OPT, DATE), ("rrule", OPT, RRULE),
            ("dtend", OPT, DATE), ("duration", OPT, DUR), ("resources", LIST, TEXT)] + EVENTISH + XI,
 "VTodo": [("dtstamp", REQ, DT), ("uid", REQ, TEXT), ("class", OPT, CLASS), ("completed", OPT, DT), ("created", OPT, DT), ("dtstart", OPT, DATE),
           ("geo", OPT, GEO), ("last_modified", OPT, DT), ("location", OPT, TEXT), ("organizer", OPT, URI), ("percent_complete", OPT, U8), ("priority", OPT, U8),
           ("recurid", OPT, DATE), ("sequence", OPT, U32), ("status", OPT, STATUS), ("summary", OPT, TEXT), ("url", OPT, URI), ("rrule", OPT, RRULE),
           ("due", OPT, DATE), ("duration", OPT, DUR), ("resources", LIST, TEXT)] + EVENTISH + XI,
 "VJournal": [("dtstamp", REQ, DT), ("uid", REQ, TEXT), ("class", OPT, CLASS), ("created", OPT, DT), ("dtstart", REQ, DATE), ("last_modified", OPT, DT),
              ("organizer", OPT, URI), ("recurid", OPT, DATE), ("sequence", OPT, U32), ("status", OPT, STATUS), ("summary", OPT, TEXT), ("url", OPT, URI),
              ("rrule", OPT, RRULE), ("description", LIST, TEXT)] + EVENTISH + XI,
 "VFreebusy": [("dtstamp", REQ, DT), ("uid", REQ, TEXT), ("contact", OPT, TEXT), ("dtstart", OPT, DATE), ("dtend", OPT, DATE), ("organizer", OPT, URI),
               ("url", OPT, URI), ("attendee", LIST, URI), ("comment", LIST, TEXT), ("freebusy", LIST, PERIOD), ("rstatus", LIST, RSTAT)] + XI,
 "VTimezone": [("tzid", REQ, TEXT), ("last_modified", OPT, DT), ("tzurl", OPT, URI)] + XI,
 "vtimezone::Standard": [("dtstart", REQ, DATE), ("tzoffsetto", REQ, OFF), ("tzoffsetfrom", REQ, OFF), ("rrule", OPT, RRULE), ("comment", LIST, TEXT),
                         ("tzname", LIST, TEXT)] + XI,
 "valarm::Audio": [("trigger", REQ, TRIG), ("duration", OPT, DUR), ("repeat", OPT, U32), ("attach", LIST, TEXT)] + XI,
 "valarm::Display": [("trigger", REQ, TRIG), ("description", REQ, TEXT), ("duration", OPT, DUR), ("repeat", OPT, U32)] + XI,
 "valarm::Email": [("trigger", REQ, TRIG), ("description", REQ, TEXT), ("summary", REQ, TEXT), ("attendee", LIST, URI), ("duration", OPT, DUR),
                   ("repeat", OPT, U32), ("attach", LIST, TEXT)] + XI,
 "VCalendar": [("prodid", REQ, TEXT), ("version", REQ, TEXT), ("calscale", "into_opt", TEXT), ("method", "into_opt", TEXT)] + XI,
}
T["vtimezone::Daylight"] = T["vtimezone::Standard"]
NOT = {("VFreebusy", "x")}
MACRO = {"VEvent": "vevent!", "VTodo": "vtodo!", "VJournal": "vjournal!", "VFreebusy": "vfreebusy!", "VTimezone": "vtimezone!", "VCalendar": "vcalendar!",
         "valarm::Audio": "valarm!(@audio,", "valarm::Display": "valarm!(@display,", "valarm::Email": "valarm!(@email,"}

class Fn:
    def __init__(s):
        s.n = 0
        s.ids = 0
        s.lets = []
    def var(s, draw):
        s.n += 1
        s.lets.append(f"let a{s.n} = {draw};")
        return f"a{s.n}"

def value(f, kind):
    """macro expression and the value by hand"""
    if "enum" in kind:
        n = R.choice(kind["names"])
        if n == "Custom":
            a = f.var("v.text()")
            return f"Custom({a}.clone())", f"ikal::Class::Custom({a}.clone())"
        return n, f"ikal::{kind['enum']}::{n}"
    a = f.var(kind["draw"])
    m = R.choice(kind["mac"])
    f.ids += m.startswith("v.id(")
    return m.format(a=a), kind["hand"].format(a=a)

def rule_object(f):
    freq, hf = value(f, FREQ)
    m, h = [f"freq: {freq}"], [f"x.freq = {hf};"]
    opts = [("interval", "v.byte()", "{a}", "{a}"), ("count", "v.byte()", "{a}", "Some({a})"), ("until", "v.day()", "{a}", "Some({a}.into())"),
            ("by_hour", "v.byte() as i8 % 24", "[{a}, 7]", "vec![{a}, 7]"), ("by_monthday", "v.byte() as i8 % 31", "[{a}]", "vec![{a}]"),
            ("by_day", "v.weekday()", "[{a}.clone()]", "vec![{a}.clone()]"), ("wkst", "v.weekday().weekday", "Some({a}.clone())", "Some({a}.clone())")]
    for name, draw, mac, hand in R.sample(opts, R.randint(0, 5)):
        a = f.var(draw)
        if name == "until":
            mac = "ikal::Date::from({a})"
            hand = "Some(ikal::Date::Date({a}))"
        m.append(f"{name}: {mac.format(a=a)}")
        h.append(f"x.{name} = {hand.format(a=a)};")
    R.shuffle(m)
    return "{ " + ", ".join(m) + " }", "{ let mut x = ikal::Recur::default(); " + " ".join(h) + " x }"

def geo_object(f):
    a, b = f.var("v.float()"), f.var("v.float()")
    m = [f"lat: {a}", f"lon: {b}"]
    R.shuffle(m)
    return "{ " + ", ".join(m) + " }", f"ikal::Geo {{ lat: {a}, lon: {b} }}"

def rstat_object(f):
    a, b = f.var("v.code()"), f.var("v.text()")
    m = [f"statcode: {a}", f"statdesc: {b}.as_str()"]
    e = "None"
    if R.random() < .5:
        x = f.var("v.text()")
        m.append(f"extdata: {x}.clone()")
        e = f"Some({x}.clone())"
    R.shuffle(m)
    return "{ " + ", ".join(m) + " }", f"ikal::RequestStatus {{ statcode: {a}, statdesc: {b}.clone(), extdata: {e} }}"

def entry(f, name, card, kind, force=None):
    """one field: text inside the macro, statement by hand"""
    if card in (REQ, VAL):
        m, h = value(f, kind)
        return f"{name}: {m}", f"x.{name} = {h};"
    if card == "into_opt":
        # not known to the macro as an optional field: it is given an Option
        a = f.var(kind["draw"])
        return f"{name}: Some(ikal::Text::from({a}.as_str()))", f"x.{name} = Some({kind['hand'].format(a=a)});"
    if card == OPT:
        if name == "rrule" and (force == "object" or R.random() < .4):
            m, h = rule_object(f)
        elif name == "geo" and (force == "object" or R.random() < .4):
            m, h = geo_object(f)
        else:
            m, h = value(f, kind)
        return f"{name}: {m}", f"x.{name} = Some({h});"
    items = []
    for _ in range(R.choice([0, 1, 1, 2, 3, 4])):
        items.append(rstat_object(f) if name == "rstatus" and R.random() < .5 else value(f, kind))
    return f"{name}: [{', '.join(i[0] for i in items)}]", f"x.{name} = vec![{', '.join(i[1] for i in items)}];"

def shorthand(f, name, card, kind):
    """`name,` takes a variable of the field's own type"""
    ids = f.ids
    m, h = value(f, kind)
    f.ids = ids
    if card in (OPT,):
        h = f"Some({h})"
    elif card == LIST:
        h = f"vec![{h}]"
    f.lets.append(f"let {name} = (|| -> ikal::Result<_> {{ Ok({h}) }})().unwrap_or_default();")
    f.lets.append(f"let h_{name} = {name}.clone();")
    return f"{name}", f"x.{name} = h_{name}.clone();"

def body(f, ty, fields, nested=True, short=0):
    """entries and statements for a component of this type"""
    out = [entry(f, *x) for x in fields]
    if short:
        for x in R.sample([x for x in T[ty] if x not in fields and x[1] in (REQ, OPT, LIST) and x[2] in (TEXT, URI, DT, DATE, U8, U32, DUR, RRULE, GEO)], short):
            out.append(shorthand(f, *x))
    if nested:
        if ty == "VTimezone":
            for k, kt in (("standard", "vtimezone::Standard"), ("daylight", "vtimezone::Daylight")):
                if R.random() < .7:
                    out.append(children(f, k, kt, inline=R.random() < .8))
        if ty == "VEvent" and R.random() < .5:
            out.append(children(f, "alarms", None, inline=False))
        if ty == "VCalendar":
            for k, kt in (("events", "VEvent"), ("todo", "VTodo"), ("journals", "VJournal"), ("freebusy", "VFreebusy"), ("timezones", "VTimezone"), ("alarms", None)):
                if R.random() < .6:
                    out.append(children(f, k, kt, inline=k == "events" and R.random() < .8))
    R.shuffle(out)
    return out

def pick(ty):
    fs = [x for x in T[ty]]
    return R.sample(fs, R.randint(0, min(len(fs), 9)))

def children(f, name, ty, inline):
    ms, hs = [], []
    for _ in range(R.choice([0, 1, 1, 2, 3])):
        t = ty or R.choice(["valarm::Audio", "valarm::Display", "valarm::Email"])
        b = body(f, t, pick(t), nested=True)
        inner = ", ".join(x[0] for x in b) + ("," if b and (":" not in b[-1][0] or R.random() < .5) else "")
        if inline:
            ms.append("{ " + inner + " }")
        elif t in ("vtimezone::Standard", "vtimezone::Daylight"):
            ms.append("{ " + inner + " }")
        else:
            ms.append(call(t, inner) + "?")
        hs.append(hand(t, b))
    return f"{name}: [{', '.join(ms)}]", f"x.{name} = vec![{', '.join(hs)}];"

def call(ty, inner):
    if ty.startswith("valarm::"):
        return f"ikal::{MACRO[ty]} {inner})"
    return f"ikal::{MACRO[ty]} {{ {inner} }}"

def hand(ty, b):
    s = "{ let mut x = ikal::" + ty + "::default(); " + " ".join(x[1] for x in b)
    if ty.startswith("valarm::"):
        k = ty.split("::")[1]
        return s + f" x.action = text(\"{k.upper()}\"); ikal::VAlarm::{k}(x) }}"
    return s + " x }"

out = ["//! Written by tools/gen_macros.py.", "",
       "#![allow(unused_mut, unused_variables, clippy::all)]", "",
       "use crate::V;", "use crate::hand::*;", ""]
# names a caller may well use, and a macro as well
OWN = ["v", "value", "s", "ty", "component", "result", "item", "x", "name", "it", "out", "tmp", "r", "e", "this", "fields", "builder", "event", "inner", "c",
       "key", "entry", "val", "res", "dt", "date", "text", "ok", "err", "init", "base", "default", "parsed", "d", "t", "n", "i", "object", "list", "values",
       "alarm", "parts", "input", "ast", "map", "config", "a", "b", "f", "o", "m", "ret", "output", "self_", "vcalendar", "vevent", "calendar", "todo", "field"]
N = random.Random(7)
names = []

def renamed(inner, f):
    """the same with the caller's variables named otherwise"""
    used = [k for k in range(1, f.n + 1) if re.search(rf"\ba{k}\b", inner)]
    free = [n for n in OWN if not re.search(rf"\b{n}\b", inner)]
    N.shuffle(free)
    lets = ""
    for k in used[:len(free)]:
        n = free.pop()
        lets += f"let {n} = a{k}.clone(); "
        inner = re.sub(rf"\ba{k}\b", n, inner)
    return lets, inner

def emit(ty, f, b):
    i = len(names)
    trail = "," if b and (":" not in b[-1][0] or R.random() < .6) else ""
    inner = ", ".join(x[0] for x in b) + trail
    lets = ""
    if b and N.random() < .6:
        lets, inner = renamed(inner, f)
    rt = "ikal::VAlarm" if ty.startswith("valarm::") else "ikal::" + ty
    out.append(f"fn m{i}(v: &mut V) -> Result<(), String> {{")
    out.extend("    " + l for l in f.lets)
    out.append(f"    let m: ikal::Result<{rt}> = (|| {{ let v = &*v; {lets}{call(ty, inner)} }})();")
    out.append(f"    let h: ikal::Result<{rt}> = (|| Ok({hand(ty, b)}))();")
    out.append(f"    v.judge(m, h, {f.ids})")
    out.append("}")
    names.append((i, ty, " ".join(x[0].split(":")[0] for x in b)))

for ty in MACRO:
    f = Fn(); emit(ty, f, [])                          # nothing set
    for x in T[ty]:                                    # every field alone, in several forms
        for force in (None, "object") if x[0] in ("rrule", "geo") else (None, None):
            f = Fn(); emit(ty, f, [entry(f, *x, force=force)])
    f = Fn(); b = body(f, ty, T[ty]); emit(ty, f, b)   # every field
    for k in range(6):
        f = Fn(); emit(ty, f, body(f, ty, pick(ty)))
    for k in range(2):
        if ty != "VCalendar":
            f = Fn(); emit(ty, f, body(f, ty, pick(ty)[:3], nested=False, short=R.choice([1, 2]) if len(T[ty]) > 6 else 1))
for ty, k in (("VTimezone", 8), ("VCalendar", 22), ("VEvent", 10)):
    for _ in range(k):
        f = Fn(); emit(ty, f, body(f, ty, pick(ty)))
for ty, e in (("VEvent", CLASS), ("VTodo", STATUS), ("VEvent", STATUS), ("VJournal", STATUS), ("VEvent", TRANSP)):
    fname = {"Class": "class", "Status": "status", "TimeTransparency": "transp"}[e["enum"]]
    for n in e["names"]:
        if n != "Custom":
            f = Fn(); emit(ty, f, [(f"{fname}: {n}", f"x.{fname} = Some(ikal::{e['enum']}::{n});")])

out.append("")
out.append("pub const CALLS: &[(fn(&mut V) -> Result<(), String>, &str, &str)] = &[")
for i, ty, fs in names:
    out.append(f"    (m{i}, \"{ty}\", \"{fs}\"),")
out.append("];")
open(D + "/harness/src/bin/ikmac/calls.rs", "w").write("\n".join(out) + "\n")
print(len(names), "invocations")

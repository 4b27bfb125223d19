#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=hook)))

ALLPARSE = ["src/parser/mod.rs","src/parser/components.rs","src/parser/datatype.rs","src/parser/datetime.rs","src/parser/recurrence.rs","src/parser/descriptive.rs","src/parser/misc.rs","src/parser/alarm.rs","src/parser/timezone.rs","derive/src/component.rs"]

prop("C01","Parsing any text returns a value or an error",
 "For every string, parsing it as any component (calendar, event, to-do, journal, free/busy, time zone and its standard/daylight parts, alarm and its audio/display/email variants) or as any public property-value type returns either a value or an error: it never panics, overflows, aborts, exhausts the stack or fails to return. Formatting the returned value or error (display or debug) is equally safe.",
 ["inputs"],"every Unicode string given to every public parsing entry point",
 "The tests parse about 80 well-behaved files and a handful of literals; a panic needs one particular hostile string (a missing part, an overflowing number, an unusual time) out of infinitely many.",
 ALLPARSE+["src/components/valarm.rs","src/properties/date.rs","src/lib.rs"],
 [("nom parsers return Err instead of panicking","src/parser/mod.rs"),("required fields looked up with ok_or_else","derive/src/component.rs"),("checked duration arithmetic","src/parser/datatype.rs, src/lib.rs")],
 ["return value, panic or exit of <Component>::from_str / TryFrom<String> and <Value>::from_str"])

prop("C02","Serialisation never fails and always emits well-formed iCalendar",
 "For every component value, parsed or built through the public fields with arbitrary Unicode text, serialising succeeds without panicking and yields only CRLF-terminated content lines of the form NAME *(;PARAM=VALUE):VALUE with properly nested, matching BEGIN/END pairs. No physical line carries more than 75 octets (not counting the one leading space of a continuation line), and folding never splits a UTF-8 character. Text, URIs, classifications and parameter values supplied by the user can never introduce an extra line, property, parameter or component.",
 ["inputs"],"every component value with any strings, any number of properties and sub-components, years 0000 to 9999",
 "Each serialiser test covers one small ASCII component; none has two sub-components, a long non-ASCII line, a carriage return or a parameter that needs quoting.",
 ["src/ser.rs","derive/src/component.rs","src/components/valarm.rs","src/properties/text.rs","src/properties/uri.rs","src/content_line.rs","src/properties/class.rs","src/properties/request_status.rs"],
 [("field() writes and folds one content line","src/ser.rs"),("escape()","src/ser.rs"),("generated ical() frames BEGIN/END","derive/src/component.rs")],
 ["string returned by ikal::ser::ical"])

prop("C03","Line folding is transparent to parsing",
 "Folding a document's content lines, by inserting CRLF plus one space or tab between any two characters of a line, any number of times and including inside names, parameters, multi-byte text and BEGIN/END lines, never changes what parsing the document returns. In particular a document is accepted folded exactly when it is accepted unfolded.",
 ["inputs"],"every document and every set of fold positions",
 "The tests contain a few files folded at fixed columns after the space form only.",
 ["derive/src/component.rs","src/components/valarm.rs","src/parser/mod.rs"],
 [("unfolding before parsing in from_str","derive/src/component.rs, src/components/valarm.rs")],
 ["component returned by from_str for folded and unfolded text"])

prop("C04","Content lines are decomposed exactly",
 "In an accepted component every property kept as text, as a URI or as an unknown property carries, byte for byte, the value written after the first unquoted colon of its line (text stays in its escaped wire form), and exactly the parameters written on that line: each name with its value, quoted values without their quotes and possibly containing colons, semicolons and commas. A malformed parameter or an unbalanced quote never absorbs any part of a following line.",
 ["inputs"],"every property line: any name, any number of distinct parameters, any quoted or unquoted parameter values, any value text",
 "Two unit tests decompose one line each; which characters delimit name, parameter and value only shows on inputs mixing quotes, colons, semicolons and escapes.",
 ["src/parser/mod.rs","src/content_line.rs","src/properties/text.rs","src/properties/uri.rs","src/parser/relationship.rs"],
 [("content_line/params/param/quoted_param/attr/value","src/parser/mod.rs"),("From<ContentLine> for Text/Uri","src/properties/text.rs, src/properties/uri.rs")],
 ["params and text/uri/value fields of parsed components, x_prop and iana_prop"])

prop("C05","Parsing loses, invents and reorders nothing",
 "Every well-formed document made of the components and properties ikal models is accepted, and parsing puts every property line into exactly one place of the component it stands in: recognised properties in their own field (repeatable ones in document order, comma lists split at unescaped commas, the last one of a repeated single-valued property), all others under their exact name among the X- or the IANA properties. Every sub-component is attached to the component enclosing it, in document order within its kind, with its own properties only. A field whose property does not occur is empty.",
 ["inputs"],"every accepted document, for any order, number and mixture of properties and sub-components",
 "Tests compare about 60 fixed files; a lost, swapped or misattributed property shows only for particular combinations of fields, repetitions and nesting.",
 ["derive/src/component.rs","src/parser/components.rs","src/components/vevent.rs","src/components/vtodo.rs","src/components/vjournal.rs","src/components/vfreebusy.rs","src/components/vtimezone.rs","src/components/vcalendar.rs","src/components/valarm.rs"],
 [("generated TryFrom<Vec<ContentLine>>","derive/src/component.rs"),("vevent/vtimezone/vcalendar attach sub-components","src/parser/components.rs")],
 ["every public field of the parsed component"],
 state=[dict(name="x_prop / iana_prop",meaning="properties the component does not recognise, by name",where="every component struct")])

prop("C06","Malformed documents are rejected, never silently altered",
 "Parsing fails with an error if a required property is missing, a BEGIN/END pair does not match, a sub-component is invalid, a content line has no colon, or the value of a typed property is malformed or out of range: an impossible or ill-formed date, a malformed duration, period or coordinate, a priority above 9, a non-numeric or overflowing number, an unknown status, transparency, frequency, weekday or alarm action, or anything left over after such a value. It never succeeds with such a part dropped, defaulted or changed. Converting a malformed text on its own to such a value fails likewise.",
 ["inputs","fault_sequences"],"every valid document with any one such fault injected at any place",
 "Sixteen rejected files are tested, nearly all with structural damage of the same few kinds; no test injects a bad value into each typed property.",
 ALLPARSE+["src/properties/status.rs","src/properties/time_transparency.rs","src/properties/recur.rs"],
 [("required field check","derive/src/component.rs"),("delimited BEGIN/END with map_res","src/parser/components.rs"),("per-type value parsers","src/parser/datatype.rs and siblings")],
 ["Ok/Err of from_str"])

prop("C07","Dates and times keep their exact meaning in every time zone",
 "For years 0000 to 9999, a DATE, a floating DATE-TIME and a UTC DATE-TIME ('Z') in any date-valued property or list are read as exactly that calendar day, wall-clock time or UTC instant, whatever the system's time zone, including around daylight-saving changes. Serialising them, or converting between strings and date values, preserves that day, wall-clock time or instant.",
 ["inputs","configurations"],"every date and time value in every date-valued property, under every system time zone",
 "Tests run in a single time zone (CET) on a few dozen dates, none of them in a daylight-saving gap or overlap.",
 ["src/parser/datatype.rs","src/properties/date.rs","src/parser/datetime.rs","src/parser/recurrence.rs","src/parser/change.rs"],
 [("date, date_time, date_or_dt","src/parser/datatype.rs"),("FromStr/Display for DateTime and Date","src/properties/date.rs")],
 ["day, wall-clock time or Unix timestamp of parsed values; text of serialised ones"])

prop("C08","Durations and periods denote exactly the length written",
 "Every RFC 5545 duration (optional sign; weeks; days; hours, minutes and seconds in any allowed combination) is read as exactly that signed number of seconds wherever a duration is accepted: DURATION, TRIGGER, periods, and the string conversions behind the builder macros. A period keeps its start and its end or duration in list order and reports as its length the time elapsed between start and end; periods are ordered by that length. Serialised durations and periods parse back to the same length; values too large to represent are errors.",
 ["inputs"],"every duration and period text, including maximal numbers and all combinations of units",
 "Tests use a few single-unit durations; combinations, weeks, signs and overflow are not exercised.",
 ["src/parser/datatype.rs","src/lib.rs","src/properties/period.rs","src/properties/trigger.rs","src/parser/alarm.rs","src/parser/datetime.rs"],
 [("duration, period","src/parser/datatype.rs"),("parse_duration","src/lib.rs"),("Period::duration","src/properties/period.rs")],
 ["chrono durations in parsed values, ikal::parse_duration, Period::duration, serialised text"])

prop("C09","Recurrence rules are read and written part by part, exactly",
 "Every part of a recurrence rule (FREQ, UNTIL, COUNT, INTERVAL, BYSECOND to BYSETPOS, WKST), in any order and combination, is read into its own member with its exact values in list order, including signs and weekday ordinals; an absent INTERVAL is 1 and other absent parts are empty. Serialising a rule writes each present part once with its RFC name, and parsing that gives an equal rule.",
 ["inputs"],"every combination, order and value of rule parts",
 "Tests cover rules with a few parts in one order; mixing up two BY lists or mishandling a sign needs a specific combination.",
 ["src/parser/recurrence.rs","src/properties/recur.rs","derive/src/serialize.rs","src/parser/mod.rs"],
 [("rrule","src/parser/recurrence.rs"),("derive(Serialize) for Recur","derive/src/serialize.rs"),("weekdaynum","src/parser/mod.rs")],
 ["members of the parsed Recur, serialised RRULE text"])

prop("C10","Numbers, enumerations, offsets and coordinates are exact both ways",
 "Sequence, repeat, priority and percent numbers, statuses, classifications, transparencies, frequencies, weekdays with ordinals, UTC offsets, geographic positions and request statuses are read as exactly the value written, and writing a value and reading it back gives an equal value. Distinct values always have distinct texts (custom classification names compare without regard to case).",
 ["inputs"],"every value of each type, exhaustively for enumerations and small integers",
 "Tests serialise one or two values of each type and never read them back; two enumeration members with swapped names or a lost sign would go unnoticed.",
 ["src/properties/status.rs","src/properties/class.rs","src/properties/time_transparency.rs","src/properties/recur.rs","src/properties/geo.rs","src/properties/request_status.rs","src/ser.rs","src/parser/timezone.rs","src/parser/descriptive.rs","src/parser/misc.rs"],
 [("FromStr/Display pairs","src/properties/*.rs"),("FixedOffset::ical","src/ser.rs")],
 ["from_str, to_string and ser::ical of each value type"])

prop("C11","Serialisation writes every populated field exactly once",
 "Serialising a component writes each populated field under its property name with exactly its parameters and value (one line per value of a repeatable property, or one comma-separated list for list-valued ones), each unknown property under its own name, and each sub-component once, in order, inside its parent. Fields that are absent and lists that are empty write nothing. The text of other properties and components never leaks into a line.",
 ["inputs"],"every combination of populated fields, list lengths, parameters and nested components",
 "The serialiser tests populate few fields, with at most one value per list and one sub-component of each kind.",
 ["derive/src/component.rs","src/ser.rs","src/components/valarm.rs","src/properties/rdate.rs","src/content_line.rs"],
 [("ser_body of derive(Component)","derive/src/component.rs"),("field()","src/ser.rs")],
 ["content lines of ikal::ser::ical output, read by an independent reader"])

prop("C12","Parsing, serialising and parsing again is the identity",
 "For every accepted document whose text values are in RFC 5545 escaped form, parsing the serialisation of the parsed component gives back an equal component, with all sub-components, lists, parameters and unknown properties. Serialisation is a fixed point: serialising the re-parsed component yields the identical text, so repeated load/save cycles never drift.",
 ["inputs","histories"],"every accepted document, any number of parse/serialise cycles",
 "No test ever parses serialised output.",
 ["src/ser.rs","derive/src/component.rs","src/parser/mod.rs","src/parser/components.rs","src/properties/text.rs"],
 [("generated ical() and TryFrom<Vec<ContentLine>> mirror each other","derive/src/component.rs"),("escape()","src/ser.rs")],
 ["component and text after each cycle"])

prop("C13","Recurrence yields exactly the dates of the rule",
 "For an event, to-do or journal whose rule has a frequency, an interval and optionally COUNT or UNTIL (no BY parts), iteration yields DTSTART and then every date an exact multiple of the interval later, in order and without drift, skipping days that do not exist in a month or year (31st, 29 February) without counting them. UNTIL is an inclusive bound, COUNT bounds the number of generated dates, and dates listed in EXDATE (the first one included) are left out after that, never affecting the others. Once exhausted, iteration stays exhausted.",
 ["inputs","histories"],"every start date, frequency, interval, bound and exception list, over long iterations",
 "Tests check counts or a single occurrence for a handful of rules; drift, month ends, bounds and interplay of EXDATE with COUNT/UNTIL only show on particular dates.",
 ["src/iter.rs","src/properties/recur.rs"],
 [("Iterator for iter::Recur","src/iter.rs"),("Add<Date> for Recur","src/properties/recur.rs")],
 ["dtstart of each occurrence"])

prop("C14","Each occurrence is the original component moved in time",
 "Every occurrence produced by recurrence iteration equals the original component except that its start, and its end or due date if it has one, are moved by the same amount of time, so the elapsed time from start to end (or due) is the same in every occurrence. All other properties, sub-components and unknown properties are carried over unchanged (the rule's own remaining COUNT aside).",
 ["inputs","histories"],"every recurring event, to-do and journal, every occurrence",
 "Tests look at the end date of one occurrence of one daily event; to-dos with a due date and month-end events are not covered.",
 ["src/iter.rs"],
 [("Iterator for iter::Recur sets dtstart/dtend/due","src/iter.rs")],
 ["fields of each occurrence"])

prop("C15","Window queries select exactly the occurrences in the window",
 "between(start, end) yields exactly the occurrences of the full recurrence whose start lies in [start, end), after(start) exactly those not before start, and at(day) exactly those within the one day beginning at the given date, in order and otherwise identical to plain iteration. A plain date compared with a date-time stands for that whole day.",
 ["inputs"],"every recurring component, window and kind of bound (date, floating or absolute date-time)",
 "Tests check one window per query on one rule.",
 ["src/iter.rs","src/properties/date.rs"],
 [("between, at, after","src/iter.rs"),("Ord for Date","src/properties/date.rs")],
 ["occurrences returned by between/at/after against filtering plain iteration"])

prop("C16","Recurrence iteration is total",
 "For any component, dates, rule, interval (zero included) and exception list, every step of recurrence iteration returns after work bounded by the size of the component and never panics, in every system time zone, including around daylight-saving changes, 29 February and the end of the representable calendar, where iteration ends. Adding a rule to a date or a date-time within the calendar's range moves it strictly forward (a bare NaiveDate only for daily or longer rules).",
 ["inputs","configurations"],"every component and rule including degenerate ones, every time zone, iteration to the end of time",
 "Tests iterate ten steps of benign rules in one time zone.",
 ["src/iter.rs","src/properties/recur.rs"],
 [("Iterator for iter::Recur","src/iter.rs"),("Add impls for Recur","src/properties/recur.rs")],
 ["return or panic of next(), allocation and CPU budget per step"])

prop("C17","Date ordering and arithmetic are chronological",
 "Dates among themselves, floating date-times among themselves and absolute date-times among themselves are ordered chronologically: a total order in which values compare equal only if they are equal, also across daylight-saving changes; a date compares with a date-time by day. Adding a duration and subtracting date-times agree with elapsed time: (a + d) - a is d, a + d follows a exactly when d is positive, and (a + d) - d is the wall-clock time of a (for absolute ones: where the offset from UTC does not change in between).",
 ["inputs","configurations"],"every pair and triple of dates and every duration, under every system time zone",
 "No test compares or subtracts dates directly.",
 ["src/properties/date.rs","src/properties/period.rs"],
 [("Ord/PartialOrd/Add/Sub for DateTime and Date","src/properties/date.rs")],
 ["cmp, partial_cmp, +, - on date values"])

prop("C18","Builder macros build exactly the component that is spelled out",
 "The vcalendar!, vevent!, vtodo!, vjournal!, vfreebusy!, vtimezone! and valarm! macros return, for any run-time values given to their fields, exactly the component obtained by setting those fields by hand with values converted from the same text, leaving every other field at its default, or an error when one of those conversions fails. Nested components, lists and optional fields behave the same as top-level ones.",
 ["inputs","programs"],"every field supported by each macro, any run-time value",
 "The macro tests only check that a fixed invocation compiles and returns Ok; field values are not compared.",
 ["derive/src/macros.rs","derive/src/lib.rs","src/lib.rs"],
 [("TypedValue::to_tokens and Type tables","derive/src/macros.rs"),("valarm! wrapper","src/lib.rs")],
 ["components returned by the macros"])

prop("C19","Results depend only on the input",
 "Parsing, serialising and iterating are pure: the same input gives the same result whatever was parsed, serialised or failed before, however often it is repeated, in which order, from which thread and with how many threads running. Operations never modify the component they are given.",
 ["histories","schedules"],"every sequence and interleaving of calls from any number of threads",
 "Each test runs each operation once on a fresh value and compares nothing across calls or threads.",
 ["src/lib.rs","src/parser/mod.rs","src/ser.rs","src/iter.rs"],
 [("no shared mutable state; parsers and serialisers take values by shared reference","whole crate")],
 ["digest of results per call across orders, repetitions and threads"])

prop("C20","Work and memory grow linearly with the input",
 "The work done and memory allocated by parsing a document, by rejecting one, and by serialising a component grow no faster than in proportion to its size, for many lines, many components, many parameters, long lines, heavy folding and long lists alike. Iterating n occurrences of a component takes work proportional to n times the component's size.",
 ["inputs"],"families of documents of growing size, one per way of being large",
 "All test files are a few kilobytes; quadratic behaviour only shows as size grows.",
 ["src/parser/mod.rs","src/parser/components.rs","derive/src/component.rs","src/ser.rs","src/iter.rs"],
 [("single-pass nom parsers","src/parser/mod.rs"),("split() folds in one pass","src/ser.rs")],
 ["allocated bytes (counting allocator) and executed instructions per input size"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks below."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{D}/properties.jsonl")]
T = {
 "C01": ("panic/abort/hang monitor over hostile and mutated inputs (guarded worker processes, overflow checks on, CPU watchdog, memory limit)",
         "mutations of valid documents and values of every kind through every public parser in 9 time zones, stack, length and nesting extremes; outcome judged: value or error, returned in time, and printable"),
 "C02": ("online monitor: strict independent reader over every serialised text, line-width and line-inventory checks",
         "components built with hostile texts or parsed from raw documents; every physical line checked, the line inventory compared with the component"),
 "C03": ("differential monitor: parse folded against parse unfolded",
         "folds at random places, densities and characters in valid and broken documents of all kinds"),
 "C04": ("trace monitor: byte-for-byte comparison of texts and parameters with the lines written",
         "hostile values and parameters in all kinds of components, with malformed neighbours"),
 "C05": ("reference-model monitor: field-by-field comparison of the parsed component with the generated document",
         "random documents of all 11 component kinds, any order, repetition and nesting; known findings are probed separately"),
 "C06": ("fault injection with a must-reject oracle",
         "one fault per document, at every kind of place and in every typed property; parsing must fail"),
 "C07": ("monitor against an independent calendar and time-zone oracle, in worker processes with different TZ",
         "dates around every daylight-saving change of many zones and over years 0-9999, read, written and converted"),
 "C08": ("reference-model monitor with an independent duration reader",
         "durations and periods over the grammar and its numeric limits, through every entry point"),
 "C09": ("reference-model monitor with an independent rule reader, exhaustive over part values and pairs",
         "all parts in random order and combination, exhaustive single values"),
 "C10": ("exhaustive and random reference-model monitor",
         "all enumeration values, all small numbers and minute offsets exhaustively, random wide numbers and coordinates"),
 "C11": ("online monitor: independent reader of serialised texts against the component's fields",
         "components of all kinds set up through public fields; each field found exactly once with its value and parameters"),
 "C12": ("metamorphic monitor: parse, serialise, parse, serialise",
         "random well-formed documents of all kinds; equality and textual fixed point"),
 "C13": ("reference-model monitor: independent recurrence model against the recorded iteration",
         "random and boundary rules, starts, COUNT, UNTIL, EXDATE over three component kinds and several zones"),
 "C14": ("trace monitor over recorded occurrences: elapsed time and everything else invariant",
         "full components of three kinds, iterated; each occurrence compared with the original field by field"),
 "C15": ("differential monitor: window queries against filtered plain iteration",
         "windows around, between and at occurrences, for dates, floating and absolute times"),
 "C16": ("panic/hang monitor with allocation budget per step, iterating to the calendar limit",
         "hostile components and rules in many time zones, iterated to the end of the calendar where feasible"),
 "C17": ("algebraic-law monitor over value triples",
         "random and boundary dates and date-times, compared with integer time; all pairs and triples of boundary sets"),
 "C18": ("differential monitor: macro-built components against components set up by hand",
         "fixed macro invocations over every field with generated run-time values, valid and invalid"),
 "C19": ("determinism monitor: digests of results across repetition, order, threads and fresh processes; inputs compared before and after",
         "mixed histories of parsing, serialising, iterating and failing operations on 1 to 16 threads"),
 "C20": ("resource monitor: allocation counters and instruction counts against input size",
         "document families doubled in size; growth ratio judged"),
}
built = [i for i in ids if os.path.exists(f"{D}/harness/src/props/{i.lower()}.rs") or i in ("C18", "C19")]
checks = [dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i}", technique=T[i][0], level="exploration", level_note=T[i][1]) for i in built]
M = dict(version=1, setup_cmd="./check --build", checks=checks,
         not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in built])
json.dump(M, open(f"{D}/MANIFEST.json", "w"), indent=1)
open(f"{D}/MANIFEST.json", "a").write("\n")

import json, os, glob, re
P = [
("C01","35 s","Two million mutated, spliced, truncated and synthetic texts per run through every `FromStr`/`TryFrom` of all 12 components and 12 value types and `parse_duration`, in 9 zones, plus extremes (200 000 lines, huge nesting and lists, numbers of 10^5 digits, megabyte lines) on a 2 MiB stack, and 40 000 durations whose amounts and sums lie at the ends of their types. Results are formatted with Debug and Display.",
 "value or error, within the CPU budget; panic hook, exit status, signals, 4 GiB address-space limit.",
 "Inputs up to some MiB. `Date::format` with a time specifier on a plain date is chrono's documented error and not judged (a false alarm corrected while building)."),
("C02","6 s","Components with hostile texts, URIs, classes, statuses and parameter values (CR, LF, quotes, delimiters, injected lines, multi-byte characters around the folding width), half set through public fields, half parsed.",
 "a strict reader over every physical and logical line: CRLF only, no bare CR/LF, at most 75 octets (+1), UTF-8 intact, BEGIN/END nesting, and the inventory of lines, parameters and components must be exactly that of the component (no injection).",
 "Names of unknown properties and parameters are valid tokens (the statement speaks of values)."),
("C03","8 s","Random documents of all kinds, a quarter broken by an edit; folds at random places, with space and tab, repeated, between all characters, beside multi-byte characters, through all entry points; every single place in some 60 documents people wrote; documents of some 40 sizes from 74 to a million in 12 ways of being large.",
 "parse(folded) equals parse(unfolded): both errors or equal dumps.",
 "Content lines hold no CR or LF themselves."),
("C04","7 s","Components with hostile values and parameters; some 90 values someone might normalise (URI spellings, blanks, digits, Unicode forms); in a third of the cases with a malformed line among them.",
 "byte-for-byte comparison of every text, URI and unknown property and its parameters with the line written; a malformed neighbour is rejected or leaves every other line alone.",
 "Unique parameter names per line; several quoted values per parameter are a known finding of C05."),
("C05","12 s","Random documents of all 11 kinds: all modelled properties in any order, repeated, unknown neighbours (near misses of known names included), sub-components in any number and order; one in five has coincidences (the same dates, texts, lines, sub-components in several places); one in 1200 has one huge dimension (thousands of lines, values, alarms, components); 12 ways of being large (texts, names, parameters, lists, lines, components) at some 40 sizes around powers of two and ten (C02, C03, C11, C12 use them, too).",
 "the dump of the parsed component equals the dump the model predicts; every document must be accepted.",
 "See known findings. Parameters of typed values have no place in ikal's data model and are not judged. Names are upper case; lower-case names are unknown properties to ikal (not judged)."),
("C06","10 s","Well-formed documents with exactly one fault at a random place and depth: required property missing, BEGIN/END broken, component out of place, line without colon, cut off, or one malformed or out-of-range typed value, alone or in a list (near misses of every syntax: signs, blanks, trailing text, overflow just beyond each type, other digits, wrong case); and every text one edit away from each of the 32 words of the enumerations, and words of other vocabularies; BEGIN and END lines one edit away from the right ones, alone and inside every parent.",
 "parsing must fail, the document without the fault must not.",
 "Not judged: text after the end of the document, unknown or repeated rule parts, all but the last of several ACTION lines. False alarms corrected while building: unknown rule parts, swapping END lines that leave a complete document as a prefix, finite-number and offset ranges of the harness's own reader."),
("C07","15 s","Every date-valued property and list of all kinds, and every conversion; years 0000 to 9999 and everything around the offset changes of 24 zones (gaps, repeated hours); plus every day of 10 000 years and every quarter hour around every change.",
 "integer calendar, and the zone's offsets tabulated as intervals: the very day, wall-clock time or instant; texts likewise.",
 "Known findings utc-parse and utc-serialise (pinned by ikal's own tests), recognised exactly; exact with TZ=UTC. Not judged: chrono's conversion of a floating time in the very second of a change, which of two instants a repeated time gets (either is accepted)."),
("C08","9 s","Durations over the whole grammar with known totals, up to and beyond what fits, and periods of both forms across offset changes, through every entry point.",
 "the known number of seconds; list order; `Period::duration`; serialise and parse again; too large is an error.",
 "Whole seconds. Texts outside the RFC grammar which ikal accepts (weeks with days, `P1DT`, years) may be rejected or must be exact."),
("C09","9 s","Every value of every part, all pairs and subsets of parts, any order, long lists, through `Recur` and all five components.",
 "member-by-member comparison; independent reader on what is written; parse again.",
 "Numbers within ikal's i8/u8 members (known findings beyond)."),
("C10","12 s","All enumeration values, all UTC offsets to the second, all small numbers, thousands of coordinates, status codes and classes, in components and through conversions.",
 "value equals text and back; texts of distinct values are distinct (compared through a map); nearest float for coordinates.",
 "Finite numbers; known findings offset-seconds and statcode."),
("C11","10 s","Components of all kinds set up through public fields.",
 "independent reader: under each name exactly the values and parameters set, in order, once; sub-components once, in order, inside their parent; nothing else.",
 "Plain texts without lone backslashes; UTC date-times with TZ=UTC only (C07's finding)."),
("C12","23 s","Random documents in escaped form and ikal's own test corpus, three parse/serialise cycles.",
 "equal by value, by dump, and textual fixed point.",
 "Custom classes are upper-case tokens; UTC date-times with TZ=UTC only."),
("C13","10 s","One million recurrences: boundary starts (month ends, leap days, change days), intervals 1-255, COUNT, UNTIL at and next to occurrences, EXDATE sets of up to hundreds of dates, three kinds, parsed or by hand.",
 "independent recurrence model on integers: the same dates, the same end, and exhausted stays exhausted.",
 "No BY parts (ikal ignores them), no leap seconds."),
("C14","19 s","Full random components with a rule.",
 "every occurrence compared with the original dump: end/due moved by exactly as much as the start; all else equal; original untouched.",
 "An all-day end of a component recurring within the day (also on dates which are left out: a false alarm corrected) may become a date-time of the same instant."),
("C15","12 s","between/after/at with bounds at, beside and between occurrences, beyond both ends, reversed, and hundreds of occurrences away; dates, floating and absolute bounds and chrono's own types.",
 "filter of plain iteration by an independent comparison, whole components.",
 "Floating and absolute times are not mixed; all-day components recurring within the day are queried by days; zones where a local day never comes twice; `at()` on the last day of the calendar overflows in chrono and is not judged."),
("C16","12 s","Hostile components and rules from the first to the last day of the calendar in 24 zones, many iterated to the end, thousands of exceptions in a row on a 512 KiB stack; rules added to dates of all types.",
 "no panic, strictly forward, allocation and CPU budget per step, ends at the calendar's limit.",
 "Absolute times at least two days inside chrono's range; `+` where the result is in range."),
("C17","8 s","Groups of dates and date-times (limits, offset changes, equal wall clocks), durations down to nanoseconds.",
 "every operator on every pair, sorting, ordered sets, extremes and sums against integer time lines.",
 "Floating and absolute date-times are not compared with each other; mixtures of dates and date-times are compared in pairs but not sorted (comparison by day is not transitive); `DateTime - Duration` of absolute times gives a wall-clock value by its type and is not judged; `Period`'s order (by length) is inconsistent with its equality and no property of ours."),
("C18","14 s + 40 s build","Some 420 macro invocations over every field of every macro (generated into `calls.rs`) with run-time values, valid and invalid, nested objects, lists, shorthand, optional fields, callers' variables of any name, values with side effects.",
 "equal to the component set up by hand from the same texts; an error if and only if a conversion fails.",
 "What the macros do not offer does not compile and is not judged: RDATE from text, objects other than events, geo, rrule, rstatus, standard, daylight and alarms of `valarm!`, calscale/method/percent_complete/repeat as plain values."),
("C19","80 s with the race-detector build","Histories of 60-120 operations on near-duplicate documents, recorded once, then reversed, shuffled, repeated, on 2-16 threads sharing components, with the clock shifted by centuries (clock_gettime replaced), in fresh processes with another environment, locale, directory, order, down to one process per operation; every kind of operation, failing and succeeding, 70 000 times in a row with all others checked in between; threads again under ThreadSanitizer.",
 "every result equals the recorded one; components unchanged; no data race.",
 "Interleavings are those of the scheduler and random delays. A false alarm corrected: a far window of a SECONDLY rule is slow by nature."),
("C20","62 s","Some 500 families, one for each way of being large, at n, 2n and 4n, each parsed, rejected, serialised, iterated, queried through windows.",
 "instructions counted by callgrind and bytes asked of the allocator: growth (w(4n)-w(2n))/(w(2n)-w(n)) below 2.6 (2 = linear, 4 = quadratic); suspicious small steps (buffer doubling) are judged again at five, six and seven times the size and must be there in all. A false alarm corrected: memcpy's string instructions count as one instruction per byte or per 32 depending on addresses; they are switched off.",
 "Log factors are within the threshold; sizes of some 10 to some 100 KiB (several times that in the thorough tier)."),
]

MISSED = {
 "events-replaced": "missed first; sub-components which are other versions of each other added",
 "blank-lines-skipped": "missed first; empty lines between lines added",
 "percent-clamped": "missed first; values beyond their RFC 5545 range (refused, or read as they are) added",
 "standard-ends-daylight": "missed first; BEGIN and END lines one edit away from the right ones added",
 "fast-forward-count": "missed first; recurrences of hundreds of occurrences and distant windows added",
 "exdates-by-recursion": "missed first; thousands of exceptions in a row on a small stack added",
 "guard-left-on-error": "missed first; operations repeated 70 000 times added",
 "x-anywhere": "missed first; near-miss names of unknown properties added",
 "line-limit": "missed first; documents with one huge dimension added",
 "alarm-limit": "missed first; documents with one huge dimension added",
 "variable-captured": "missed first; macro calls from functions whose variables have the names a macro might use added",
 "iteration-restarts": "missed first; window queries with growing numbers of occurrences added",
 "lowest-ordinal": "missed first; ordinals beyond RFC 5545 (rejected or kept) added",
 "subtract-by-utc": "missed first; (a + d) - d added",
 "private-custom": "missed first; a custom classification named like a standard one now differs from it",
 "params-limit": "missed first; documents with one huge dimension added to C04 too",
 "status-prefix": "missed first; every text one edit away from a word, and words of other vocabularies, added",
}
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
out = [open('tools/design_head.md').read().rstrip(), ""]
for i, cost, w, o, l in P:
    out.append(f"### {i} ({cost})\n\n*Workload.* {w}\n\n*Oracle.* {o}\n\n*Limits.* {l}\n")
out.append(open('tools/design_tail.md').read().rstrip())
known = [l.strip() for l in open('known-findings.txt') if not l.startswith('#')]
def section(kind):
    rows = []
    for l in known:
        if l.startswith(kind + ':'):
            rows.append(l.split(' ', 1)[1])
    return rows
text = "\n".join(out)
text = text.replace("@OPEN@", "\n".join("* **" + re.sub(r'property=(\S+) id=(\S+) ', r'\1 \2**: ', r) for r in section('open')))
text = text.replace("@FIXED@", "\n".join("| " + re.sub(r'property=(\S+) (\S+) ', r'\1 | \2 | ', r) + " |" for r in section('fixed')))
rows = []
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    b = os.path.basename(os.path.dirname(d))
    cell = lambda s: str(s).replace('|', '\\|').replace('\n', ' ')
    rows.append(f"| {b} | {m['property']} | {cell(m['needs'])} | {m['property']}{'; ' + MISSED[b] if b in MISSED else ''} |")
text = text.replace("@SEEDED@", "\n".join(rows))
open('DESIGN.md', 'w').write(text + "\n")

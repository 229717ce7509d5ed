"""Property definitions; tools/mkmanifest.py writes properties.jsonl and MANIFEST.json from them."""

S = "src/ics/"


def P(id, title, statement, over, qtext, why, files, mech, level="model_checking", technique="", note="", observe=()):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=[S + f for f in files], mech=mech, level=level, technique=technique, note=note, observe=list(observe))


EXH = "exhaustive bounded enumeration of the real code against an independent reference model"
BFS = "explicit-state search of all operation histories, real code compared with a reference state machine at every step"

PROPS = [
    P(
        "C01", "Content lines survive writing and reading",
        "A content line with any name, any number of parameters and parameter values and any value without line breaks is read back identical after being written, at any wrapping width; "
        "physical lines never exceed the wrapping width and unwrapping them gives back the logical line. "
        "Text that is no content line is rejected with an error and never read as a different line.",
        ["inputs", "configurations"], "all names, parameter lists, values (all characters), wrapping widths",
        "The grammar tests sample strings; quoting, escaping of param values and folding interact for every character and every length modulo the width.",
        ["contentline/container.py", "contentline/parser.py", "utils.py"],
        [("ContentLine.serialize / QuotedParamValue / escape_param / wrap at contentline_set_wrap", "src/ics/contentline/container.py"), ("tatsu-free parser: string_to_containers, unescape", "src/ics/contentline/parser.py")],
        technique=EXH, note="all lines over structural alphabets up to stated sizes, every code point in context, every value length x width; reference reader/writer written from RFC 5545/6868",
    ),
    P(
        "C02", "Physical layout of a file never changes its content",
        "Where lines are folded (with space or tab), which newline flavour ends them, where blank lines are, and in which of the supported ways the text is supplied never changes what is read, nor the line numbers it is attributed to. "
        "Only CR, LF and CRLF end lines.",
        ["inputs"], "all fold positions, newline flavours, blank line placements and ways to supply the text",
        "Tests use a handful of fixed files with one layout each.",
        ["contentline/parser.py", "contentline/__init__.py", "icalendar.py"], [("unfolding and line splitting", "src/ics/contentline/parser.py")],
        technique=EXH, note="every fold subset of short documents, every text of <=7/9 symbols over a structural alphabet, compared with a character-level reference reader",
    ),
    P(
        "C03", "BEGIN/END lines form exactly the tree they denote",
        "Reading lines yields exactly the tree of named containers and properties that the BEGIN and END lines denote, in order, whatever the nesting depth and the case of the keywords; "
        "a mismatching END or a missing END is rejected. Writing the tree and reading it again gives an equal tree.",
        ["inputs"], "all sequences of BEGIN, END and property lines",
        "The set of nestings is unbounded; tests contain a few well-formed and a few broken files.",
        ["contentline/container.py", "contentline/parser.py"], [("Parser.parse / container stack", "src/ics/contentline/container.py")],
        technique="explicit-state exploration of the BEGIN/END stack machine, all line sequences up to a depth", note="all sequences of <=6/7 lines over 9 kinds of lines, all trees of <=5/7 nodes",
    ),
    P(
        "C04", "A container is a type-safe list with atomic operations",
        "A container behaves like a list of content lines and containers under every list operation and every history of them, an operation offered an item of another type is rejected and leaves the content unchanged, "
        "and a clone is equal to and independent of its original.",
        ["histories"], "all sequences of list operations from all reachable contents",
        "Operation histories are unbounded; tests call single operations.",
        ["contentline/container.py"], [("Container: check_items, insert, __setitem__, extend, clone", "src/ics/contentline/container.py")],
        technique=BFS, note="BFS of all states of <=4/5 items x ~190 operations",
    ),
    P(
        "C05", "TEXT escaping is lossless and never leaks separators",
        "Every text value is read back identical after being written, a list of texts is read back as the same list (also with empty items and items containing separators), "
        "and the written form contains no raw line break and no separator that is not escaped.",
        ["inputs"], "all strings and lists of strings",
        "Escapes interact at every position (backslashes before separators, at the end); property-based tests sample.",
        ["valuetype/text.py", "valuetype/base.py"], [("TextConverter escape/unescape/split_value_list/join_value_list", "src/ics/valuetype/text.py")],
        technique=EXH, note="all strings of <=5/6 structural symbols, every code point, all lists of <=3/4 values",
    ),
    P(
        "C06", "Simple value types survive writing and reading",
        "Durations, UTC offsets, numbers, booleans, binary data, coordinates and URIs are read back equal after being written, well-formed texts are read as the value RFC 5545 gives them, and malformed durations and offsets are rejected with a ValueError.",
        ["inputs"], "all values and all short texts",
        "Sign, carry and component boundaries are too many to sample.",
        ["valuetype/generic.py", "valuetype/special.py", "valuetype/datetime.py", "geo.py"], [("DurationConverter, UTCOffsetConverter, BinaryConverter, ...", "src/ics/valuetype/")],
        technique=EXH, note="all durations within +-50000/400000 s, all offsets, all texts of <=5/6 symbols",
    ),
    P(
        "C07", "Dates, times and periods survive writing and reading",
        "Every date, time, date-time (floating, UTC however it is spelled, zoned) and period is written in its RFC 5545 form and read back equal with the same zone, and malformed texts raise a ValueError instead of being read as another moment or failing otherwise.",
        ["inputs"], "all dates from year 1 to 9999, all times, all spellings of UTC, zones, periods, and edits of valid texts",
        "Calendar, truncation and zone boundaries cannot be enumerated by examples.",
        ["valuetype/datetime.py", "utils.py"], [("DateConverter, TimeConverter, DatetimeConverter, PeriodConverter", "src/ics/valuetype/datetime.py"), ("is_utc", "src/ics/timezone/__init__.py")],
        technique=EXH, note="all months of all years, all seconds of a day, all <=1/2 symbol edits",
    ),
    P(
        "C08", "Events, todos and timespans are always in a valid state",
        "Whatever sequence of attribute assignments and method calls is applied, an event, todo or timespan is always valid: it never has both an explicit end and an explicit duration, never ends before it begins, never mixes floating and zoned ends, "
        "is never all-day with times of day, and its begin, end and duration are consistent. An invalid change is rejected with a ValueError or TypeError and leaves everything as it was.",
        ["histories"], "all histories of operations from all constructible states",
        "The invariant depends on the history of representations; tests check single transitions.",
        ["timespan.py", "event.py", "todo.py", "utils.py"], [("Timespan.validate, replace, _end_name, set via make_begin/...", "src/ics/timespan.py"), ("CalendarEntryAttrs property setters", "src/ics/event.py")],
        technique=BFS, note="all reachable states with <=2/5 operations out of ~90",
    ),
    P(
        "C09", "All-day conversion covers exactly the touched days",
        "Making an entry all-day covers exactly the days it touches (at least one), keeping the representation of its end; changing the representation of the end between end time and duration never moves the end; going back to a timed entry keeps begin and end.",
        ["inputs", "histories"], "all begins, lengths, zones and chains of representation changes",
        "Rounding is wrong only at boundaries (last second, midnight, DST days), which tests sample.",
        ["timespan.py", "utils.py"], [("make_all_day, convert_end", "src/ics/timespan.py"), ("floor_datetime_to_midnight, ceil_datetime_to_midnight", "src/ics/utils.py")],
        technique=EXH, note="22+ begin times x 7 days x 60-100 lengths x 3 kinds x 4 zones x representations, all chains <=3",
    ),
    P(
        "C10", "Interval relations are those of absolute half-open intervals",
        "Whether two events, todos or timespans intersect, include each other, start within, end within, ... depends only on the half-open intervals of absolute time they cover, for every mix of end times and durations, zones, floating and all-day entries.",
        ["inputs", "configurations"], "all pairs of intervals, representations, zones and local timezones",
        "Pairs x representations x zones are too many for examples; the relations have strict and non-strict boundaries each.",
        ["timespan.py", "event.py", "todo.py"], [("Timespan.intersects, includes, is_included_in, starts_within, ...", "src/ics/timespan.py")],
        technique=EXH, note="all ordered pairs over 5/7 endpoints x 4 zones x kinds x local zones",
    ),
    P(
        "C11", "Entries are consistently ordered by absolute time",
        "Comparing events, todos and timespans is a total preorder by absolute begin and end, the same for all operators and representations, mixing floating (local) and zoned times, so sorting the same entries always gives a chronological order.",
        ["inputs", "configurations"], "all pairs and permutations of entries",
        "Order axioms quantify over all pairs and triples.",
        ["timespan.py", "event.py", "todo.py", "component.py"], [("cmp_tuple, __lt__ ...", "src/ics/timespan.py")],
        technique=EXH, note="all pairs of ~65/150 entries of each kind, all permutations of 4-element subsets",
    ),
    P(
        "C12", "Timeline queries return exactly the matching events, in order",
        "For every content of a calendar and every query, the timeline yields exactly the scheduled events matching the query (all, start after, overlapping, included, at an instant, on a day, now), in chronological order, for the current content at the time of the call, "
        "and without changing the calendar.",
        ["inputs", "histories", "schedules"], "all calendars, queries, histories of changes, interleaved iterations, current times and local timezones",
        "The heap-based traversal and boundary instants depend on the combination of events.",
        ["timeline.py", "icalendar.py"], [("Timeline iterator, overlapping, on, now", "src/ics/timeline.py")],
        technique=EXH, note="all multisets of <=3/4 of 13 events x ~170 queries, histories of <=3 changes, all interleavings of two iterators",
    ),
    P(
        "C13", "Timezone conversion keeps instants, replacement keeps wall clocks",
        "Converting an entry to another timezone keeps its begin and end instants, replacing its timezone keeps the wall clock, entries without times are left alone, and normalizing a calendar does this for exactly the selected kinds of entries and leaves everything else unchanged.",
        ["inputs", "configurations"], "all entries, source and target zones, normalization options",
        "DST boundaries and the option matrix are too many for examples.",
        ["timespan.py", "icalendar.py", "timeline.py", "timezone/__init__.py"], [("convert_timezone, replace_timezone, normalize", "src/ics/timespan.py"), ("Calendar.normalize, Normalization", "src/ics/icalendar.py")],
        technique=EXH, note="all 7x7 zone pairs x times around 5 DST changes x shapes x kinds; all option combinations",
    ),
    P(
        "C14", "All attributes of entries and calendars survive a round trip",
        "Every attribute of every event, todo and calendar has the same value after writing the calendar and reading it again, unset attributes stay unset, entries stay in order, and writing again gives exactly the same text.",
        ["inputs", "histories"], "all attribute values and combinations",
        "Attributes interact (all-day and VALUE params, zones, multi-valued attributes); tests cover single attributes.",
        ["event.py", "todo.py", "icalendar.py", "converter/", "valuetype/", "alarm.py", "attendee.py"], [("ComponentMeta populate/serialize", "src/ics/converter/component.py"), ("AttributeValueConverter", "src/ics/converter/value.py"), ("TimespanConverter", "src/ics/converter/types/timespan.py")],
        technique=EXH, note="every value of every attribute, all pairs/triples of attributes, all ordered calendars of <=3 of 9 entries",
    ),
    P(
        "C15", "Unknown content is preserved, exactly once and in place",
        "Properties, parameters and components the library doesn't know are kept when a calendar is read and written again: at every component, with all their params and values, exactly once and in their original order; "
        "what the user adds by hand is written too. Stripping extras removes exactly these and nothing the library knows.",
        ["inputs", "histories"], "all unknown content at all places of all kinds of components",
        "Extras cross every component, parameter and multi-valued property; tests look at a few fixed places.",
        ["component.py", "converter/component.py", "converter/value.py", "converter/base.py", "converter/types/timespan.py", "converter/types/various.py", "types.py"],
        [("ComponentMeta.populate_instance / post_populate, extra containers", "src/ics/converter/component.py"), ("extra_params bookkeeping", "src/ics/converter/value.py"), ("Component.strip_extras", "src/ics/component.py")],
        technique=EXH, note="all sequences of <=2/3 unknown lines at all places, all params x all known properties, all subsets of strip options",
    ),
    P(
        "C16", "Exactly the well-formed components are accepted",
        "A component is accepted exactly if it is well-formed: its single-valued properties occur at most once, the required ones are there, the combination of begin, end, due and duration is allowed and all values are well-formed; everything else is rejected with a ValueError. "
        "What is read depends neither on the order of the properties, nor on the upper or lower case of names and enumerated values, nor on the other components in the file.",
        ["inputs"], "all combinations, repetitions and orders of properties of all kinds of components",
        "Combinations and orders are exponential; tests contain single malformed files.",
        ["converter/component.py", "converter/value.py", "converter/types/timespan.py", "converter/types/various.py", "converter/types/timezone.py", "converter/types/calendar.py"],
        [("populate / post_populate, multiplicity and required checks", "src/ics/converter/base.py"), ("TimespanConverter", "src/ics/converter/types/timespan.py"), ("Timezone_from_..., observance converters", "src/ics/converter/types/timezone.py")],
        technique=EXH, note="all multisets and permutations of <=4/5 property lines per component, all malformed values",
    ),
    P(
        "C17", "Multi-valued properties keep values, order, grouping and params",
        "Properties with several values (on one line or on several lines) keep all their values in order, on the same lines, each line with its own params, when they are read and written again; "
        "values the user sets are all written; a list which no longer fits the params that were read is rejected when it is written, until the params are removed.",
        ["inputs", "histories"], "all lists of values, their groupings into lines and their params",
        "The bookkeeping of groups and params depends on every grouping; tests use one or two.",
        ["converter/value.py", "converter/types/various.py", "event.py", "todo.py", "alarm.py"],
        [("AttributeValueConverter: populate/serialize of multi-valued attributes", "src/ics/converter/value.py")],
        technique=EXH, note="all groupings of <=4/5 values into lines x params x attributes, and all later changes of the list",
    ),
    P(
        "C18", "Written calendars define every timezone they refer to",
        "A written calendar defines every timezone its times refer to exactly once, before the entries, such that a reader without any timezone database gets the same instants; zones defined in a file take precedence over those of the system, "
        "and files read before or after never influence a calendar.",
        ["inputs", "histories"], "all kinds of zones at all places a time can be, all orders of components, all histories of files",
        "Which zones are reachable from which property and which caches are filled depends on the whole calendar and the files read before.",
        ["converter/types/calendar.py", "converter/types/timezone.py", "timezone/__init__.py", "timezone/converters.py", "valuetype/datetime.py", "icalendar.py"],
        [("CalendarTimezoneConverter", "src/ics/converter/types/calendar.py"), ("Timezone.from_tzid, Timezone_from_builtin, Timezone_from_tzinfo", "src/ics/timezone/")],
        technique=EXH, note="all pairs/triples of (property, zone) places, definition orders, histories of 2/3 files",
    ),
    P(
        "C19", "A timezone answers as its definition says, whatever was asked before",
        "A timezone gives every local time the offset and name its rules define (the earlier or later one of an ambiguous time according to fold) and converts every instant to the right local time and back, "
        "whatever the order of its observances, for rules which change at any time to any offset, and independent of the queries asked before.",
        ["inputs", "histories"], "all times around all transitions of all kinds of definitions, all orders of observances, all histories of queries",
        "Transitions, folds and gaps are few instants among many, and a wrong cache only shows after certain earlier queries; tests ask single dates of two zones.",
        ["timezone/__init__.py", "timezone/converters.py", "converter/types/timezone.py"],
        [("Timezone._find_observance, fromutc, utcoffset, dst, tzname, its lru_cache", "src/ics/timezone/__init__.py"), ("Timezone_from_tzid", "src/ics/timezone/converters.py")],
        technique=BFS, note="every transition of 13 definitions x orders x distances x folds, all histories of <=3 queries, all distinct zones of the database",
    ),
    P(
        "C20", "Threads working on their own calendars don't influence each other",
        "Threads which read, write, compare and change different calendars at the same time get exactly the results they would get alone, at any interleaving, including the first use of the library in a process; "
        "readers which are consumed lazily and alternately don't influence each other.",
        ["inputs", "schedules"], "all interleavings of the operations of two threads up to a bound of preemptions",
        "The library keeps process-wide state (converters filled on first use, caches, parser, context variables); a wrong result needs a switch at one particular line.",
        ["__init__.py", "contentline/", "component.py", "converter/", "timezone/", "valuetype/", "event.py"],
        [("initialize_converters, ComponentMeta.BY_TYPE", "src/ics/__init__.py"), ("ContentLine parser", "src/ics/contentline/parser.py"), ("lru_caches of timezones", "src/ics/timezone/converters.py")],
        technique="stateless model checking of the implementation under a controlled thread scheduler, bounded preemptions", note="every preemption point (library line) x operation pairs, bound 1/2 preemptions",
    ),
    P(
        "C21", "Context managers have an effect exactly while they are active",
        "deterministic_event_data and contentline_set_wrap determine the UID and DTSTAMP of new entries and the width of written lines exactly while they are active, for exactly the code they enclose: "
        "they nest, end when left in any way, and have no effect on other threads and tasks; explicit values are never replaced.",
        ["histories", "schedules"], "all properly nested histories of entering and leaving them normally and by exceptions, in threads, tasks and generators",
        "Leaks need a certain nesting, an exception at a certain point or another thread; tests use one manager and one block.",
        ["event.py", "contentline/container.py"],
        [("deterministic_event_data, default_uid_factory, default_dtstamp_factory", "src/ics/event.py"), ("contentline_set_wrap, Container.serialize_iter", "src/ics/contentline/container.py")],
        technique=BFS, note="all nested histories of <=5/7 operations, all interleavings of two tasks",
    ),
    P(
        "C22", "Assigning an attribute is the same as constructing with it",
        "Assigning a value to an attribute of a component, of a timespan or of a content line does the same conversion and validation as passing it to the constructor, on every instance and every subclass and whatever was assigned before to whichever object; "
        "a rejected value leaves the object unchanged, and a begin, end or duration is only accepted if it forms a valid timespan with the other ones.",
        ["inputs", "histories"], "all attributes, values of all types, histories of assignments to objects of related classes",
        "Validators and converters are attached by class machinery per attribute and per class; tests assign a few attributes of one class.",
        ["component.py", "event.py", "todo.py", "timespan.py", "icalendar.py", "alarm.py", "contentline/container.py", "attendee.py", "utils.py"],
        [("Component / attrs setters: on_setattr, call_validate_on_inst", "src/ics/component.py"), ("CalendarEntryAttrs properties begin, end, duration", "src/ics/event.py"), ("validators", "src/ics/utils.py")],
        technique=BFS, note="every attribute x 75 values against a reference table, all histories of <=3/4 assignments to 3 objects",
    ),
    P(
        "C23", "Looking at a calendar never changes it",
        "Writing, printing, comparing, hashing, sorting, querying a calendar or any part of it, in any order and however often, leaves everything reachable from it unchanged and gives the same result every time; "
        "reading a container doesn't modify the container and gives an equal result when repeated.",
        ["histories"], "all sequences of operations which only look, on calendars with all kinds of content",
        "Serialization copies and merges extras, params and timezones; a write into a shared object only shows in the next use.",
        ["component.py", "converter/", "timeline.py", "timespan.py", "contentline/container.py", "icalendar.py"],
        [("ComponentMeta.serialize_toplevel / populate_instance", "src/ics/converter/component.py"), ("extra_params bookkeeping", "src/ics/converter/value.py"), ("Timeline", "src/ics/timeline.py")],
        technique=BFS, note="6 calendars x all sequences of <=2/3 of ~45 operations, snapshot of the whole object graph compared after each",
    ),
    P(
        "C24", "Copies are equal to their original and independent of it",
        "A copy of a calendar or any part of it, obtained by deepcopy or pickling (also in another process), is equal to the original, is written as the same text and behaves the same; no change of either is seen in the other. "
        "Clones, shallow copies and evolved copies are equal, too, and replacing their attributes doesn't affect the original.",
        ["histories"], "all parts of calendars, ways to copy, changes afterwards and chains of copies",
        "Sharing shows only when a particular nested object is changed after a particular way of copying.",
        ["component.py", "contentline/container.py", "timezone/__init__.py", "icalendar.py", "timespan.py", "attendee.py", "types.py"],
        [("Component.clone", "src/ics/component.py"), ("Container.clone, ContentLine.clone", "src/ics/contentline/container.py"), ("Timezone.__reduce__", "src/ics/timezone/__init__.py")],
        technique=BFS, note="every part of 6 calendars x 10 ways to copy x every single change of every mutable object, chains of <=2/3 copies",
    ),
    P(
        "C25", "Attributes of attendees and organizers are views of their params",
        "Every attribute of an attendee or organizer reads, sets and deletes exactly its own parameter, with its default when it is unset, however the object was made, independently of all other attributes and persons, "
        "and everything set is read back equal after writing; lists of attendees keep order and duplicates.",
        ["inputs", "histories"], "all attributes and values, histories of setting, deleting and changing params",
        "Defaults, multi-valued and quoted params and deletion interact per attribute; tests cover few values.",
        ["attendee.py", "valuetype/special.py", "converter/value.py", "types.py"],
        [("Person, Attendee: PersonProperty descriptors", "src/ics/attendee.py")],
        technique=BFS, note="all values of all attributes, all histories of <=3/4 of 43 operations, all lines with <=2/3 of 24 params",
    ),
    P(
        "C26", "Recurrence rules mean the onsets RFC 5545 gives them",
        "The RRULE, RDATE, EXRULE and EXDATE lines of a timezone observance denote exactly the onsets RFC 5545 defines, in any order of lines and with UNTIL given in UTC; "
        "writing and reading keeps every onset and all equal rules equal, and rules which say the same are equal and have equal hashes, others aren't equal.",
        ["inputs"], "all combinations of rule parts, ends, offsets and sequences of recurrence lines",
        "Parts of rules, UNTIL conversion by the observance's offset and duplicates interact; tests have a few rules from real timezones.",
        ["rrule.py", "converter/types/various.py", "converter/types/timezone.py", "timezone/__init__.py", "valuetype/datetime.py"],
        [("RecurrenceConverter populate / post_populate / serialize", "src/ics/converter/types/various.py"), ("rrule_to_ContentLine, rrule_eq, rruleset_eq", "src/ics/rrule.py")],
        technique=EXH, note="all combinations of <=2/3 BY-parts, ends at, before and after onsets, all sequences of <=3/4 recurrence lines, compared with a reference expander that filters days",
    ),
    P(
        "C27", "Timezones are found by all names and converted faithfully",
        "A timezone is found by each of its names (Olson names with any vendor prefix, Windows names) and by no other; UTC is recognised in all its forms and by nothing else; "
        "timezones of the standard library and of dateutil are converted to timezones with the same offsets and names, whatever was converted before, and a timezone is converted back to the standard library's one.",
        ["inputs", "histories"], "all timezone names, prefixes and tzinfo objects, histories of conversions",
        "There are about 600 zones in several spellings and implementations; tests use three.",
        ["timezone/__init__.py", "timezone/converters.py"],
        [("Timezone.from_tzid, from_tzinfo, to_builtin, is_utc, ensure_utc", "src/ics/timezone/__init__.py"), ("Timezone_from_tzinfo and its per-type converters", "src/ics/timezone/converters.py")],
        technique=EXH, note="every Olson and Windows name x prefixes and near misses, every zone of three implementations, all fixed offsets, all histories of <=3/4 conversions",
    ),
    P(
        "C28", "Every text is either rejected cleanly or read for good",
        "Reading any text either raises a ValueError (or its ParseError, or an AssertionError for misplaced components), the same each time, or gives a calendar which can be queried, compared, printed and written, "
        "is equal to itself when read again, and is written as the same text again; a change of one property has no effect on any other one.",
        ["inputs"], "all small edits of all kinds of lines, all values, line and block edits, truncations and splices",
        "Broken input from other programs is unbounded; fuzzing samples it and has no oracle beyond crashes.",
        ["icalendar.py", "converter/component.py", "converter/value.py", "converter/types/", "valuetype/", "contentline/parser.py", "timezone/__init__.py"],
        [("Calendar.__init__ / string_to_containers / ComponentMeta.populate_instance", "src/ics/converter/component.py"), ("RecurrenceConverter", "src/ics/converter/types/various.py"), ("value converters parse/serialize", "src/ics/valuetype/")],
        technique=EXH, note="edit distance 1 (thorough: 2) of 100 kinds of lines in context, all short values, all line and block edits, truncations and splices of two full calendars",
    ),
    P(
        "C29", "Components are read and written as their attributes declare",
        "A component class, also a user-defined one, is written with exactly the properties its attributes declare (name, value type, VALUE param for other than the first type of a Union, one line per list value) in order of priority and declaration, "
        "with its sub-components and unknown items, and read back to equal attributes; properties missing, set twice, of another type or in another component are rejected with ValueError as declared; "
        "ignored attributes are neither written nor read; custom converters and their hooks are used, and equally declared attributes of other classes or of nested components don't interfere.",
        ["inputs"], "all pairs of attribute declarations and their values, trees of nested components, orders of properties",
        "The library's own components use a fraction of the declarable combinations; tests define no component.",
        ["converter/base.py", "converter/component.py", "converter/value.py", "component.py", "types.py"],
        [("AttributeConverter, extract_attr_type, sort_converters", "src/ics/converter/base.py"), ("AttributeValueConverter", "src/ics/converter/value.py"), ("ComponentMeta, ImmutableComponentMeta, MemberComponentConverter", "src/ics/converter/component.py")],
        technique=EXH, note="all components with <=2 (thorough: 3) of 48 attribute declarations x values x 9 ways to write the text, all trees of <=5/6 nested components, custom converters",
    ),
]

"""C18: written calendars define every timezone they refer to exactly once and mean the same instants on any system; definitions in a file take precedence."""
import itertools
from datetime import datetime, timedelta, timezone
from unittest import mock
from zoneinfo import ZoneInfo

import dateutil.tz
import ics_vtimezones

from ics import Calendar, DisplayAlarm, Event, Timezone, Todo
from ics.contentline import string_to_container
from ics.timezone import UTC
from mc import ref

PROPERTY = "C18"
BOUNDS = {
    "quick": "every assignment of 12 zones (none, UTC, iCalendar, IANA, dateutil, fixed, custom) to the 3 main slots and to every two of 6 slots of a calendar (there also 11 zones with similar names or the same rules), at a summer or winter time, "
    "written, checked by an independent reader and read again with all timezone databases disabled; every two definitions with similar names x 19 references; every document with <=3 of 5 definitions in any order and position x 4 references; "
    "every zone (~600) and Windows name (~140) of the timezone database",
    "thorough": "both times, every assignment of 12 zones to 4 slots in addition",
}
ASSUMPTIONS = ["times are unambiguous", "definitions which aren't referred to are not kept"]

SUMMER, WINTER = datetime(2020, 7, 1, 12), datetime(2020, 1, 15, 12)


def custom(tzid, std="+0400", dst="+0530", extra=""):
    return Timezone.from_container(string_to_container(custom_text(tzid, std, dst, extra)))


def custom_text(tzid, std="+0400", dst="+0530", extra="", start="20100101"):
    return (
        f"BEGIN:VTIMEZONE\r\nTZID:{tzid}\r\n{extra}BEGIN:STANDARD\r\nTZOFFSETFROM:{dst}\r\nTZOFFSETTO:{std}\r\nDTSTART:20101001T000000\r\nRRULE:FREQ=YEARLY;BYMONTH=10;BYDAY=1FR\r\nTZNAME:S\r\nEND:STANDARD\r\n"
        f"BEGIN:DAYLIGHT\r\nTZOFFSETFROM:{std}\r\nTZOFFSETTO:{dst}\r\nDTSTART:20100401T000000\r\nRRULE:FREQ=YEARLY;BYMONTH=4;BYDAY=1TH\r\nTZNAME:D\r\nEND:DAYLIGHT\r\nEND:VTIMEZONE"
    )


def fixed_text(tzid, off):
    return f"BEGIN:VTIMEZONE\r\nTZID:{tzid}\r\nBEGIN:STANDARD\r\nTZOFFSETFROM:{off}\r\nTZOFFSETTO:{off}\r\nDTSTART:19700101T000000\r\nEND:STANDARD\r\nEND:VTIMEZONE"


ZONES = {
    "none": lambda: None, "utc": lambda: timezone.utc, "icsutc": lambda: UTC, "icsber": lambda: Timezone.from_tzid("Europe/Berlin"), "ziber": lambda: ZoneInfo("Europe/Berlin"),
    "zikol": lambda: ZoneInfo("Asia/Kolkata"), "dusyd": lambda: dateutil.tz.gettz("Australia/Sydney"), "fix": lambda: timezone(timedelta(hours=-3, minutes=-30)), "fixn": lambda: timezone(timedelta(hours=5), "Odd, \"Name\"; x"),
    "custA": lambda: custom("My/Zone"), "custB": lambda: custom("my/zone", "-0100", "+0000"), "cust1": lambda: Timezone.from_container(string_to_container(fixed_text("F:1\\,2", "+1245"))),
}
TZIDS = {"none": None, "utc": None, "icsutc": None, "icsber": "/Europe/Berlin", "ziber": "/Europe/Berlin", "zikol": "/Asia/Kolkata", "dusyd": "/Australia/Sydney", "fix": "UTC-03:30", "fixn": 'Odd, "Name"; x', "custA": "My/Zone", "custB": "my/zone", "cust1": "F:1,2"}
NAMES = list(ZONES)
# zones with the same rules and similar names, and zones with similar names and other rules
SIMILAR = {"Europe/Berlin": 0, "Berlin": 0, "EUROPE/BERLIN": 0, "//Europe/Berlin": 0, "Europe": 1, "Europe/Berlin2": 0, "My": 1, "My/Zone/": 1}
for _n, _r in SIMILAR.items():
    ZONES[_n] = lambda n=_n, r=_r: Timezone(n, (Timezone.from_tzid("Europe/Berlin") if r == 0 else custom("x")).observances)
    TZIDS[_n] = _n
SIMILAR_NAMES = ["icsber", "custA", "cust1", *SIMILAR]
SLOTS = ["begin", "end", "due", "completed", "trigger", "begin2"]
_z = {}


def zone(n):
    if n not in _z:
        _z[n] = ZONES[n]()
    return _z[n]


def cases(tier):
    for a, b, c in itertools.product(range(len(NAMES)), repeat=3):
        if (NAMES[a] == "none") == (NAMES[b] == "none"):
            yield ["slots", ["begin", "end", "due"], [a, b, c], tier == "thorough"]
    for s, t in itertools.combinations(SLOTS, 2):
        for a in range(len(NAMES)):
            yield ["pair", [s, t], a]
    for s, t in itertools.combinations(SLOTS, 2):
        yield ["similar", [s, t]]
    if tier == "thorough":
        for a, b, c in itertools.product(range(len(NAMES)), repeat=3):
            yield ["four", [a, b, c]]
    for n in range(4):
        for defs in itertools.permutations(range(len(DEFS)), n):
            yield ["defs", list(defs)]
    for i in range(0, len(ics_vtimezones.ZONEINFO_LIST), 10):
        yield ["builtin", i]
    wins = sorted(ics_vtimezones.WINDOWS_ZONE_MAPPING)
    for i in range(0, len(wins), 10):
        yield ["windows", i]
    for i in range(len(NEAR)):
        yield ["near", i]
    yield ["collision"]
    yield ["extra"]
    for i, j in itertools.product(range(6), repeat=2):
        yield ["again", i, j]


def make(assign, when):
    """a calendar with the slots set to times in the given zones"""

    def t(slot, h=0):
        n = assign.get(slot)
        return None if n is None else (when + timedelta(hours=h)).replace(tzinfo=zone(n))

    kw = {"uid": "u", "dtstamp": WINTER.replace(tzinfo=timezone.utc)}
    cal = Calendar()
    al = [DisplayAlarm(trigger=t("trigger"), description="d")] if "trigger" in assign else []
    if "begin" in assign or "end" in assign or al:
        b = t("begin")
        if b is None and "end" in assign:
            b = (when - timedelta(days=2)).replace(tzinfo=None if assign["end"] == "none" else timezone.utc)
        cal.events.append(Event(begin=b, end=t("end", 48) if "end" in assign else None, alarms=al, summary="e1", **kw))
    if "due" in assign or "completed" in assign:
        cal.todos.append(Todo(due=t("due"), completed=t("completed", 3), summary="t", **kw))
    if "begin2" in assign:
        cal.events.append(Event(begin=t("begin2"), summary="e2", **kw))
    return cal


def times(cal):
    out = []
    for e in cal.events:
        out += [("e", e.summary, "b", e.timespan.begin_time), ("e", e.summary, "e", e.timespan.end_time)] + [("a", e.summary, "t", a.trigger) for a in e.alarms]
    for t in cal.todos:
        out += [("t", t.summary, "d", t.timespan.end_time), ("t", t.summary, "c", t.completed)]
    return out


def desc(t):
    *k, dt = t
    if not isinstance(dt, datetime):
        return (*k, dt)
    return (*k, dt.replace(tzinfo=None), dt.utcoffset())


class NoDatabase:
    def __enter__(self):
        self.ps = [mock.patch("ics_vtimezones.find_vtimezone_ics_file", return_value=None), mock.patch("ics.valuetype.datetime.gettz", return_value=None)]
        for p in self.ps:
            p.start()

    def __exit__(self, *a):
        for p in self.ps:
            p.stop()


def check(assign, when, rep):
    rep.step()
    cal = make(assign, when)
    want = [desc(t) for t in times(cal)]
    used = {TZIDS[n] for n in assign.values()} - {None}
    if "end" in assign and "begin" not in assign:
        pass
    text = cal.serialize()
    root = ref.parse(text)[0]
    defs = [dict((x[0], x[2]) for x in c.items if not isinstance(x, ref.C))["TZID"] for c in root.subs("VTIMEZONE")]
    refs = set()

    def walk(c):
        for x in c.items:
            if isinstance(x, ref.C):
                if x.name != "VTIMEZONE":
                    walk(x)
            else:
                for n, v in x[1]:
                    if n == "TZID":
                        refs.add(v[0])
                        rep.expect(len(v) == 1 and not x[2].endswith("Z"), lambda: f"{assign}: {x}", "ref")

    walk(root)
    unesc = [d.replace("\\,", ",").replace("\\;", ";").replace("\\n", "\n").replace("\\\\", "\\") for d in defs]
    rep.expect(sorted(unesc) == sorted(refs), lambda: f"{assign}: refers to timezones {sorted(refs)} but defines {unesc}", "defined")
    rep.expect(len(refs) == len(used) and all(any(r == u or u.startswith("/") and r.endswith(u) for u in used) for r in refs), lambda: f"{assign}: refers to {sorted(refs)}", "refs")
    kinds = [x.name if isinstance(x, ref.C) else "" for x in root.items]
    rep.expect(max([i for i, k in enumerate(kinds) if k == "VTIMEZONE"], default=-1) < min([i for i, k in enumerate(kinds) if k in ("VEVENT", "VTODO")], default=99), lambda: f"{assign}: timezones after entries", "order")
    with NoDatabase():
        cal2 = Calendar(text)
    got = [desc(t) for t in times(cal2)]
    rep.state((tuple(sorted(assign.items())), when))
    rep.outcome(f"{len(refs)} zones")
    rep.expect(got == want, lambda: f"{assign} at {when}: read as {got} instead of {want}", "instants")
    rep.expect(cal2.serialize() == text, lambda: f"{assign}: written again differently", "fixpoint")


# definitions for documents of other programs: (text, tzid, summer offset)
DEFS = [
    (custom_text("Europe/Berlin"), "Europe/Berlin", timedelta(hours=5, minutes=30)), (custom_text("My/Zone", "+0100", "+0300"), "My/Zone", timedelta(hours=3)), (fixed_text("/x/Europe/Paris", "-0700"), "/x/Europe/Paris", timedelta(hours=-7)),
    (fixed_text("X Time", "+0015"), "X Time", timedelta(minutes=15)), (custom_text("/ics.py/2020.1/Europe/London", "-0100", "-0200"), "/ics.py/2020.1/Europe/London", timedelta(hours=-2)),
]
REFS = [("Europe/Berlin", timedelta(hours=2)), ("My/Zone", None), ("/x/Europe/Paris", timedelta(hours=2)), ("X Time", None), ("/ics.py/2020.1/Europe/London", timedelta(hours=1)), ("W. Europe Standard Time", timedelta(hours=2))]


def run_defs(defs, rep):
    for r, (tzid, fallback) in enumerate(REFS):
        ev = f"BEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20200101T000000Z\r\nDTSTART;TZID={tzid}:20200701T120000\r\nEND:VEVENT"
        want = next((DEFS[i][2] for i in defs if DEFS[i][1] == tzid), fallback)
        for pos in range(len(defs) + 1):
            items = [DEFS[i][0] for i in defs]
            items.insert(pos, ev)
            text = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\n" + "\r\n".join(items) + "\r\nEND:VCALENDAR"
            rep.step()
            rep.state((tuple(defs), r, pos))
            try:
                cal = Calendar(text)
            except ValueError:
                rep.outcome("unknown zone")
                rep.expect(want is None, lambda: f"definitions {[DEFS[i][1] for i in defs]}: TZID {tzid} was rejected", "lookup")
                continue
            rep.outcome("known zone")
            b = cal.events[0].begin
            if not rep.expect(want is not None and b.utcoffset() == want and b.replace(tzinfo=None) == SUMMER, lambda: f"definitions {[DEFS[i][1] for i in defs]}: {tzid} was read with offset {b.utcoffset()} instead of {want}", "lookup"):
                continue
            out = cal.serialize()
            ds = ref.parse(out)[0].subs("VTIMEZONE")
            rep.expect(len(ds) == 1, lambda: f"{tzid}: wrote {ds}", "lookup")
            if any(DEFS[i][1] == tzid for i in defs):
                rep.expect(ds[0].props("TZID")[0][2] == tzid, lambda: f"{tzid} written as {ds[0].props('TZID')}", "lookup")
            with NoDatabase():
                rep.expect(Calendar(out).events[0].begin.utcoffset() == want, lambda: f"{tzid} has another offset after writing", "lookup")


NEAR = ["Berlin", "Europe/Berlin", "europe/berlin", "/x/Europe/Berlin", "/x/1/Europe/Berlin", "/Europe/Berlin", "//Europe/Berlin", "Europe", "W. Europe Standard Time", "Europe/Berlin2", "Berlin/Europe", "My/Zone", "Zone", "my/zone", "/My/Zone", "UTC", "Etc/UTC", "utc", "CET"]


def run_near(i, rep):
    """definitions with similar names don't matter"""
    ref_name = NEAR[i]

    def read(defs):
        text = "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:p", *defs, "BEGIN:VEVENT", "UID:u", "DTSTAMP:20200101T000000Z", f"DTSTART;TZID={ref_name}:20200701T120000", "END:VEVENT", "END:VCALENDAR"])
        try:
            b = Calendar(text).events[0].begin
        except ValueError:
            return "unknown"
        return b.replace(tzinfo=None), b.utcoffset()

    alone = read([])
    for x, y in itertools.product(NEAR, repeat=2):
        defs = {x: "+1100", y: "-0930"}
        want = alone
        if ref_name in defs:
            want = SUMMER, timedelta(hours=11) if ref_name != y else -timedelta(hours=9, minutes=30)
        got = read([fixed_text(n, o) for n, o in defs.items()])
        rep.step()
        rep.state(("near", ref_name, x, y))
        rep.outcome("near")
        rep.expect(got == want, lambda: f"definitions {defs}: {ref_name} was read as {got} instead of {want}", "near")


def run_case(case, rep):
    rep.trace()
    what = case[0]
    if what == "slots":
        for when in (SUMMER, WINTER) if case[3] else ([SUMMER, WINTER][sum(case[2]) % 2],):
            check({s: NAMES[i] for s, i in zip(case[1], case[2])}, when, rep)
    elif what == "pair":
        s, t = case[1]
        for b in range(len(NAMES)):
            assign = {s: NAMES[case[2]], t: NAMES[b]}
            if {s, t} == {"begin", "end"} and (assign["begin"] == "none") != (assign["end"] == "none"):
                continue
            check(assign, SUMMER, rep)
    elif what == "similar":
        for a, b in itertools.product(SIMILAR_NAMES, repeat=2):
            check(dict(zip(case[1], (a, b))), SUMMER, rep)
    elif what == "four":
        a, b, c = case[1]
        for d in range(len(NAMES)):
            check({"begin": NAMES[a], "due": NAMES[b], "trigger": NAMES[c], "begin2": NAMES[d]}, WINTER, rep)
    elif what == "near":
        run_near(case[1], rep)
    elif what == "defs":
        run_defs(case[1], rep)
    elif what == "builtin":
        for name in ics_vtimezones.ZONEINFO_LIST[case[1] : case[1] + 10]:
            name = str(name)
            name = name[:-4] if name.endswith(".ics") else name
            rep.step()
            tz = Timezone.from_tzid(name)
            rep.state(name)
            rep.expect(tz.tzid.startswith("/ics.py/2020.1/") and tz.is_builtin and tz.to_builtin() == tz, lambda: f"{name} was found as {tz.tzid}", "builtin")
            rep.expect(Timezone.from_tzid("/other.org/1/" + name) == tz, lambda: f"{name} with prefix", "builtin")
            back = Timezone.from_container(string_to_container(tz.serialize()))
            rep.expect(back == tz and back.tzid == tz.tzid and back.observances == tz.observances and back.serialize() == tz.serialize(), lambda: f"{name} was read back differently", "builtin")
            rep.outcome("builtin")
    elif what == "windows":
        for w in sorted(ics_vtimezones.WINDOWS_ZONE_MAPPING)[case[1] : case[1] + 10]:
            rep.step()
            rep.state(w)
            rep.expect(w == "UTC" or Timezone.from_tzid(w) == Timezone.from_tzid(ics_vtimezones.WINDOWS_ZONE_MAPPING[w]), lambda: f"Windows timezone {w}", "windows")
        for bad in ("No/Where", "", "Europe", "../x", "Mitteleurop\u00e4ische Zeit"):
            try:
                Timezone.from_tzid(bad)
                rep.fail(f"timezone {bad!r} was found", "unknown")
            except ValueError:
                pass
    elif what == "collision":
        a, b = custom("My/Zone"), custom("My/Zone", "+0100", "+0200")
        cal = Calendar(events=[Event("a", SUMMER.replace(tzinfo=a)), Event("b", SUMMER.replace(tzinfo=b))])
        want = [desc(t) for t in times(cal)]
        rep.step()
        rep.state("collision")
        try:
            got = [desc(t) for t in times(Calendar(cal.serialize()))]
        except ValueError:
            rep.outcome("collision-rejected")
            return
        rep.expect(got == want, "two different timezones with the same TZID: the times of the second one are read with the offsets of the first one", "tzid-collision")
    elif what == "extra":
        text = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\n" + DEFS[1][0] + "\r\nBEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20200101T000000Z\r\nDTSTART:20200701T120000Z\r\nRDATE;TZID=My/Zone:20200801T120000\r\nEND:VEVENT\r\nEND:VCALENDAR"
        root = ref.parse(Calendar(text).serialize())[0]
        rep.step()
        rep.state("extra")
        rep.expect(len(root.subs("VTIMEZONE")) == 1, "a VTIMEZONE which is only referred to by a property unknown to the library is not written again", "tzid-in-extra")
        # if the zone is used elsewhere, the definition is there
        text = text.replace("DTSTART:20200701T120000Z", "DTSTART;TZID=My/Zone:20200701T120000")
        root = ref.parse(Calendar(text).serialize())[0]
        rep.expect(len(root.subs("VTIMEZONE")) == 1, "definition of a used timezone", "extra")
    elif what == "again":
        # definitions of one file don't influence other files, in any order
        def ev(tz):
            return f"BEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20200101T000000Z\r\nDTSTART;TZID={tz}:20200701T120000\r\nEND:VEVENT"

        docs = [
            ("Europe/Berlin", "", timedelta(hours=2)), ("Europe/Berlin", custom_text("Europe/Berlin") + "\r\n", timedelta(hours=5, minutes=30)), ("Europe/Berlin", custom_text("Europe/Berlin", "+0000", "-0100") + "\r\n", timedelta(hours=-1)),
            ("My/Zone", custom_text("My/Zone") + "\r\n", timedelta(hours=5, minutes=30)), ("My/Zone", "", None), ("My/Zone", fixed_text("My/Zone", "+0900") + "\r\n", timedelta(hours=9)),
        ]
        for seq in ((case[1], case[2], *r) for r in itertools.product(range(len(docs)), repeat=2)):
            for i in seq:
                tz, d, want = docs[i]
                rep.step()
                try:
                    cal = Calendar("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\n" + d + ev(tz) + "\r\nEND:VCALENDAR")
                except ValueError:
                    rep.expect(want is None, lambda: f"{seq}: {tz} is unknown", "again")
                    continue
                rep.expect(cal.events[0].begin.utcoffset() == want, lambda: f"{seq}: {tz} has offset {cal.events[0].begin.utcoffset()} in document {i}", "again")
                rep.expect(len(ref.parse(cal.serialize())[0].subs("VTIMEZONE")) == 1, "definition", "again")
            rep.state(seq)

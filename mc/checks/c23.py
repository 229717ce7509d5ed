"""C23: reading, writing, comparing, printing and querying never change anything, and give the same result whenever they are repeated."""
import itertools
from collections import defaultdict
import time
from datetime import datetime, timedelta, timezone

import attr
from ics import Attendee, AudioAlarm, Calendar, CustomAlarm, DisplayAlarm, EmailAlarm, Event, NoneAlarm, Organizer, Timezone, Todo
from ics.contentline import Container, ContentLine, lines_to_containers, string_to_containers
from ics.event import deterministic_event_data
from ics.timespan import Normalization, NormalizationAction, Timespan
from ics.timezone import TimezoneDaylightObservance, TimezoneStandardObservance
from mc.docs import DOC, DOCS, U, UNKNOWN_DOC, snapshot, text, walk

PROPERTY = "C23"
BOUNDS = {
    "quick": "6 calendars (everything known, everything unknown, params everywhere, built by hand with all kinds of zones, shared objects, empty) x all sequences of <=2 of ~45 operations which only look at them; "
    "reading: all kinds of components x <=2 readings of the same container, after each: everything reachable is unchanged (identity and value), and the result is that of the first call",
    "thorough": "sequences of <=3 operations",
}
ASSUMPTIONS = []
CASE_TIMEOUT = 400

BER = Timezone.from_tzid("Europe/Berlin")
TIMES = [datetime(2020, 7, 1, 10, tzinfo=U), datetime(2020, 7, 1, 10), datetime(2020, 7, 2, tzinfo=BER)]


def entries(c):
    return c.events + c.todos


def spans(c):
    return [e.timespan for e in entries(c)]


def safe(fn, *a):
    try:
        return fn(*a)
    except (ValueError, TypeError, AttributeError, LookupError) as e:
        return type(e).__name__


def uids(it):
    return [e.uid for e in it]


def persons(c):
    out = []
    for _, o in walk(c):
        out += [p for p in [getattr(o, "organizer", None)] + list(getattr(o, "attendees", None) or []) if p is not None]
    return out


def zones(c):
    out = []
    for e in entries(c):
        for t in (e.begin, e.end, e.dtstamp, e.created, getattr(e, "completed", None)):
            if t is not None and t.tzinfo is not None:
                out.append(t.tzinfo)
    return out


PROPS = ["begin", "end", "duration", "end_representation", "has_explicit_end", "all_day", "floating", "due", "due_representation", "has_explicit_due", "summary", "status"]
NORM = [
    Normalization(BER, NormalizationAction.REPLACE, NormalizationAction.CONVERT), Normalization(None, NormalizationAction.IGNORE, NormalizationAction.REPLACE), Normalization(timezone.utc, NormalizationAction.REPLACE, NormalizationAction.REPLACE),
]
OPS = {
    "serialize": lambda c: c.serialize(),
    "to_container": lambda c: repr(c.to_container()),
    "iter": lambda c: list(c),
    "str": lambda c: [str(o) for _, o in walk(c)] + [str(p) for p in persons(c)] + [str(s) for s in spans(c)],
    "repr": lambda c: [repr(o) for _, o in walk(c)] + [repr(s) for s in spans(c)] + [repr(z) for z in zones(c)],
    "parts": lambda c: [o.serialize() for _, o in walk(c) if not isinstance(o, Calendar)],
    "parts-containers": lambda c: [str(o.to_container()) for _, o in walk(c)],
    "zone-parts": lambda c: [z.serialize() for z in zones(c) if isinstance(z, Timezone)],
    "context": lambda c: c.serialize(defaultdict(lambda: None, x=1)),
    "eq": lambda c: [a == b for (_, a), (_, b) in itertools.product(list(walk(c))[:14], repeat=2)],
    "ne": lambda c: [c != c, c == 1, c == None],  # noqa: E711
    "lt": lambda c: [(safe(lambda: a < b), safe(lambda: a >= b)) for a, b in itertools.combinations(entries(c), 2)],
    "sorted": lambda c: [e.uid for e in sorted(c.events)] + [e.uid for e in sorted(c.todos)],
    "cmp": lambda c: [repr(e.cmp_tuple()) for e in entries(c)],
    "clone": lambda c: [o.clone() == o for _, o in walk(c)],
    "evolve": lambda c: [attr.evolve(o).serialize() for o in entries(c)],
    "props": lambda c: [repr(safe(getattr, e, p)) for e in entries(c) for p in PROPS],
    "timeline": lambda c: uids(c.timeline),
    "timeline-part": lambda c: next(iter(c.timeline), None) is not None,
    "included": lambda c: [uids(c.timeline.included(a, a + timedelta(2))) for a in TIMES],
    "overlapping": lambda c: [uids(c.timeline.overlapping(a, a + timedelta(2))) for a in TIMES],
    "overlapping-span": lambda c: [safe(lambda: uids(c.timeline.overlapping(s))) for s in spans(c) if s],
    "start_after": lambda c: [uids(c.timeline.start_after(a)) for a in TIMES],
    "at": lambda c: [uids(c.timeline.at(a)) for a in TIMES],
    "on": lambda c: [uids(c.timeline.on(a)) + uids(c.timeline.on(a, strict=True)) for a in TIMES],
    "now": lambda c: [uids(c.timeline.now()), uids(c.timeline.today())],
    "relations": lambda c: [safe(getattr(a, r), b) for a, b in itertools.permutations(c.events[:4], 2) for r in ("starts_within", "ends_within", "intersects", "includes", "is_included_in")],
    "instants": lambda c: [safe(e.includes, t) for e in entries(c) for t in TIMES],
    "normalize": lambda c: [repr(safe(lambda: n.normalize(e.clone()).timespan)) for e in entries(c) for n in NORM],
    "normalize-span": lambda c: [repr(safe(n.normalize, s)) for s in spans(c) for n in NORM],
    "span-ops": lambda c: [
        repr(safe(f))
        for s in spans(c)
        for f in (s.make_all_day, lambda: s.convert_end("end"), lambda: s.convert_end("duration"), lambda: s.convert_end(None), lambda: s.replace_timezone(BER), lambda: s.convert_timezone(U), lambda: s.replace(begin_time=TIMES[1]), s.timespan_tuple, s.cmp_tuple, s.get_effective_end, s.get_effective_duration, s.validate)
    ],
    "bool": lambda c: [bool(s) for s in spans(c)],
    "zones": lambda c: [(str(z), z.utcoffset(t.replace(tzinfo=z)), z.dst(t.replace(tzinfo=z)), z.tzname(t.replace(tzinfo=z))) for z in zones(c) for t in TIMES],
    "astimezone": lambda c: [repr(t.astimezone(z)) for z in zones(c) for t in TIMES],
    "builtin": lambda c: [(z.is_builtin, str(safe(z.to_builtin))) for z in zones(c) if isinstance(z, Timezone)],
    "from_tzinfo": lambda c: [str(safe(Timezone.from_tzinfo, z)) for z in zones(c)],
    "person-props": lambda c: [repr(safe(getattr, p, n)) for p in persons(c) for n in ("email", "common_name", "sent_by", "directory", "role", "rsvp", "status", "member", "user_type", "delegated_to", "delegated_from")],
    "extra": lambda c: [(len(o.extra), list(o.extra), o.extra["X-A"], o.extra.count(ContentLine("X-A", value="v")), list(reversed(o.extra)), o.extra[:1], [str(x) for x in o.extra]) for _, o in walk(c)] and [str(o.extra) + repr(o.extra) for _, o in walk(c)],
    "extra-serialize": lambda c: [o.extra.serialize() for _, o in walk(c)] + ["".join(o.extra.serialize_iter()) for _, o in walk(c)],
    "extra-clone": lambda c: [str(o.extra.clone()) + str(o.extra.clone(deep=True)) for _, o in walk(c)] + [str(l.clone()) for _, o in walk(c) for l in o.extra],
    "creator": lambda c: [c.creator, c.version, c.method, c.scale],
    "read-again": lambda c: Calendar(c.serialize()) is not None,
    "read-container": lambda c: Calendar(c.to_container()).serialize(),
    "strip-copy": lambda c: strip(c),
    "alarm-actions": lambda c: [o.action for _, o in walk(c) if hasattr(o, "trigger")],
    "end-of-copies": lambda c: change_copies(c),
    "bad-writes": lambda c: failing(c),
    "bad-changes": lambda c: bad_changes(c),
}


def strip(c):
    """stripping clones doesn't strip the originals"""
    out = []
    for _, o in walk(c):
        x = o.clone()
        x.strip_extras(all_extras=True)
        out.append(x.serialize())
    return out


def change_copies(c):
    """changing the attributes of clones doesn't change the originals"""
    x = c.clone()
    x.prodid, x.method = "other", "OTHER"
    x.events.append(Event("z"))
    x.todos.clear()
    x.extra.append(ContentLine("X-NEW"))
    x.extra_params["PRODID"] = {"A": ["b"]}
    for e in entries(c):
        y = e.clone()
        y.summary, y.location, y.created, y.uid = "other", "other", TIMES[0], "other"
        y.alarms.append(DisplayAlarm())
        y.attach.append(b"1")
        y.extra.append(ContentLine("X-NEW"))
        y.extra_params["SUMMARY"] = {"A": ["b"]}
        for v in y.extra_params.values():
            if isinstance(v, list):
                for w in v:
                    w["X-NEW"] = ["1"]
            else:
                v["X-NEW"] = ["1"]
        safe(setattr, y, "begin", TIMES[1])
        y.timespan = type(e.timespan)(TIMES[1])
        y.make_all_day()
        if isinstance(y, Event):
            y.attendees.append(Attendee("x"))
            y.categories.append("new")
            y.organizer = None
    return len(entries(c))


def failing(c):
    """writing fails because of unwritable additions to clones"""
    out = []
    for e in entries(c):
        y = e.clone()
        y.attach.append(5)
        out.append(safe(lambda: Calendar(events=[e, y]).serialize() if isinstance(e, Event) else Calendar(todos=[e, y]).serialize()) in ("ValueError", "TypeError", "AttributeError"))
    return out


def bad_changes(c):
    """rejected changes change nothing"""
    out = []
    for e in entries(c):
        for a, v in (("status", "X"), ("dtstamp", None), ("timespan", None), ("begin", "x"), ("end", 5), ("duration", "x"), ("alarms", 1), ("created", "x"), ("categories", 1), ("geo", (1,)), ("organizer", 1), ("percent", 101), ("extra", None)):
            try:
                if isinstance(e, Todo) and a in ("categories", "geo", "organizer") or isinstance(e, Event) and a == "percent":
                    continue
                setattr(e, a, v)
                out.append(a)
            except (ValueError, TypeError, AttributeError):
                pass
        out.append(safe(lambda: e.strip_extras()))
        if isinstance(e, Event):
            out.append(safe(lambda: e.add_attendee("x")))
    out.append(safe(lambda: c.extra.append(1)))
    out.append(safe(lambda: c.extra.insert(0, None)))
    out.append(safe(lambda: c.extra.extend([ContentLine("X"), 1])))
    return out


READ = {
    "cal": (Calendar, DOC), "cal-unknown": (Calendar, UNKNOWN_DOC),
    "event": (Event, "BEGIN:VEVENT\nUID:1\nDTSTAMP:20200101T000000Z\nDTSTART;TZID=Europe/Berlin:20200701T100000\nDURATION;X=1:PT1H\nCATEGORIES;A=b:x,y\nATTENDEE;CN=a;rsvp=true:mailto:x\nX-A;P=q:v\nBEGIN:X\nBEGIN:Y\nEND:Y\nEND:X\nBEGIN:VALARM\nACTION:NONE\nTRIGGER:P1D\nEND:VALARM\nEND:VEVENT"),
    "todo": (Todo, "BEGIN:VTODO\nUID:1\nDTSTAMP;a=b:20200101T000000Z\nDUE;VALUE=DATE:20200701\nPRIORITY;X=1:5\nX-A;P=q:v\nEND:VTODO"),
    "audio": (AudioAlarm, "BEGIN:VALARM\nTRIGGER;X=1:PT1H\nACTION;P=q:AUDIO\nATTACH;FMTTYPE=x:http://x\nX-A:1\nEND:VALARM"),
    "email": (EmailAlarm, "BEGIN:VALARM\nTRIGGER:PT1H\nACTION:EMAIL\nSUMMARY;L=d:x\nATTENDEE;CN=x:mailto:x\nATTACH:http://x\nATTACH;VALUE=BINARY;ENCODING=BASE64:AAAA\nX-A:1\nEND:VALARM"),
    "custom": (CustomAlarm, "BEGIN:VALARM\nTRIGGER;VALUE=DATE-TIME:20200101T000000Z\nACTION:X-C\nX-A:1\nEND:VALARM"),
    "tz": (Timezone, UNKNOWN_DOC[UNKNOWN_DOC.index("BEGIN:VTIMEZONE") : UNKNOWN_DOC.index("END:VTIMEZONE") + 13]),
    "standard": (TimezoneStandardObservance, UNKNOWN_DOC[UNKNOWN_DOC.index("BEGIN:STANDARD") : UNKNOWN_DOC.index("END:STANDARD") + 12]),
    "daylight": (TimezoneDaylightObservance, UNKNOWN_DOC[UNKNOWN_DOC.index("BEGIN:DAYLIGHT") : UNKNOWN_DOC.index("END:DAYLIGHT") + 12]),
    # rejected ones
    "bad-event": (Event, "BEGIN:VEVENT\nUID:1\nDTSTAMP:20200101T000000Z\nSUMMARY;A=b:x\nCATEGORIES:a,b\nX-A:1\nDTEND:20200101T000000Z\nSUMMARY:2\nEND:VEVENT"),
    "bad-cal": (Calendar, "BEGIN:VCALENDAR\nPRODID:x\nVERSION:2.0\nBEGIN:VEVENT\nUID:1\nDTSTAMP:20200101T000000Z\nGEO:x\nEND:VEVENT\nEND:VCALENDAR"),
    "bad-tz": (Timezone, "BEGIN:VTIMEZONE\nTZID:x\nBEGIN:STANDARD\nDTSTART:20200101T000000\nRRULE:FREQ=YEARLY;UNTIL=20300101T000000Z\nTZOFFSETFROM:+0100\nTZOFFSETTO:garbage\nEND:STANDARD\nEND:VTIMEZONE"),
}
WAYS = ["from_container", "populate", "context", "deep", "string", "lines", "imports", "multiple"]


def cases(tier):
    n = 2 if tier == "quick" else 3
    for d in DOCS:
        for o in OPS:
            yield ["look", d, o, n]
    for r in READ:
        for w in WAYS:
            yield ["read", r, w]


def run_case(case, rep):
    rep.trace()
    with deterministic_event_data():
        (run_look if case[0] == "look" else run_read)(rep, *case[1:])


def run_look(rep, doc, first, n):
    if not hasattr(rep, "base23"):
        rep.base23 = {}
    if doc not in rep.base23:
        # the reference: each operation as the first one on an object of its own
        rep.base23[doc] = {o: OPS[o](DOCS[doc]()) for o in OPS}
    want = rep.base23[doc]
    cal = DOCS[doc]()
    before = snapshot(cal)
    hist = []

    def do(o):
        got = OPS[o](cal)
        rep.step()
        ok = rep.expect(got == want[o], lambda: f"{doc}: {o} after {hist} gives {diff(got, want[o])}", "result")
        ok &= rep.expect(snapshot(cal) == before, lambda: f"{doc}: {o} after {hist} changed the calendar: {diff(before, snapshot(cal))}", "changed")
        rep.state((doc, tuple(hist), o))
        return ok

    # all continuations are explored on the same objects, as nothing may have an effect
    if not do(first):
        return
    for rest in itertools.product(OPS, repeat=n - 1):
        hist[:] = [first, *rest[:-1]]
        if len(rest) > 1 and not do(rest[0]):
            return
        hist[:] = [first, *rest[:-1]]
        if not do(rest[-1]):
            return
    rep.outcome(doc)


def diff(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return f"{str(a)[:600]!r} vs. {str(b)[:600]!r}"


def run_read(rep, name, way):
    cls, doc = READ[name]
    txt = text(doc)
    bad = name.startswith("bad")

    def result(fn):
        try:
            return fn().serialize()
        except ValueError as e:
            return type(e).__name__

    cont = next(iter(string_to_containers(txt)))
    ctx = {}
    lines = txt.split("\r\n")[:-1]

    def populate():
        kw = {"action": None} if cls is CustomAlarm else {}
        if cls in (Timezone, TimezoneStandardObservance, TimezoneDaylightObservance):
            return cls.from_container(cont)
        o = cls(**kw)
        o.populate(cont)
        return o

    def from_lines():
        return cls.from_container(next(iter(lines_to_containers(lines))))

    def imports():
        return Calendar(imports=cont) if cls is Calendar else cls.from_container(cont)

    def multiple():
        return Calendar.parse_multiple(txt + txt)[1] if cls is Calendar else cls.from_container(cont)

    fns = {
        "from_container": lambda: cls.from_container(cont), "populate": populate, "context": lambda: cls.from_container(cont, defaultdict(lambda: None, mine=[1])), "deep": lambda: cls.from_container(cont.clone(deep=True)), "string": lambda: cls.from_container(next(iter(string_to_containers(txt)))),
        "lines": from_lines, "imports": imports, "multiple": multiple,
    }
    ref = result(fns["string"])
    rep.expect((ref == "ValueError") == bad, lambda: f"{name}: reading gives {ref!r}", "sanity")
    before, lb, ctxb = snapshot(cont), list(lines), repr(ctx)
    for other in WAYS:
        for w in (way, other, way):
            got = result(fns[w])
            rep.step()
            rep.state((name, way, other, w))
            rep.expect(got == ref, lambda: f"{name}: reading by {w} after {way}, {other} gives {diff(got, ref)}", "result")
            rep.expect(snapshot(cont) == before, lambda: f"{name}: reading by {w} changed the container: {diff(before, snapshot(cont))}", "changed")
            rep.expect(lines == lb, lambda: f"{name}: reading by {w} changed the list of lines", "changed")
        if not bad:
            # writing what was read and changing it doesn't change what it was read from
            o = fns[way]()
            o.serialize()
            o.to_container().data.clear()
            if cls in (Event, Todo, Calendar):
                o.extra.clear()
                o.extra_params.clear()
                o.strip_extras(all_extras=True)
            rep.step()
            rep.expect(snapshot(cont) == before, lambda: f"{name}: changing what was read by {way} changed the container: {diff(before, snapshot(cont))}", "changed")
    rep.outcome("rejected" if bad else "read")

"""C14: every attribute of events, todos and calendars survives writing and reading, and writing again gives the same file."""
import itertools
from datetime import datetime, timedelta, timezone
from urllib.parse import urlparse
from zoneinfo import ZoneInfo

from ics import (Attendee, AudioAlarm, Calendar, CustomAlarm, DisplayAlarm, EmailAlarm, Event, EventTimespan, Geo, NoneAlarm, Organizer, Timezone, Todo, TodoTimespan)
from ics.alarm import BaseAlarm
from ics.contentline import string_to_container
from ics.timezone import UTC

PROPERTY = "C14"
BOUNDS = {
    "quick": "every value of every attribute (16 event, 13 todo, 6 calendar attributes with 2..101 values each) alone, and every combination of two values of two different attributes; "
    "all ordered calendars of <=3 of 9 entries; reading URL values over a small alphabet",
    "thorough": "every combination of values of three different attributes",
}
ASSUMPTIONS = ["sub-second parts are not expressible", "string URLs are read back as strings, parsed ones as parsed ones"]

TEXTS = ["", "a", "a;b,c\\d\ne", "\u20ac\U0001f600\u2028\x85", "w " * 90, " lead trail ", '"q" ^n ^', "BEGIN:VEVENT", "END:VEVENT\nBEGIN:X", "\\n\\,", "a\r\nb", "\t", "x" * 75 + ";" * 80]


def B(h, z=None):
    return datetime(2020, 7, 1, tzinfo=z) + timedelta(hours=h)


def DST():
    """times which are skipped or repeated"""
    out = []
    for z in (berlin(), ZoneInfo("Europe/Berlin")):
        for t in (datetime(2020, 3, 29, 2, 30), datetime(2020, 10, 25, 2, 30)):
            t = t.replace(tzinfo=z)
            out += [dict(begin_time=t, end_time=t), dict(begin_time=t, duration=timedelta(hours=3)), dict(begin_time=t - timedelta(days=1), end_time=t)]
    return out


_z = {}


def berlin():
    return _z.setdefault("b", Timezone.from_tzid("Europe/Berlin"))


def zi():
    return ZoneInfo("America/New_York")


def spans(cls):
    kw = []
    for z in (None, UTC, timezone.utc, berlin(), zi()):
        kw += [dict(begin_time=B(10, z)), dict(begin_time=B(10, z), end_time=B(12, z)), dict(begin_time=B(10, z), duration=timedelta(hours=1, seconds=5)), dict(begin_time=B(10, z), end_time=B(10, z)), dict(begin_time=B(0, z), duration=timedelta(0))]
    kw += [dict(begin_time=B(0), precision="day"), dict(begin_time=B(0), end_time=B(24), precision="day"), dict(begin_time=B(0), duration=timedelta(days=3), precision="day")]
    kw += [dict(begin_time=B(10, berlin()), end_time=B(12, UTC)), dict(begin_time=B(3, berlin()), end_time=B(12, zi())), *DST(), dict(begin_time=datetime(1, 1, 1)), dict(begin_time=datetime(999, 12, 31, 23, 59, 59), end_time=datetime(9999, 12, 31, 23, 59, 59)), dict()]
    if cls is TodoTimespan:
        kw += [dict(end_time=B(12, z)) for z in (None, UTC, berlin())] + [dict(end_time=B(24), precision="day")]
    return [cls(**k) for k in kw]


STAMPS = [None, B(0), B(3, UTC), B(3, timezone.utc), B(3, timezone(timedelta(hours=5, minutes=30))), datetime(2020, 1, 1, 12, tzinfo=ZoneInfo("America/New_York"))]
URLS = [None, "", "http://a.b/c?d=e#f", "http://a/b,c;d", urlparse("http://a.b/c"), urlparse("mailto:a,b;c@d"), "a\nb"]
ATTACH = [[], [urlparse("http://a/b,c;d?x=1")], [b"\x00\xffabc"], [b""], [urlparse("cid:x"), b"1", urlparse("cid:y")], [b"x" * 300]]
TLIST = [[], ["a"], ["a,b", "c;d", "e\\"], [""], ["a", "", "b"], ["x\ny", "\u20ac"], ["a", "a"]]


def common():
    return {
        "summary": [None] + TEXTS,
        "uid": [t for t in TEXTS] + ["uid@x"],
        "description": [None] + TEXTS,
        "location": [None] + TEXTS[:6],
        "url": URLS,
        "created": STAMPS,
        "last_modified": STAMPS,
        "dtstamp": STAMPS[1:],
        "attach": ATTACH,
        "alarms": [[], "disp", "two", "custom", "none"],
    }


def domain(kind):
    d = common()
    if kind == "event":
        d.update(
            timespan=list(range(len(spans(EventTimespan)))),
            status=[None, "TENTATIVE", "CONFIRMED", "CANCELLED", "tentative"],
            classification=[None] + TEXTS[:4] + ["PRIVATE"],
            transparent=[None, True, False],
            organizer=[None, "o1", "o2"],
            geo=[None, (0.0, 0.0), (-89.999999, 179.5), (48.85299, 2.36885), Geo(-1.5, -0.000001)],
            attendees=[[], "a1", "a2"],
            categories=TLIST,
        )
    else:
        d.update(
            timespan=list(range(len(spans(TodoTimespan)))),
            status=[None, "TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS"],
            percent=[None] + list(range(101)),
            priority=[None] + list(range(10)),
            completed=[None, B(5), B(5, UTC), B(5, berlin()), B(5, zi())],
        )
    return d


def make_value(kind, name, v):
    if name == "timespan":
        return spans(EventTimespan if kind == "event" else TodoTimespan)[v]
    if name == "alarms" and v in ("custom", "none"):
        kw = dict(trigger=timedelta(minutes=-5), repeat=2, duration=timedelta(minutes=1))
        return [CustomAlarm(action=a, **kw) for a in ("X-MINE", "x-mine", "X-Mine", "PROCEDURE", "Display-2", "audio2")] if v == "custom" else [NoneAlarm(trigger=B(3, UTC)), NoneAlarm(**kw)]
    if name == "alarms" and v:
        al = [DisplayAlarm(trigger=timedelta(minutes=-15), description="d;d,\n")]
        if v == "two":
            al += [AudioAlarm(trigger=B(3, UTC), attach=urlparse("http://s/a.wav"), repeat=3, duration=timedelta(minutes=5)), EmailAlarm(trigger=timedelta(0), summary="s", description="d", attendees=[Attendee(email=urlparse("mailto:x@y"))])]
        return al
    if name == "organizer" and v:
        return Organizer(email=urlparse("mailto:o@x"), common_name="A, B; C:\u20ac" if v == "o2" else "x")
    if name == "attendees" and v:
        al = [Attendee(email=urlparse("mailto:a@x"), common_name="Jo", rsvp=True, status="ACCEPTED")]
        if v == "a2":
            al += [Attendee(email=urlparse("mailto:b,c;@x"), extra={"X-A": ["1", "b,c"]}), Attendee(email=urlparse("http://p"))]
        return al
    return v


def short(d):
    """a few representative values for combinations"""
    keep = {"percent": [0, 100], "priority": [0, 9], "timespan": [1, 3, 12, 16, 23, 26, 28], "uid": 4, "summary": 7, "description": 6, "dtstamp": 3, "created": 4, "last_modified": 3}
    out = {}
    for k, vs in d.items():
        sel = keep.get(k)
        out[k] = [v for v in vs if v not in (None, [])][:sel] if isinstance(sel, int) else [v for v in sel if v in vs] if sel else [v for v in vs if v is not None and v != []]
    return out


def cases(tier):
    for kind in ("event", "todo"):
        d = domain(kind)
        for k, vs in d.items():
            for i in range(len(vs)):
                yield ["one", kind, [[k, i]]]
        sh = short(d)
        for a, b in itertools.combinations(sh, 2):
            yield ["pairs", kind, [a, b]]
        if tier == "thorough":
            for a, b, c in itertools.combinations(sh, 3):
                yield ["pairs", kind, [a, b, c]]
    for n in range(4):
        for combo in itertools.product(range(3 * 3), repeat=n):
            if n < 3 or tier == "thorough" or sum(combo) % 3 == 0:
                yield ["cal", list(combo)]
    yield ["calattrs"]
    for i in range(4):
        yield ["urlread", i]


def obs_dt(d):
    return (d.replace(tzinfo=None), d.tzinfo is None, d.utcoffset())


def obs(v):
    """comparable representation of an attribute value"""
    if isinstance(v, datetime):
        return obs_dt(v)
    if isinstance(v, (EventTimespan, TodoTimespan)):
        return (type(v).__name__, obs(v.begin_time), obs(v.end_time), v.duration, v.precision)
    if isinstance(v, list):
        return [obs(x) for x in v]
    if isinstance(v, (Attendee, Organizer)):
        return (type(v).__name__, v.email, {k: [str(x) for x in xs] for k, xs in v.extra.items()})
    if isinstance(v, BaseAlarm):
        return (type(v).__name__, [obs(getattr(v, a, None)) for a in ("action", "trigger", "repeat", "duration", "description", "summary", "attach", "attendees")])
    return v


def expected(name, v):
    if v is not None and name in ("created", "last_modified", "dtstamp"):
        return obs(v.astimezone(timezone.utc)) if v.tzinfo else obs(v.replace(tzinfo=timezone.utc))
    if name == "status" and v:
        return v.upper()
    if name == "geo" and v:
        return Geo(*v)
    return obs(v)


def roundtrip(kind, attrs, rep):
    cls = Event if kind == "event" else Todo
    vals = {"uid": "u", "dtstamp": B(1, UTC)}
    vals.update({k: make_value(kind, k, v) for k, v in attrs})
    where = f"{kind} {attrs}"
    rep.step()
    x = cls(**vals)
    names = list(domain_names(kind))
    want = {n: expected(n, getattr(x, n)) for n in names}
    for n, v in vals.items():
        rep.expect(want[n] == expected(n, v), lambda: f"{where}: {n} is {want[n]} after creation", "init")
    cal = Calendar()
    (cal.events if cls is Event else cal.todos).append(x)
    text = cal.serialize()
    rep.expect({n: expected(n, getattr(x, n)) for n in names} == want, lambda: f"{where}: writing changed the {kind}", "pure")
    cal2 = Calendar(text)
    got = cal2.events + cal2.todos
    if not rep.expect(len(got) == 1 and type(got[0]) is cls, lambda: f"{where}: read back as {got}", "count"):
        return
    y = got[0]
    have = {n: expected(n, getattr(y, n)) for n in names}
    if not rep.expect(have == want, lambda: f"{where}: " + "; ".join(f"{n} was {want[n]!r} but is read back as {have[n]!r}" for n in names if have[n] != want[n]), "roundtrip"):
        return
    rep.expect(len(y.extra) == 0 and len(cal2.extra) == 0, lambda: f"{where}: read back with unknown properties {list(y.extra)}", "extra")
    text2 = cal2.serialize()
    rep.expect(text2 == text, lambda: f"{where}: written again as {text2!r} instead of {text!r}", "fixpoint")
    rep.state((kind, repr(attrs)))


def domain_names(kind):
    c = ["timespan", "summary", "uid", "description", "location", "url", "status", "created", "last_modified", "dtstamp", "alarms", "attach"]
    return c + (["classification", "transparent", "organizer", "geo", "attendees", "categories"] if kind == "event" else ["percent", "priority", "completed"])


def run_case(case, rep):
    rep.trace()
    what = case[0]
    if what == "one":
        (k, i), kind = case[2][0], case[1]
        roundtrip(kind, [[k, domain(kind)[k][i]]], rep)
    elif what == "pairs":
        sh = short(domain(case[1]))
        for combo in itertools.product(*(sh[a] if len(case[2]) == 2 else sh[a][:4] for a in case[2])):
            roundtrip(case[1], list(zip(case[2], combo)), rep)
    elif what == "cal":
        run_cal(case[1], rep)
    elif what == "calattrs":
        run_calattrs(rep)
    else:
        run_urlread(case[1], rep)


def entry(i):
    n = i % 9
    kw = dict(uid=f"u{n}", dtstamp=B(1, UTC))
    return [
        lambda: Event("e0", B(10), **kw), lambda: Event("e1", B(1, berlin()), **kw), lambda: Event("e2", **kw), lambda: Event("e3", B(0), duration=timedelta(days=1), **kw),
        lambda: Todo(due=B(4, berlin()), summary="t4", **kw), lambda: Todo(begin=B(4), summary="t5", **kw), lambda: Event("e6", B(1, zi()), B(2, zi()), location="x", **kw),
        lambda: Todo(summary="t7", percent=5, **kw), lambda: Event("e8", B(1, UTC), categories=["a", "b"], **kw),
    ][n]()


def run_cal(combo, rep):
    ents = [entry(i) for i in combo]
    cal = Calendar(events=[e for e in ents if isinstance(e, Event)], todos=[e for e in ents if isinstance(e, Todo)])
    rep.step()
    text = cal.serialize()
    c2 = Calendar(text)
    rep.expect([e.summary for e in c2.events] == [e.summary for e in cal.events] and [e.summary for e in c2.todos] == [e.summary for e in cal.todos], lambda: f"{combo}: read back as {c2.events} {c2.todos}", "order")
    for a, b in zip(cal.events + cal.todos, c2.events + c2.todos):
        kind = "event" if isinstance(a, Event) else "todo"
        rep.expect({n: obs(getattr(a, n)) for n in domain_names(kind)} == {n: obs(getattr(b, n)) for n in domain_names(kind)}, lambda: f"{combo}: {a} read back as {b}", "cal-roundtrip")
    rep.expect(c2.serialize() == text, lambda: f"{combo}: written again differently: {c2.serialize()!r} {text!r}", "fixpoint")
    rep.expect("".join(cal) == text and all(l.endswith("\r\n") for l in list(cal)[:-1]) and all(l.count("\n") <= 1 for l in cal), "iterating the calendar doesn't give the written lines", "iter")
    # the other ways of reading give the same
    c3 = Calendar.parse_multiple(text + "\r\n" + text)
    rep.expect([c.serialize() for c in c3] == [text, text], "parse_multiple", "multiple")
    rep.expect(Calendar(string_to_container(text)).serialize() == text and Calendar.from_container(string_to_container(text)).serialize() == text and Calendar(iter(text.split("\r\n"))).serialize() == text, "other ways of reading", "ways")
    rep.state(tuple(combo))
    # single components
    for a in ents:
        b = type(a).from_container(string_to_container(a.serialize())) if a.timespan.get_begin() is None or a.timespan.is_floating() else None
        if b is not None:
            rep.expect(b.serialize() == a.serialize() and obs(b.timespan) == obs(a.timespan), lambda: f"{a} read back as {b}", "component")


def run_calattrs(rep):
    for version, prodid, scale, method in itertools.product(["2.0", "", "2.0;2.1"], TEXTS, [None, "GREGORIAN", "a;b"], [None, "PUBLISH", ""]):
        rep.step()
        cal = Calendar(version=version, prodid=prodid, scale=scale, method=method)
        text = cal.serialize()
        c2 = Calendar(text)
        rep.state((version, prodid, scale, method))
        rep.expect((c2.version, c2.prodid, c2.creator, c2.scale, c2.method) == (version, prodid, prodid, scale, method), lambda: f"calendar {version!r} {prodid!r} {scale!r} {method!r} read back as {c2!r}", "calattrs")
        rep.expect(c2.serialize() == text, "calendar fixpoint", "calattrs")
    for cr in TEXTS:
        c = Calendar(creator=cr)
        rep.expect(c.prodid == cr and Calendar(c.serialize()).creator == cr, "creator", "calattrs")


URL_ALPH = ["/", ":", "a", "?", "=", "%2C", "#", ",", ";"]


def run_urlread(n, rep):
    """URL properties as written by other programs: the value is an URI and contains no escapes"""
    for t in itertools.product(URL_ALPH, repeat=n):
        u = "http:" + "".join(t)
        rep.step()
        doc = f"BEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20200101T000000Z\r\nURL:{u}\r\nEND:VEVENT"
        try:
            e = Event.from_container(string_to_container(doc))
        except ValueError:
            rep.fail(f"event with URL {u} can't be read", key="url-separators" if "," in u or ";" in u else "url")
            continue
        rep.state(u)
        rep.outcome("url-read")
        val = e.url if isinstance(e.url, str) else e.url.geturl()
        rep.expect(val == u, lambda: f"URL {u} was read as {e.url!r}", "url")
        doc2 = doc.replace("URL:", "URL;VALUE=URI:")
        e = Event.from_container(string_to_container(doc2))
        rep.expect(e.url == urlparse(u), lambda: f"URL;VALUE=URI:{u} was read as {e.url!r}", "url")

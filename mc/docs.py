"""Rich calendars for C23/C24, built anew on each call, and structural snapshots of everything reachable from an object."""
from datetime import date, datetime, timedelta, timezone
from urllib.parse import urlparse
from zoneinfo import ZoneInfo

import attr
import dateutil.tz

from ics import Attendee, AudioAlarm, Calendar, CustomAlarm, DisplayAlarm, EmailAlarm, Event, Geo, NoneAlarm, Organizer, Timezone, Todo
from ics.attendee import Person
from ics.component import Component
from ics.contentline import Container, ContentLine
from ics.timespan import Timespan
from mc.checks.c15 import DOC

U = timezone.utc
STAMP = datetime(2020, 1, 1, tzinfo=U)

UNKNOWN_DOC = """BEGIN:VCALENDAR
VERSION;X-V=1:2.0
PRODID:p
X-CAL;A=b,"c;d":v
BEGIN:X-COMP
P:1
BEGIN:SUB
END:SUB
END:X-COMP
BEGIN:VTIMEZONE
TZID:My/Zone
X-TZ:1
BEGIN:STANDARD
TZOFFSETFROM:+0200
TZOFFSETTO:+0100
DTSTART:20191027T030000
RRULE:FREQ=YEARLY;UNTIL=20301027T010000Z;BYMONTH=10;BYDAY=-1SU
RDATE:20180101T000000,20180601T000000
X-O:1
END:STANDARD
BEGIN:DAYLIGHT
TZOFFSETFROM:+0100
TZOFFSETTO:+0200
DTSTART:20190331T020000
RRULE:FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU
EXDATE:20220327T020000
END:DAYLIGHT
END:VTIMEZONE
BEGIN:VEVENT
X-EV;B=c:1
SUMMARY;LANGUAGE=de:s
UID:u1
DTSTAMP:20200101T000000Z
DTSTART;X-P=1;TZID=My/Zone:20200701T100000
DTEND;TZID=Europe/Berlin;X-Q=2:20200701T110000
ATTACH;FMTTYPE=a/b:http://a/1
ATTACH;VALUE=BINARY;ENCODING=BASE64:AAEC
ORGANIZER;CN=Jo;X-A=1:mailto:o@x
ATTENDEE;MEMBER="mailto:g@x","mailto:h@x";RSVP=TRUE;PARTSTAT=ACCEPTED:mailto:a@x
ATTENDEE;X-B=1,2:mailto:b@x
CATEGORIES;L=1:c1,c2
CATEGORIES:c3
URL;VALUE=URI:http://u/
GEO:1.5;2.5
X-EV:2
BEGIN:VALARM
X-AL:1
ACTION;X-ACT=1:EMAIL
TRIGGER;RELATED=END:-PT15M
SUMMARY:s
DESCRIPTION:d
ATTENDEE;CN=B:mailto:b@x
ATTENDEE:mailto:c@x
ATTACH:http://a/4
ATTACH:http://a/5
END:VALARM
BEGIN:VALARM
ACTION:X-MINE
TRIGGER;VALUE=DATE-TIME:20200701T090000Z
X-AL:2
END:VALARM
END:VEVENT
BEGIN:VTODO
UID:u2
DTSTAMP:20200101T000000Z
DTSTART;VALUE=DATE;X-D=1:20200701
DUE;VALUE=DATE:20200703
X-TODO:1
END:VTODO
BEGIN:VJOURNAL
SUMMARY:j
END:VJOURNAL
END:VCALENDAR"""


def text(doc):
    return "\r\n".join(doc.split("\n")) + "\r\n"


def full():
    return Calendar(text(DOC))


def unknown():
    return Calendar(text(UNKNOWN_DOC))


def params():
    """params at all known properties"""
    out, obs = [], False
    for l in DOC.replace("COMPLETED:", "COMPLETED;TZID=My/Zone:").replace("TRIGGER:", "TRIGGER;VALUE=DURATION:").split("\n"):
        obs = l in ("BEGIN:STANDARD", "BEGIN:DAYLIGHT") or obs and not l.startswith("END")
        name = l.replace(";", ":").split(":")[0]
        if name not in ("BEGIN", "END") and not (obs and name in ("DTSTART", "RRULE")):
            l = name + ";X-P=1,\"a:b\"" + l[len(name) :]
        out.append(l)
    return Calendar(text("\n".join(out)))


def tz_offset():
    return timezone(timedelta(hours=5, minutes=30), "X530")


def built():
    ber = Timezone.from_tzid("Europe/Berlin")
    alarms = [
        DisplayAlarm(trigger=timedelta(minutes=-15), description="d;d,\n"), AudioAlarm(trigger=datetime(2020, 7, 1, 3, tzinfo=U), attach=urlparse("http://s/a.wav"), repeat=3, duration=timedelta(minutes=5)),
        EmailAlarm(trigger=timedelta(0), summary="s", description="d", attendees=[Attendee(email=urlparse("mailto:x@y"), common_name="N")], attach=[urlparse("http://a/"), b"1"]), NoneAlarm(trigger=timedelta(1)), CustomAlarm(action="X-C"),
    ]
    alarms[0].extra.append(ContentLine("X-A", {"P": ["q"]}, "v"))
    evs = [
        Event("all, of; it\\ \u20ac\n2", datetime(2020, 7, 1, 10, tzinfo=ber), datetime(2020, 7, 1, 12, tzinfo=ZoneInfo("America/New_York")), uid="1", dtstamp=STAMP, description="x" * 100, location="l", url="http://u/",
              status="confirmed", created=STAMP, last_modified=STAMP, alarms=alarms, attach=[urlparse("http://a/"), b"\x00"], classification="PRIVATE", transparent=True,
              organizer=Organizer(email=urlparse("mailto:o@x"), common_name="O"), geo=(1.5, -2.5), attendees=[Attendee("mailto:a@x", common_name="A", rsvp=True, member=["mailto:g@x"]), Attendee(urlparse("mailto:b@x"), extra={"X-B": ["1", "2"]})],
              categories=["a,b", "c", ""]),
        Event("floating", datetime(2020, 7, 1, 1), duration=timedelta(hours=2), uid="2", dtstamp=STAMP), Event("none", uid="3", dtstamp=STAMP), Event("utc", datetime(2020, 6, 30, 23, tzinfo=U), uid="4", dtstamp=STAMP),
        Event("local", datetime(2020, 7, 2, 23, tzinfo=dateutil.tz.tzlocal()), uid="5", dtstamp=STAMP), Event("fixed", datetime(2020, 7, 2, 23, tzinfo=tz_offset()), datetime(2020, 7, 3, 23, tzinfo=dateutil.tz.gettz("Asia/Tokyo")), uid="6", dtstamp=STAMP),
    ]
    day = Event("day", datetime(2020, 7, 1), duration=timedelta(days=2), uid="7", dtstamp=STAMP)
    day.make_all_day()
    day.extra.append(Container("X-C", [ContentLine("X-A", {"P": ["q"]}, "v"), Container("X-D")]))
    day.extra_params["SUMMARY"] = {"LANGUAGE": ["de"]}
    todos = [
        Todo(datetime(2020, 7, 1, 10, tzinfo=U), due=datetime(2020, 7, 1, 12, tzinfo=ber), uid="8", dtstamp=STAMP, percent=5, priority=3, completed=datetime(2020, 7, 1), status="in-process", alarms=[DisplayAlarm(trigger=timedelta(0), description="x")]),
        Todo(due=datetime(2020, 7, 1, 12), uid="9", dtstamp=STAMP, summary="due only"), Todo(uid="10", dtstamp=STAMP), Todo(datetime(2020, 7, 1, 10), duration=timedelta(hours=1), uid="11", dtstamp=STAMP),
    ]
    cal = Calendar(events=[evs[0], day, *evs[1:]], todos=todos, creator="me", method="PUBLISH", scale="GREGORIAN")
    cal.extra.append(ContentLine("X-A", {"P": ["q"]}, "v"))
    return cal


def shared():
    """the same objects at several places"""
    alarm, att = DisplayAlarm(trigger=timedelta(0), description="x"), Attendee("mailto:a@x")
    line = ContentLine("X-A", {"P": ["q"]}, "v")
    e = Event("e", datetime(2020, 7, 1, 10), uid="1", dtstamp=STAMP, alarms=[alarm, alarm], attendees=[att, att])
    f = Event("e", datetime(2020, 7, 1, 10), uid="1", dtstamp=STAMP, alarms=[alarm], attendees=[att])
    for x in (e, f):
        x.extra.append(line)
        x.extra.append(line)
    return Calendar(events=[e, f, e], todos=[Todo(uid="2", dtstamp=STAMP, alarms=[alarm])])


def empty():
    return Calendar()


DOCS = {"full": full, "unknown": unknown, "params": params, "built": built, "shared": shared, "empty": empty}


def children(o):
    """(label, object) of everything an object consists of"""
    if isinstance(o, Person):
        return [("email", o.email), ("extra", o.extra)]
    if isinstance(o, Geo) or isinstance(o, (str, bytes, datetime, date, timedelta)):
        return []
    if isinstance(o, dict):
        return [("key", list(o))] + list(o.items())
    if isinstance(o, Container):
        return [("name", o.name), ("data", o.data)]
    if isinstance(o, (list, tuple)):
        return list(enumerate(o))
    if attr.has(type(o)) and isinstance(o, (Component, ContentLine, Timespan)):
        return [(a.name, getattr(o, a.name)) for a in attr.fields(type(o))]
    return []


def snapshot(o, ids=True):
    """a value which is equal exactly if nothing reachable from o has changed"""
    kids = children(o)
    me = (type(o).__name__, id(o) if ids and not isinstance(o, (int, float)) else 0)
    if not kids:
        return (*me, repr(o))
    # the keys of dicts and the names of attributes are kept in order
    return (*me, tuple((str(l), snapshot(k, ids) if not (l == "key" and isinstance(o, dict)) else tuple(map(repr, k))) for l, k in kids))


def reachable(o, path=(), seen=None, out=None):
    """all mutable objects reachable from o: [(path, object)]"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if id(o) in seen:
        return out
    seen.add(id(o))
    if isinstance(o, (list, dict, Container, ContentLine, Person)) or isinstance(o, Component):
        out.append((path, o))
    for l, k in children(o):
        if l == "key" and isinstance(o, dict):
            continue
        reachable(k, path + (l,), seen, out)
    return out


def walk(cal):
    """(path, component) of the calendar and all components in it"""
    yield "cal", cal
    for kind, entries in (("event", cal.events), ("todo", cal.todos)):
        for i, e in enumerate(entries):
            yield f"{kind}{i}", e
            for j, a in enumerate(e.alarms):
                yield f"{kind}{i}.alarm{j}", a

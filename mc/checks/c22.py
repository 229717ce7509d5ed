"""C22: assigning an attribute does the same as passing the value to the constructor: same conversion, same validation, and nothing changes if it is rejected."""
import copy
import itertools
from datetime import date, datetime, timedelta, timezone
from urllib.parse import urlparse

import attr
import dateutil.tz

from ics import Attendee, AudioAlarm, Calendar, CustomAlarm, DisplayAlarm, EmailAlarm, Event, Geo, NoneAlarm, Organizer, Timezone, Todo
from ics.component import Component
from ics.contentline import Container, ContentLine, string_to_containers
from ics.event import EventAttrs
from ics.timespan import EventTimespan, Timespan, TodoTimespan
from ics.timezone import UTC, TimezoneStandardObservance, is_utc
from ics.todo import TodoAttrs
from mc.spans import LOCALS, set_local

PROPERTY = "C22"
BOUNDS = {
    "quick": "every attribute of every kind of entry, calendar, alarm and content line x 75 values of all types: assignment vs. constructor vs. reference table, 2 local timezones; all histories of <=3 assignments "
    "(valid, converted and rejected ones) to 3 objects of related classes; all orders of the first assignments to 6 related user-defined classes; objects obtained by reading, cloning, copying and evolving",
    "thorough": "4 local timezones, histories of <=4 assignments",
}
ASSUMPTIONS = ["rejected means: any ValueError, TypeError, AttributeError, LookupError or OverflowError"]
REJECT = (ValueError, TypeError, AttributeError, OverflowError, LookupError)
U = timezone.utc


class Dummy:
    pass


DUMMY = Dummy()
ORG, ATT = Organizer("mailto:o@x.org"), Attendee("mailto:a@x.org")
EV, TD, AL = Event("e", uid="e"), Todo(uid="t"), DisplayAlarm(description="x")
BER = Timezone.from_tzid("Europe/Berlin")
# values by name; factories, such that every use gets a new object
POOL = {
    "None": lambda: None,
    "0": lambda: 0, "1": lambda: 1, "-1": lambda: -1, "9": lambda: 9, "10": lambda: 10, "99": lambda: 99, "100": lambda: 100, "101": lambda: 101, "True": lambda: True,
    "5.0": lambda: 5.0, "5.5": lambda: 5.5, "nan": lambda: float("nan"), "1j": lambda: 1j,
    "''": lambda: "", "'x'": lambda: "x", "'confirmed'": lambda: "confirmed", "'CONFIRMED'": lambda: "CONFIRMED", "'Tentative'": lambda: "Tentative", "'cancelleD'": lambda: "cancelleD",
    "'needs-action'": lambda: "needs-action", "'IN-process'": lambda: "IN-process", "'COMPLETED'": lambda: "COMPLETED", "'CONFIRMED '": lambda: "CONFIRMED ", "'FINAL'": lambda: "FINAL", "'None'": lambda: "None",
    "'ünï'": lambda: "ünï", "'x-Name'": lambda: "x-Name", "b''": lambda: b"", "b'CONFIRMED'": lambda: b"CONFIRMED",
    "()": lambda: (), "(2020,1,2)": lambda: (2020, 1, 2), "(2020,1,2,3,4,5)": lambda: (2020, 1, 2, 3, 4, 5), "(2020,13,2)": lambda: (2020, 13, 2), "(1.5,2.5)": lambda: (1.5, 2.5), "(1,)": lambda: (1,),
    "(1,2,3,4)": lambda: (1, 2, 3, 4),
    "(ev,)": lambda: (EV,), "('a','b')": lambda: ("a", "b"),
    "{}": lambda: {}, "{ymd}": lambda: dict(year=2020, month=2, day=29), "{ymdtz}": lambda: dict(year=2020, month=2, day=29, hour=3, tzinfo=timezone(timedelta(hours=-7))), "{ymd!}": lambda: dict(year=2021, month=2, day=29),
    "{days}": lambda: dict(days=2, hours=-3), "{geo}": lambda: dict(longitude=1.25, latitude=-2.5), "{geo!}": lambda: dict(longitude=1.25), "{x}": lambda: {"X": [{"A": ["b"]}]},
    "[]": lambda: [], "['a']": lambda: ["a"], "[1,2]": lambda: [1, 2], "[ev,ev]": lambda: [EV, EV], "[td]": lambda: [TD], "[al]": lambda: [AL], "[att]": lambda: [ATT], "gen": lambda: (x for x in ["g1", "g2"]),
    "set": lambda: {"s"}, "range": lambda: range(3), "iter": lambda: iter([EV]),
    "date": lambda: date(2020, 6, 7), "naive": lambda: datetime(2020, 7, 8, 9, 10, 11), "naive-winter": lambda: datetime(2020, 1, 8, 23, 30), "naive-ms": lambda: datetime(2020, 7, 8, 9, 10, 11, 123456),
    "utc": lambda: datetime(2020, 7, 8, 9, 10, 11, tzinfo=U), "ics-utc": lambda: datetime(2020, 7, 8, 9, 10, 11, tzinfo=UTC), "offset": lambda: datetime(2020, 7, 8, 9, 10, 11, tzinfo=timezone(timedelta(hours=2, minutes=45))),
    "gettz": lambda: datetime(2020, 7, 8, 1, tzinfo=dateutil.tz.gettz("America/New_York")), "Timezone": lambda: datetime(2020, 12, 31, 23, 59, 59, tzinfo=BER), "fold": lambda: datetime(2020, 10, 25, 2, 30, tzinfo=BER, fold=1),
    "max": lambda: datetime.max.replace(tzinfo=timezone(-timedelta(hours=5))), "min": lambda: datetime.min.replace(tzinfo=U),
    "td0": lambda: timedelta(), "td": lambda: timedelta(hours=36), "-td": lambda: timedelta(-1), "tdmax": lambda: timedelta.max,
    "org": lambda: ORG, "att": lambda: ATT, "geo": lambda: Geo(3.5, 4.5), "url": lambda: urlparse("http://x.org/a?b"), "line": lambda: ContentLine("X", value="y"), "container": lambda: Container("VEVENT", [ContentLine("X-A", value="y")]),
    "span0": lambda: EventTimespan(), "span": lambda: EventTimespan(datetime(2020, 1, 1), datetime(2020, 1, 2)), "span-allday": lambda: EventTimespan(datetime(2020, 1, 1), None, None, "day"),
    "tspan": lambda: TodoTimespan(None, datetime(2020, 1, 2)), "basespan": lambda: Timespan(datetime(2020, 1, 1)), "event": lambda: EV, "todo": lambda: TD, "alarm": lambda: AL, "obj": lambda: DUMMY, "type": lambda: datetime,
}


class Rejected(Exception):
    pass


class Unspecified(Exception):
    pass


# ------------------------------------------------------------------ reference: what becomes of a value, by kind of attribute
def to_dt(v):
    if isinstance(v, datetime):
        return v
    if isinstance(v, date):
        return datetime(v.year, v.month, v.day)
    if isinstance(v, tuple):
        return datetime(*v)
    if isinstance(v, dict):
        return datetime(**v)
    raise Rejected


def k_any(v):
    return v


def k_dt(v):
    return None if v is None else to_dt(v)


def k_utc(v):
    return None if v is None else to_dt(v).astimezone(U)


def k_utc_required(v):
    if v is None:
        raise Rejected
    return k_utc(v)


def k_td(v):
    if v is None or isinstance(v, timedelta):
        return v
    if isinstance(v, tuple):
        return timedelta(*v)
    if isinstance(v, dict):
        return timedelta(**v)
    raise Rejected


def k_status(*allowed):
    def k(v):
        if v is None:
            return v
        if type(v) is str and v.upper() in allowed:
            return v.upper()
        raise Rejected

    return k


def k_range(top):
    def k(v):
        if v is None or isinstance(v, (int, float)) and v in range(top + 1):
            return v
        raise Rejected

    return k


def k_list(v):
    return [x for x in v]


def k_type(*types):
    def k(v):
        if v is None and None in types or isinstance(v, tuple(t for t in types if t)):
            return v
        raise Rejected

    return k


def k_geo(v):
    if isinstance(v, dict):
        if sorted(v) != ["latitude", "longitude"]:
            raise Rejected
        return Geo(v["latitude"], v["longitude"])
    if isinstance(v, tuple):
        if len(v) != 2:
            raise Rejected
        return Geo(*v)
    if v is None:
        return None
    raise Unspecified


def k_upper(v):
    if not isinstance(v, str):
        raise Rejected
    return v.upper()


BASE = {"extra": k_type(Container), "extra_params": k_type(dict)}
ENTRY = {
    **BASE, "summary": k_any, "uid": k_any, "description": k_any, "location": k_any, "url": k_any, "created": k_utc, "last_modified": k_utc, "dtstamp": k_utc_required, "alarms": k_list, "attach": k_list,
}
EVENT = {
    **ENTRY, "timespan": k_type(EventTimespan), "status": k_status("TENTATIVE", "CONFIRMED", "CANCELLED"), "classification": k_type(None, str), "transparent": k_any, "organizer": k_type(None, Organizer), "geo": k_geo,
    "attendees": k_list, "categories": k_list,
}
TODO = {
    **ENTRY, "timespan": k_type(TodoTimespan), "status": k_status("TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS"), "percent": k_range(100), "priority": k_range(9), "completed": k_dt,
}
ALARM = {**BASE, "trigger": k_type(None, timedelta, datetime), "repeat": k_any, "duration": k_td}


class MyEvent(Event):
    """plain subclass"""


@attr.s(eq=True, order=False)
class ColorAttrs(EventAttrs):
    """subclass with further and with overridden attributes, like the library's own ones"""

    color = attr.ib(default=None, converter=attr.converters.optional(str.lower), validator=attr.validators.in_([None, "x", "confirmed"]))
    location = attr.ib(default=None, validator=attr.validators.optional(attr.validators.instance_of(str)))
    transparent = attr.ib(default=False, converter=bool)
    _TIMESPAN_TYPE = EventTimespan


class ColorEvent(ColorAttrs):
    NAME = "VEVENT"

    def __init__(self, **kwargs):
        kwargs.setdefault("timespan", EventTimespan())
        super().__init__(**kwargs)


@attr.s(eq=True, order=False)
class LooseAttrs(TodoAttrs):
    """subclass which removes checks"""

    percent = attr.ib(default=None)
    created = attr.ib(default=None)
    _TIMESPAN_TYPE = TodoTimespan


class LooseTodo(LooseAttrs):
    NAME = "VTODO"

    def __init__(self, **kwargs):
        kwargs.setdefault("timespan", TodoTimespan())
        super().__init__(**kwargs)


class MyCalendar(Calendar):
    pass


def k_color(v):
    v = v if v is None else k_upper(v).lower()
    if v not in (None, "x", "confirmed"):
        raise Rejected
    return v


CALENDAR = {**BASE, "version": k_type(str), "prodid": k_type(str), "scale": k_any, "method": k_any, "events": k_list, "todos": k_list}
LOOSE = {**TODO, "percent": k_any, "created": k_any, "status": k_status("TENTATIVE", "CONFIRMED", "CANCELLED")}
KINDS = {
    "Event": (Event, EVENT), "MyEvent": (MyEvent, EVENT), "ColorEvent": (ColorEvent, {**EVENT, "color": k_color, "location": k_type(None, str), "transparent": bool}),
    "Todo": (Todo, TODO), "LooseTodo": (LooseTodo, LOOSE),
    "Calendar": (Calendar, CALENDAR), "MyCalendar": (MyCalendar, CALENDAR),
    "AudioAlarm": (AudioAlarm, {**ALARM, "attach": k_any}), "CustomAlarm": (CustomAlarm, ALARM), "DisplayAlarm": (DisplayAlarm, {**ALARM, "description": k_any}), "NoneAlarm": (NoneAlarm, ALARM),
    "EmailAlarm": (EmailAlarm, {**ALARM, "summary": k_any, "description": k_any, "attendees": k_any, "attach": k_any}),
    "ContentLine": (ContentLine, {"name": k_upper, "params": k_any, "value": k_any, "line_nr": k_any}),
}
NOT_INIT = ("extra", "extra_params")


def make(cls, **kw):
    if cls is ContentLine:
        kw.setdefault("name", "X")
    return cls(**kw)


def fields(obj):
    return [a.name for a in attr.fields(type(obj))]


def snap(obj):
    """the current values of all attributes: identity and a copy of lists and dicts"""
    out = {}
    for n in fields(obj):
        v = getattr(obj, n)
        out[n] = (v, list(v) if isinstance(v, (list, Container)) else dict(v) if isinstance(v, dict) else None)
    return out


def diff(a, b):
    return [n for n in a if a[n][0] is not b[n][0] or a[n][1] != b[n][1]] + [n for n in b if n not in a]


def same(got, want, val):
    """is the stored value the expected one?"""
    if isinstance(want, datetime):
        return type(got) is datetime and got.replace(tzinfo=None) == want.replace(tzinfo=None) and (got.tzinfo is None) == (want.tzinfo is None) and got.utcoffset() == want.utcoffset()
    if want is val:
        return got is val
    if isinstance(want, list):
        return type(got) is list and got is not val and len(got) == len(want) and all(x is y or x == y for x, y in zip(got, want))
    return got == want and type(got) is type(want)


def expected(k, name):
    try:
        return ("ok", k(POOL[name]()))
    except (Rejected, *REJECT):
        return ("err", None)
    except Unspecified:
        return ("unspecified", None)


def cases(tier):
    for loc in LOCALS if tier == "thorough" else LOCALS[:2]:
        for c, (_, tab) in KINDS.items():
            for a in tab:
                yield ["one", loc, c, a]
    yield ["table"]
    for c in KINDS:
        yield ["derived", c]
    for a in SPAN_ATTRS:
        yield ["span", a]
    for p in itertools.permutations(range(6), 2):
        yield ["orders", list(p)]
    yield ["frozen"]
    for i in range(len(OPS)):
        for o in range(3):
            yield ["hist", i, o, 4 if tier == "thorough" else 3]


def run_case(case, rep):
    globals()["run_" + case[0]](rep, *case[1:])
    set_local("UTC")


def run_table(rep):
    """no attribute is missing in the reference table"""
    rep.trace()
    for c, (cls, tab) in KINDS.items():
        missing = set(fields(make(cls))) - set(tab) - {"_action"}
        # attributes added by changes of the library aren't judged
        rep.outcome("attributes not checked" if missing else "all attributes checked")


def assign(obj, a, val):
    try:
        setattr(obj, a, val)
    except REJECT as e:
        return e
    return None


def run_one(rep, loc, c, a):
    set_local(loc)
    cls, tab = KINDS[c]
    k = tab[a]
    for name, mk in POOL.items():
        rep.trace()
        rep.state((loc, c, a, name))
        status, want = expected(k, name)
        rep.outcome(status)
        if status == "unspecified":
            continue
        obj = make(cls)
        before = snap(obj)
        val = mk()
        where = f"[{loc}] {c}.{a}"
        err = assign(obj, a, val)
        rep.step()
        if not rep.expect((err is None) == (status == "ok"), lambda: f"{where} = {name}: {'accepted' if err is None else repr(err)}, expected {status}", "accept"):
            continue
        after = snap(obj)
        if status == "err":
            rep.expect(not diff(before, after), lambda: f"{where} = {name} was rejected but changed {diff(before, after)}", "changed")
        else:
            # the reference is evaluated with a value of its own; identity is judged with the assigned one
            w = want if k is k_list and hasattr(val, "__next__") else k(val)
            rep.expect(same(getattr(obj, a), w, val), lambda: f"{where} = {name} gives {getattr(obj, a)!r} instead of {w!r}", "value")
            rep.expect(set(diff(before, after)) <= {a}, lambda: f"{where} = {name} also changed {diff(before, after)}", "changed")
            # what was stored can be stored again
            cur = getattr(obj, a)
            err = assign(obj, a, cur)
            rep.expect(err is None and (getattr(obj, a) is cur or getattr(obj, a) == cur or cur != cur), lambda: f"{where} = {name}: storing the stored value {cur!r} again gives {err!r} {getattr(obj, a)!r}", "again")
        if a in NOT_INIT or name == "None" and a in ("events", "todos"):
            continue  # None means not given
        # the constructor
        val = mk()
        try:
            other, err = make(cls, **{a: val}), None
        except REJECT as e:
            other, err = None, e
        rep.step()
        if not rep.expect((err is None) == (status == "ok"), lambda: f"{c}({a}={name}): {'accepted' if err is None else repr(err)}, expected {status}", "accept-init"):
            continue
        if other is not None:
            w = want if k is k_list and hasattr(val, "__next__") else k(val)
            rep.expect(same(getattr(other, a), w, val), lambda: f"{c}({a}={name}) gives {getattr(other, a)!r} instead of {w!r}", "value-init")
            if c != "ContentLine":
                rep.expect(a == "created" and "Loose" in c or not isinstance(w, datetime) or k is k_dt or is_utc(getattr(other, a)) or a == "trigger" or k is k_any, lambda: f"{c}({a}={name}) isn't in UTC", "utc")


SPAN_ATTRS = ["begin", "end", "duration", "due"]


def run_span(rep, a):
    """begin, end, due and duration accept the same values as the constructors"""
    for kind, cls in (("event", Event), ("todo", Todo), ("my", MyEvent)):
        if (a == "due") != (kind == "todo") and a in ("end", "due"):
            continue
        for name, mk in POOL.items():
            rep.trace()
            rep.state((kind, a, name))
            base = {} if a in ("begin", "due") else {"begin": datetime(2020, 1, 1)}
            if name in ("utc", "ics-utc", "offset", "gettz", "Timezone", "fold", "max", "min", "{ymdtz}") and base:
                base = {"begin": datetime(2019, 1, 1, tzinfo=U)}
            obj = cls(**base)
            before = snap(obj)
            err = assign(obj, a, mk())
            try:
                other, err2 = cls(**base, **{a: mk()}), None
            except REJECT as e:
                other, err2 = None, e
            rep.step(2)
            k = k_td if a == "duration" else k_dt
            status, want = expected(k, name)
            if status == "err":
                rep.expect(err is not None, lambda: f"{kind}.{a} = {name} was accepted", "accept")
            rep.expect((err is None) == (err2 is None), lambda: f"{kind}.{a} = {name}: {err!r}, constructor: {err2!r}", "accept")
            rep.outcome("err" if err else "ok")
            if err is not None:
                rep.expect(not diff(before, snap(obj)), lambda: f"{kind}.{a} = {name} was rejected but changed the {kind}", "changed")
            elif other is not None:
                rep.expect(obj.timespan == other.timespan, lambda: f"{kind}.{a} = {name} gives {obj.timespan}, constructor gives {other.timespan}", "value")
                if want is not None:
                    rep.expect(getattr(obj, a) == want, lambda: f"{kind}.{a} = {name} gives {getattr(obj, a)!r}", "value")
                rep.expect(set(diff(before, snap(obj))) <= {"timespan"}, lambda: f"{kind}.{a} = {name} changed {diff(before, snap(obj))}", "changed")


def derived(cls, how):
    obj = make(cls)
    if how == "clone":
        return obj.clone()
    if how == "clone2":
        return obj.clone().clone()
    if how == "evolve":
        return attr.evolve(obj)
    if how == "read":
        if cls is ContentLine:
            return next(iter(string_to_containers("BEGIN:A\r\nX;A=b:c\r\nEND:A\r\n")))[0]
        return cls.from_container(obj.to_container())
    if how == "copy":
        return copy.copy(obj)
    if how == "populate":
        obj.populate(Container(cls.NAME, [l for l in make(cls).to_container() if not isinstance(l, Container)]))
        return obj
    if how == "cycle":
        return Calendar(Calendar(events=[obj]).serialize()).events[0] if isinstance(obj, Event) else Calendar(Calendar(todos=[obj]).serialize()).todos[0]
    if how == "after-reject":
        for a in fields(obj):
            assign(obj, a, DUMMY)
        return make(cls)


def run_derived(rep, c):
    cls, tab = KINDS[c]
    for how in ("clone", "clone2", "evolve", "read", "copy", "populate", "cycle", "after-reject"):
        if how in ("read", "populate") and cls in (ColorEvent, LooseTodo, MyEvent, MyCalendar, CustomAlarm):
            continue  # subclasses need converters of their own, a custom alarm an action
        if how in ("copy", "populate") and cls is ContentLine or how == "cycle" and c not in ("Event", "Todo"):
            continue
        if how == "read" and cls is NoneAlarm:
            pass
        for a, k in tab.items():
            if how == "evolve" and a in NOT_INIT:
                continue
            for name in ("None", "101", "'x'", "'confirmed'", "(2020,1,2)", "naive", "offset", "date", "{days}", "iter", "gen", "org", "tspan", "span", "obj", "()"):
                rep.trace()
                obj = derived(cls, how)
                before = snap(obj)
                status, want = expected(k, name)
                if status == "unspecified":
                    continue
                val = POOL[name]()
                err = assign(obj, a, val)
                rep.step()
                rep.state((c, how, a, name))
                rep.outcome(how + " " + status)
                where = f"{c} obtained by {how}: .{a}"
                if not rep.expect((err is None) == (status == "ok"), lambda: f"{where} = {name}: {'accepted' if err is None else repr(err)}, expected {status}", "accept"):
                    continue
                if status == "err":
                    rep.expect(not diff(before, snap(obj)), lambda: f"{where} = {name} was rejected but changed something", "changed")
                else:
                    w = want if k is k_list and hasattr(val, "__next__") else k(val)
                    rep.expect(same(getattr(obj, a), w, val), lambda: f"{where} = {name} gives {getattr(obj, a)!r} instead of {w!r}", "value")


# ------------------------------------------------------------------ orders of first use of related classes
def hierarchy():
    """six related new classes with the expected conversion of 'a' and 'b'"""

    @attr.s
    class A(Component):
        NAME = "X-A"
        a = attr.ib(default=0, converter=int)

    @attr.s
    class B(A):
        a = attr.ib(default="", converter=str)
        b = attr.ib(default=0, validator=attr.validators.instance_of(int))

    class C(A):
        pass

    @attr.s
    class D(B):
        a = attr.ib(default=None)

    class E(D):
        pass

    @attr.s
    class F(C):
        b = attr.ib(default="", converter=lambda v: (v,))

    def anyway(v):
        return v

    def int_only(v):
        if not isinstance(v, int):
            raise Rejected
        return v

    return [(A, {"a": int, "b": anyway}), (B, {"a": str, "b": int_only}), (C, {"a": int, "b": anyway}), (D, {"a": anyway, "b": int_only}), (E, {"a": anyway, "b": int_only}), (F, {"a": int, "b": lambda v: (v,)})]


VALUES = ["7", 7, "x", 2.5]


def probe(rep, cls, tab, obj, hist):
    for f, k in tab.items():
        for v in VALUES:
            old = getattr(obj, f, "unset")
            try:
                want = ("ok", k(v))
            except (Rejected, ValueError, TypeError):
                want = ("err", old)
            err = assign(obj, f, v)
            got = ("ok" if err is None else "err", getattr(obj, f, "unset"))
            rep.step()
            rep.expect(got == want and type(got[1]) is type(want[1]), lambda: f"{cls.__name__}.{f} = {v!r}: {got} instead of {want}, first uses of the classes: {hist}", "order")


def run_orders(rep, prefix):
    rest = [i for i in range(6) if i not in prefix]
    for p in itertools.permutations(rest):
        order = prefix + list(p)
        for early in (False, True):
            rep.trace()
            rep.state((tuple(order), early))
            hs = hierarchy()
            objs = [c() for c, _ in hs]
            hist = []
            for i in order:
                cls, tab = hs[i]
                hist.append(cls.__name__)
                if early:
                    assign(objs[i], "a", "7")
                else:
                    probe(rep, cls, tab, objs[i], hist)
            if early:
                for i in range(6):
                    probe(rep, *hs[i], objs[i], hist)
                    probe(rep, *hs[i], hs[i][0](), hist)
    rep.outcome("orders")


def run_frozen(rep):
    """timezones never change"""
    rep.trace()
    off = timedelta(hours=1)
    import dateutil.rrule as rr

    obs = TimezoneStandardObservance(off, off, rr.rrule(rr.YEARLY, dtstart=datetime(1970, 1, 1), count=1), "X")
    tz = Timezone("Mine", [obs])
    for obj in (UTC, BER, BER.observances[0], BER.observances[-1], tz, obs):
        before = snap(obj)
        for a in fields(obj):
            for name in POOL:
                err = assign(obj, a, POOL[name]())
                rep.step()
                rep.expect(err is not None, lambda: f"{type(obj).__name__}.{a} = {name} was accepted", "frozen")
            try:
                delattr(obj, a)
                rep.fail(f"del {type(obj).__name__}.{a} was accepted", "frozen")
            except REJECT:
                pass
        rep.expect(not diff(before, snap(obj)), lambda: f"{obj!r} changed", "frozen")
    rep.outcome("frozen")


# ------------------------------------------------------------------ histories of assignments to several objects
OPS = [
    ("summary", "'x'"), ("status", "'confirmed'"), ("status", "'FINAL'"), ("status", "'COMPLETED'"), ("created", "(2020,1,2)"), ("created", "offset"), ("created", "'x'"), ("dtstamp", "None"), ("dtstamp", "{ymdtz}"),
    ("location", "101"), ("location", "'x'"), ("alarms", "gen"), ("alarms", "0"), ("timespan", "span"), ("timespan", "tspan"), ("timespan", "None"), ("transparent", "'x'"), ("percent", "101"), ("percent", "100"), ("color", "'CONFIRMED'"),
]
TRIPLE = ("Event", "LooseTodo", "ColorEvent")


def run_hist(rep, i, o, depth):
    ops = [(x, *OPS[n]) for n in range(len(OPS)) for x in range(3)]
    start = (o, *OPS[i])

    def go(objs, hist, n):
        x, a, name = hist[-1]
        c = TRIPLE[x]
        k = KINDS[c][1].get(a, k_any)
        obj = objs[x]
        befores = [snap(y) for y in objs]
        val = POOL[name]()
        status, want = expected(k, name)
        err = assign(obj, a, val)
        rep.step()
        if rep.expect((err is None) == (status == "ok"), lambda: f"{hist}: {'accepted' if err is None else repr(err)}, expected {status}", "accept") and status == "ok":
            w = want if k is k_list and hasattr(val, "__next__") else k(val)
            rep.expect(same(getattr(obj, a), w, val), lambda: f"{hist}: value is {getattr(obj, a)!r} instead of {w!r}", "value")
        for y in range(3):
            d = diff(befores[y], snap(objs[y]))
            rep.expect(set(d) <= ({a} if y == x and status == "ok" else set()), lambda: f"{hist}: changed {d} of {TRIPLE[y]}", "changed")
        if n > 0:
            # continue with the state reached, each continuation with objects of its own
            for op in ops:
                go([copy.copy(y) for y in objs], hist + [op], n - 1)

    rep.trace()
    for op in ops:
        rep.state((start, op))
        objs = [KINDS[t][0]() for t in TRIPLE]
        go(objs, [start], 0)
        go([copy.copy(y) for y in objs], [start, op], depth - 2)
    rep.outcome("histories")

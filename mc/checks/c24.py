"""C24: clones, copies and pickles of calendars and their parts are equal to the original, write the same text and are independent of it."""
import base64
import copy
import itertools
import os
import pickle
import subprocess
import sys
from datetime import datetime, timedelta
from zoneinfo import ZoneInfo

import attr

from ics import Attendee, Calendar, DisplayAlarm, Event, Timezone, Todo
from ics.attendee import Person
from ics.component import Component
from ics.contentline import Container, ContentLine
from ics.event import deterministic_event_data
from ics.timespan import Timespan
from ics.timezone import UTC, TimezoneObservance, is_utc
from mc.checks.c23 import diff
from mc.docs import DOCS, U, reachable, snapshot, walk

PROPERTY = "C24"
BOUNDS = {
    "quick": "6 calendars and every component, person, content line, container, timespan and timezone within them x 10 ways to copy (clone, copy, deepcopy, pickle protocols, evolve): equality, text, behaviour and "
    "independence; every single change of every mutable object of the deep copy or the original; all chains of <=2 copies",
    "thorough": "chains of <=3 copies, all changes after each chain of 2",
}
ASSUMPTIONS = ["the timeline of a copy.copy remains that of the original", "clone, evolve and copy.copy are shallow: parts which aren't attributes of the copied object itself are shared", "copy.copy and evolve also share lists"]
CASE_TIMEOUT = 300

DEEP = {"deepcopy": copy.deepcopy, **{f"pickle{p}": (lambda o, p=p: pickle.loads(pickle.dumps(o, p))) for p in (2, 4, 5)}}
SHALLOW = {"clone": lambda o: o.clone(), "copy": copy.copy, "evolve": attr.evolve, "deep": lambda o: o.clone(deep=True)}
WAYS = {**DEEP, **SHALLOW}


def parts(cal):
    """(label, object) of everything which can be copied"""
    seen = set()
    for path, o in reachable(cal):
        if isinstance(o, (Component, Person, ContentLine, Container)) and id(o) not in seen:
            seen.add(id(o))
            yield ".".join(map(str, path)) or "calendar", o
    for path, o in walk(cal):
        if hasattr(o, "timespan"):
            yield path + ".timespan", o.timespan
            for n in ("begin", "end"):
                t = getattr(o, n)
                if t is not None and t.tzinfo is not None:
                    yield f"{path}.{n}.tzinfo", t.tzinfo
                    yield f"{path}.{n}", t
            yield path + ".dtstamp.tzinfo", o.dtstamp.tzinfo


def possible(how, o):
    if isinstance(o, (list, dict, datetime)) or not isinstance(o, (Component, Person, ContentLine, Container, Timespan)):
        return how in ("deepcopy", "copy") or how.startswith("pickle")
    if how == "deep":
        return isinstance(o, Container)
    if how == "clone":
        return isinstance(o, (Component, ContentLine, Container))
    if how == "evolve":
        # evolve doesn't keep the extras of components
        return isinstance(o, (ContentLine, Container, Timespan))
    if isinstance(o, Timespan):
        return True
    return True


def written(o):
    if isinstance(o, Container) or isinstance(o, ContentLine):
        return o.serialize()
    if isinstance(o, Component):
        try:
            return o.serialize()
        except ValueError as e:
            return repr(e)
    if isinstance(o, datetime):
        return repr((o.replace(tzinfo=None), o.utcoffset(), o.fold))
    if hasattr(o, "utcoffset"):
        return repr([(f(t), f(t + timedelta(30 * 6))) for t in (datetime(2020, 1, 1, tzinfo=o), datetime(2020, 7, 1, 2, 30, tzinfo=o)) for f in (o.utcoffset, o.tzname, o.dst)]) + str(is_utc(o))
    return repr(o)


def cases(tier):
    for d in DOCS:
        for h in WAYS:
            yield ["equal", d, h, tier]
        yield ["process", d]
        if d != "empty":
            for h in DEEP:
                for way in ("copy", "original"):
                    for k in range(8):
                        yield ["independent", d, h, way, k, tier]
            yield ["shallow", d]
        yield ["sharing", d]
    yield ["special"]


def run_case(case, rep):
    rep.trace()
    with deterministic_event_data():
        globals()["run_" + case[0]](rep, *case[1:])


def same(rep, a, b, where):
    rep.step()
    rep.expect(type(a) is type(b), lambda: f"{where}: type {type(b)}", "type")
    if hasattr(a, "utcoffset") and not isinstance(a, (Timezone, datetime)):
        rep.expect(written(a) == written(b), lambda: f"{where}: {diff(written(a), written(b))}", "behaviour")
        return
    rep.expect(a == b and not a != b, lambda: f"{where}: copy isn't equal: {str(a)[:300]} {str(b)[:300]}", "equal")
    rep.expect(written(a) == written(b), lambda: f"{where}: {diff(written(a), written(b))}", "text")
    rep.expect(str(a) == str(b) and repr(a) == repr(b), lambda: f"{where}: {diff(repr(a), repr(b))}", "repr")


def run_equal(rep, doc, how, tier):
    cal = DOCS[doc]()
    before = snapshot(cal)
    for label, o in parts(cal):
        if not possible(how, o):
            continue
        c = WAYS[how](o)
        where = f"{doc}: {label} copied by {how}"
        same(rep, o, c, where)
        rep.state((doc, label, how))
        rep.expect(snapshot(cal) == before, lambda: f"{where}: original was changed: {diff(before, snapshot(cal))}", "changed")
        if not isinstance(o, (Timezone, TimezoneObservance, datetime)) and isinstance(o, (Component, ContentLine, Container, Person)):
            rep.expect(c is not o, lambda: f"{where}: no copy", "identity")
        if how in DEEP:
            rep.expect(not ({id(x) for _, x in reachable(o)} & {id(x) for _, x in reachable(c)}), lambda: f"{where}: still shares objects", "shared")
        if isinstance(o, Calendar):
            rep.expect([e.uid for e in o.timeline] == [e.uid for e in c.timeline], lambda: f"{where}: timeline", "timeline")
            if c.events and how != "copy":
                c2 = WAYS[how](cal)
                n = len(list(o.timeline))
                c2.events = []
                rep.expect(list(c2.timeline) == [] and len(list(o.timeline)) == n, lambda: f"{where}: timeline belongs to another calendar", "timeline")
        # copies of copies
        for rest in itertools.product(WAYS, repeat=1 if tier == "quick" else 2):
            x = c
            for h in rest:
                if possible(h, x):
                    x = WAYS[h](x)
            same(rep, o, x, f"{where}, {rest}")
            rep.state((doc, label, how, rest))
        rep.expect(snapshot(cal) == before, lambda: f"{where}: original was changed: {diff(before, snapshot(cal))}", "changed")
    rep.outcome(how)


SCRIPT = """
import base64, pickle, sys
for line in sys.stdin:
    o = pickle.loads(base64.b64decode(line))
    print(base64.b64encode(o.serialize().encode()).decode())
"""


def run_process(rep, doc):
    """pickles are read by another process, in which nothing was initialized"""
    cal = DOCS[doc]()
    objs = [o for _, o in parts(cal) if isinstance(o, (Component, Container, ContentLine))]
    objs = [o for o in objs if not written(o).startswith("ValueError")]
    data = "\n".join(base64.b64encode(pickle.dumps(o)).decode() for o in objs)
    import ics

    env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.realpath(ics.__file__))), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="77")
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", SCRIPT], input=data, capture_output=True, text=True, env=env, timeout=120)
    rep.expect(r.returncode == 0, lambda: f"{doc}: {r.stderr[-1500:]}", "process")
    got = [base64.b64decode(l).decode() for l in r.stdout.split()]
    rep.step(len(objs))
    want = [written(o) for o in objs]
    rep.state((doc, "process"))
    rep.expect(got == want, lambda: f"{doc}: read by another process: {diff(want, got)}", "process")
    rep.outcome("process")


# ------------------------------------------------------------------ independence
def changes(o):
    """(label, function which changes the object)"""
    if isinstance(o, Person):
        return [("email", lambda x: setattr(x, "email", "mailto:new@x")), ("cn", lambda x: setattr(x, "common_name", "NEW")), ("del", lambda x: x.extra.clear())]
    if isinstance(o, ContentLine):
        return [("name", lambda x: setattr(x, "name", "X-CHANGED")), ("value", lambda x: setattr(x, "value", "changed")), ("param", lambda x: x.params.__setitem__("X-CH", ["1"]))]
    if isinstance(o, Container):
        return [("append", lambda x: x.append(ContentLine("X-NEW", value="1"))), ("clear", lambda x: x.clear()), ("reverse", lambda x: x.reverse()), ("slice", lambda x: x.__setitem__(slice(0, 1), []))]
    if isinstance(o, (Timezone, TimezoneObservance)):
        return []  # immutable
    if isinstance(o, Component):
        out = [("extra", lambda x: x.extra.append(ContentLine("X-NEW"))), ("strip", lambda x: x.strip_extras(all_extras=True))]
        if isinstance(o, (Event, Todo)):
            out += [("summary", lambda x: setattr(x, "summary", "changed")), ("span", lambda x: setattr(x, "timespan", type(x.timespan)(datetime(1999, 1, 1)))), ("alarms", lambda x: x.alarms.append(DisplayAlarm(description="new"))), ("params", lambda x: x.extra_params.__setitem__("UID", {"X": ["1"]}))]
        if isinstance(o, Calendar):
            out += [("events", lambda x: x.events.append(Event("new"))), ("todos", lambda x: x.todos.clear()), ("prodid", lambda x: setattr(x, "prodid", "changed"))]
        return out
    if isinstance(o, list):
        return [("clear", lambda x: x.clear()), ("double", lambda x: x.extend(x[:1])), ("reverse", lambda x: x.reverse())]
    return [("clear", lambda x: x.clear()), ("set", lambda x: x.__setitem__("X-NEW", ["1"]))]


def run_independent(rep, doc, how, way, k, tier):
    n = -1
    base = DOCS[doc]()
    size = [(p, [l for l, _ in changes(o)]) for p, o in reachable(base)]
    for i, (path, labels) in enumerate(size):
        for j, l in enumerate(labels):
            n += 1
            if n % 8 != k:
                continue
            for chain in [()] if tier == "quick" else [()] + [(h,) for h in ("deepcopy", "clone", "copy")]:
                orig = DOCS[doc]()
                cp = orig
                for h in chain:
                    cp = WAYS[h](cp)
                cp = WAYS[how](cp)
                victim, other = (cp, orig) if way == "copy" else (orig, cp)
                before, text = snapshot(other), written(other)
                p, o = reachable(victim)[i]
                if chain == ():
                    rep.expect(p == path, lambda: f"{doc}: structure of {how} differs at {p}", "structure")
                if j >= len(changes(o)):
                    continue
                changes(o)[j][1](o)
                rep.step()
                rep.state((doc, how, way, path, l, chain))
                where = f"{doc}: {chain} {how}: changing ({l}) {path} of the {way}"
                rep.expect(snapshot(other) == before, lambda: f"{where} changed the other one: {diff(before, snapshot(other))}", "independent")
                rep.expect(written(other) == text, lambda: f"{where} changed the text of the other one: {diff(text, written(other))}", "independent")
    rep.outcome(how)


def run_shallow(rep, doc):
    """the attributes, lists, extras and params of a clone are its own"""
    cal = DOCS[doc]()
    for label, o in walk(cal):
        for chl, ch in [(l, f) for l, f in changes(o)] + [("extra_params", lambda x: x.extra_params.clear()), ("extra_params deep", deep_params), ("list", lists)]:
            for way in ("copy", "original"):
                orig = dict(walk(DOCS[doc]()))[label]
                cp = orig.clone()
                victim, other = (cp, orig) if way == "copy" else (orig, cp)
                before, text = snapshot(other), written(other)
                ch(victim)
                rep.step()
                rep.state((doc, label, chl, way))
                rep.expect(snapshot(other) == before and written(other) == text, lambda: f"{doc}: changing ({chl}) the {way} of {label} changed the other one: {diff(before, snapshot(other))}", "independent")
    # containers
    for label, o in parts(cal):
        if isinstance(o, Container):
            for deep in (False, True):
                c = o.clone(deep=deep)
                before = snapshot(o)
                c.append(ContentLine("X-NEW"))
                c.name = "X-OTHER"
                if deep:
                    for p, x in reachable(c):
                        if isinstance(x, ContentLine):
                            x.value = "changed"
                            x.params["X-N"] = ["1"]
                            for v in x.params.values():
                                v.append("more")
                rep.step()
                rep.expect(snapshot(o) == before, lambda: f"{doc}: changing the {'deep ' if deep else ''}clone of {label} changed it: {diff(before, snapshot(o))}", "independent")
                new = o.clone(items=[ContentLine("Y")], deep=deep)
                rep.expect([str(x) for x in new] == ["Y=''"] and new.name == o.name and snapshot(o) == before, lambda: f"{doc}: clone with items {new}", "items")
        if isinstance(o, ContentLine):
            c, before = o.clone(), snapshot(o)
            c.name, c.value = "X-OTHER", "other"
            c["X-N"] = ["1"]
            for v in c.params.values():
                v.append("more")
            rep.step()
            rep.expect(snapshot(o) == before, lambda: f"{doc}: changing the clone of {label} changed it: {diff(before, snapshot(o))}", "independent")
    rep.outcome("shallow")


def deep_params(x):
    for v in x.extra_params.values():
        for d in v if isinstance(v, list) else [v]:
            for w in d.values():
                w.append("more")
            d["X-NEW"] = ["1"]


def lists(x):
    if isinstance(x, (Event, Todo, Calendar)):
        for a in attr.fields(type(x)):
            v = getattr(x, a.name)
            if isinstance(v, list):
                v.clear()


def run_sharing(rep, doc):
    """deep copies keep what is shared within the calendar shared, and the zones of all its times one object"""
    cal = DOCS[doc]()
    objs = reachable(cal)
    for how, f in DEEP.items():
        c = f(cal)
        cobjs = reachable(c)
        rep.step()
        rep.state((doc, how, "sharing"))
        rep.expect([p for p, _ in objs] == [p for p, _ in cobjs], lambda: f"{doc}: {how} doesn't keep the structure", "structure")
        times = [(e.begin, d.begin) for e, d in zip(cal.events + cal.todos, c.events + c.todos)]
        for (a, x), (b, y) in itertools.combinations([t for t in times if t[0] is not None], 2):
            rep.expect((a.tzinfo is b.tzinfo) == (x.tzinfo is y.tzinfo) or not isinstance(a.tzinfo, Timezone), lambda: f"{doc}: {how} doesn't keep zones", "zones")
            if (a.tzinfo is None) == (b.tzinfo is None):
                rep.expect((a < b, a == b, a - b) == (x < y, x == y, x - y) == (a < y, a == y, a - y), lambda: f"{doc}: {how}: {a} {b} {x} {y}", "times")
    rep.outcome("sharing")


def run_special(rep):
    """single objects which aren't part of the calendars"""
    tz = [UTC, Timezone.from_tzid("Europe/Berlin"), Timezone.from_tzid("America/New_York")]
    for z in tz:
        for o in (z, *z.observances, z.observances[0].rrule):
            for how in WAYS:
                if not possible(how, o):
                    continue
                c = WAYS[how](o)
                rep.step()
                rep.state((str(z), type(o).__name__, how))
                rep.expect(o == c, lambda: f"{how} of {o!r} gives {c!r}", "equal")
                if isinstance(o, Timezone):
                    for t in (datetime(2020, 3, 29, 2, 30), datetime(2020, 10, 25, 2, 30), datetime(2020, 10, 25, 2, 30, fold=1), datetime(1990, 1, 1), datetime(2020, 7, 1)):
                        t1, t2 = t.replace(tzinfo=o), t.replace(tzinfo=c)
                        rep.expect((t1.utcoffset(), t1.dst(), t1.tzname()) == (t2.utcoffset(), t2.dst(), t2.tzname()), lambda: f"{how} of {o!r} answers differently for {t}", "behaviour")
                        u = t.replace(tzinfo=U)
                        rep.expect(u.astimezone(o).replace(tzinfo=None) == u.astimezone(c).replace(tzinfo=None), lambda: f"{how} of {o!r} converts {t} differently", "behaviour")
                    rep.expect(is_utc(o) == is_utc(c), lambda: f"{how} of {o!r} is_utc", "behaviour")
    # times which are skipped or repeated at DST changes
    for z in (tz[1], tz[1].clone(), ZoneInfo("Europe/Berlin")):
        for t in (datetime(2020, 3, 29, 2, 30, tzinfo=z), datetime(2020, 10, 25, 2, 30, tzinfo=z), datetime(2020, 10, 25, 2, 30, tzinfo=z, fold=1)):
            e, d = Event("x", begin=t, end=t), Todo(begin=t - timedelta(1), due=t)
            for o in (e.timespan, d.timespan, e, d, Calendar(events=[e], todos=[d])):
                for how in WAYS:
                    if possible(how, o) and not (t.fold and how == "pickle2"):  # old protocols don't know fold
                        c = WAYS[how](o)
                        rep.step()
                        rep.state((str(z), str(t), type(o).__name__, how))
                        rep.expect(o == c and not o != c, lambda: f"{how} of {o!r} isn't equal", "equal")
                        if isinstance(o, Timespan):
                            rep.expect(hash(o) == hash(c), lambda: f"{how} of {o!r} has another hash", "hash")
    for o in (Event(), Todo(), Calendar(), Attendee("x"), DisplayAlarm(), Container("X"), ContentLine("X")):
        for how in WAYS:
            if possible(how, o):
                rep.step()
                same(rep, o, WAYS[how](o), f"{how} of empty {type(o).__name__}")
    # names of copied lines are still converted
    for how in WAYS:
        l = ContentLine("x-a", value="v")
        if possible(how, l):
            c = WAYS[how](l)
            c.name = "x-b"
            rep.expect(c.name == "X-B" and l.name == "X-A", lambda: f"name of line copied by {how} is {c.name}", "validated")
            e = Event("s")
    for how in WAYS:
        if possible(how, Event()):
            c = WAYS[how](Event("s"))
            c.status = "confirmed"
            ok = c.status == "CONFIRMED"
            try:
                c.dtstamp = None
                ok = False
            except ValueError:
                pass
            rep.expect(ok, lambda: f"attributes of an event copied by {how} aren't validated", "validated")
    rep.outcome("special")

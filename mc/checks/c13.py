"""C13: converting timezones keeps the instants, replacing them keeps the wall clock; normalizing a calendar does so for exactly the selected entries."""
import itertools
from datetime import date, datetime, timedelta, timezone
from zoneinfo import ZoneInfo

import dateutil.tz

from ics import Calendar, Event, EventTimespan, Timespan, Timezone, Todo, TodoTimespan
from ics.timespan import Normalization, NormalizationAction

from mc.spans import set_local

PROPERTY = "C13"
BOUNDS = {
    "quick": "every source x target out of 7 zones (UTC, 2 iCalendar, 2 IANA, dateutil, fixed) and none x hourly times around 5 DST changes and 3 plain days x 5 shapes x 3 kinds, "
    "in 2 local timezones; calendars of 9 kinds of entries x 5 replacements x all combinations of the 2 x 5 actions x 2 ways of calling",
    "thorough": "quarter-hourly times, 4 local timezones",
}
ASSUMPTIONS = ["times which occur twice in the source or target zone can't be expressed in the format and are left out", "a duration keeps its nominal value"]

ZONES = {
    "utc": lambda: timezone.utc,
    "icsber": lambda: Timezone.from_tzid("Europe/Berlin"),
    "icsny": lambda: Timezone.from_tzid("America/New_York"),
    "zikol": lambda: ZoneInfo("Asia/Kolkata"),
    "zilon": lambda: ZoneInfo("Europe/London"),
    "dusyd": lambda: dateutil.tz.gettz("Australia/Sydney"),
    "fix": lambda: timezone(timedelta(hours=-3, minutes=-30)),
}
MODEL = {"utc": "UTC", "icsber": "Europe/Berlin", "icsny": "America/New_York", "zikol": "Asia/Kolkata", "zilon": "Europe/London", "dusyd": "Australia/Sydney"}
_z = {}


def zone(n):
    if n is None:
        return None
    if n not in _z:
        _z[n] = ZONES[n]()
    return _z[n]


def model_zone(n, loc):
    if n == "fix":
        return timezone(timedelta(hours=-3, minutes=-30))
    return ZoneInfo(loc if n is None else MODEL[n])


def ambiguous_or_missing(w, z):
    a, b = w.replace(tzinfo=z, fold=0).utcoffset(), w.replace(tzinfo=z, fold=1).utcoffset()
    return a != b


ANCHORS = [datetime(2020, 3, 29, 1), datetime(2020, 10, 25, 1), datetime(2020, 3, 8, 7), datetime(2020, 11, 1, 6), datetime(2020, 4, 4, 16), datetime(2020, 7, 1), datetime(2019, 12, 31, 23), datetime(2024, 2, 29, 12)]


def walls(th):
    step = 15 if th else 60
    for a in ANCHORS:
        for m in range(-180, 181, step if a.month in (3, 10, 11, 4) else 180):
            yield a + timedelta(minutes=m)


def cases(tier):
    th = tier == "thorough"
    locs = ["UTC", "America/New_York", "Europe/Berlin", "Asia/Kolkata"]
    for loc in locs if th else locs[:2]:
        for src in [None] + list(ZONES):
            for dst in [None] + list(ZONES):
                if th or loc == locs[0] or src is None or dst is None:  # the local timezone only matters for floating times
                    yield ["conv", loc, src, dst, th]
        for r in range(len(REPL)):
            for nf in range(5):
                for nw in range(5):
                    yield ["norm", loc, r, nf, nw]
    yield ["misc"]


def inst(w, z):
    return w.replace(tzinfo=z).astimezone(timezone.utc)


def obs(d):
    """wall clock and offset"""
    return None if d is None else (d.replace(tzinfo=None, fold=0), None if d.tzinfo is None else d.utcoffset())


def run_case(case, rep):
    rep.trace()
    if case[0] == "misc":
        return run_misc(rep)
    set_local(case[1])
    try:
        if case[0] == "conv":
            run_conv(*case[1:], rep)
        else:
            run_norm(*case[1:], rep)
    finally:
        set_local("UTC")


def run_conv(loc, src, dst, th, rep):
    ms, md = model_zone(src, loc), model_zone(dst, loc)
    zs, zd = zone(src), zone(dst)
    for w in walls(th):
        w2 = w + timedelta(hours=7, minutes=30)
        if any(ambiguous_or_missing(x, ms) for x in (w, w2)):
            continue
        i1, i2 = inst(w, ms), inst(w2, ms)
        l1, l2 = (i.astimezone(md).replace(tzinfo=None) for i in (i1, i2))
        conv_ok = not any(ambiguous_or_missing(x.replace(fold=0), md) for x in (l1, l2))
        repl_ok = dst is None or not any(ambiguous_or_missing(x, md) for x in (w, w2))
        for n, shape in enumerate(["end", "duration", "none", "due"]):
            kw = {"begin_time": w.replace(tzinfo=zs)}
            if shape == "end":
                kw["end_time"] = w2.replace(tzinfo=zs)
            elif shape == "duration":
                kw["duration"] = timedelta(hours=7, minutes=30)
            elif shape == "due":
                kw = {"end_time": w2.replace(tzinfo=zs)}
            cls = [EventTimespan, TodoTimespan, Timespan][(n + w.hour + w.minute // 15) % 3]
            if shape == "due" and cls is EventTimespan:
                cls = TodoTimespan
            ts = cls(**kw)
            ent = None
            if cls is EventTimespan:
                ent = Event(timespan=ts, summary="s")
            elif cls is TodoTimespan:
                ent = Todo(timespan=ts, summary="s")
            if conv_ok:
                rep.step()
                new = ts.convert_timezone(zd)
                off = lambda i: i.astimezone(md).utcoffset()
                exp = (
                    None if shape == "due" else (l1.replace(fold=0), off(i1)),
                    (l2.replace(fold=0), off(i2)) if shape in ("end", "due") else None,
                    kw.get("duration"),
                )
                got = (obs(new.begin_time), obs(new.end_time), new.duration)
                rep.expect(got == exp and type(new) is cls, lambda: f"[TZ={loc}] {ts} converted to {dst}: {got}, expected {exp}", "convert")
                if ent is not None:
                    e2 = ent.clone()
                    e2.convert_timezone(zd)
                    rep.expect(e2.timespan == new and e2.summary == "s" and e2.uid == ent.uid, lambda: f"[TZ={loc}] {ent} converted to {dst} is {e2}, expected {new}", "convert-entity")
                again = new.convert_timezone(zd)
                rep.expect((obs(again.begin_time), obs(again.end_time), again.duration) == exp, lambda: f"[TZ={loc}] {ts} converted to {dst} twice is {again}", "convert-twice")
            if repl_ok:
                rep.step()
                new = ts.replace_timezone(zd)
                off = lambda x: None if dst is None else x.replace(tzinfo=md).utcoffset()
                exp = (None if shape == "due" else (w, off(w)), (w2, off(w2)) if shape in ("end", "due") else None, kw.get("duration"))
                got = (obs(new.begin_time), obs(new.end_time), new.duration)
                rep.expect(got == exp and type(new) is cls, lambda: f"[TZ={loc}] {ts} moved to {dst}: {got}, expected {exp}", "replace")
                rep.expect(new.is_floating() == (dst is None), "floating", "replace")
                if ent is not None:
                    e2 = ent.clone()
                    e2.replace_timezone(zd)
                    rep.expect(e2.timespan == new and e2.summary == "s" and e2.uid == ent.uid, lambda: f"[TZ={loc}] {ent} moved to {dst} is {e2}, expected {new}", "replace-entity")
            rep.state((loc, src, dst, w, shape))
            rep.expect((obs(ts.begin_time), obs(ts.end_time)) == ((w, None if src is None else w.replace(tzinfo=ms).utcoffset()) if shape != "due" else None, (w2, None if src is None else w2.replace(tzinfo=ms).utcoffset()) if shape in ("end", "due") else None), lambda: f"converting changed the original to {ts}", "pure")


REPL = ["utc", "icsny", None, "call-zikol", "call-None"]
ACTIONS = [NormalizationAction.IGNORE, NormalizationAction.REPLACE, NormalizationAction.CONVERT, False, True]
ENTRIES = [
    ("event", datetime(2020, 7, 1, 10), datetime(2020, 7, 1, 12), "end", None), ("event", datetime(2020, 1, 1, 10), datetime(2020, 1, 1, 12), "duration", None),
    ("event", datetime(2020, 7, 1, 10), datetime(2020, 7, 1, 12), "end", "icsber"), ("event", datetime(2020, 7, 1, 10), None, "none", "utc"),
    ("event", datetime(2020, 7, 1), datetime(2020, 7, 2), "allday", None), ("event", None, None, "none", None),
    ("todo", None, datetime(2020, 12, 1, 12), "end", None), ("todo", None, datetime(2020, 12, 1, 12), "end", "zilon"), ("todo", datetime(2020, 7, 1), datetime(2020, 7, 2), "allday", None),
    ("todo", datetime(2020, 7, 1), datetime(2020, 7, 2), "duration", "dusyd"), ("todo", None, None, "none", None),
]


def build_entry(d):
    kind, b, e, how, z = d
    kw = dict(begin_time=b and b.replace(tzinfo=zone(z)))
    if how == "duration":
        kw["duration"] = e - b
    elif e is not None:
        kw["end_time"] = e.replace(tzinfo=zone(z))
    if how == "allday":
        kw["precision"] = "day"
    return Event(timespan=EventTimespan(**kw), summary="x") if kind == "event" else Todo(timespan=TodoTimespan(**kw), summary="x")


def norm_model(w, z, repl, nf, nw, loc):
    """expected (wall, offset) of the time w in zone z"""
    if w is None:
        return None
    act = nf if z is None else nw
    if act is True:
        act = NormalizationAction.CONVERT
    ms = model_zone(z, loc)
    if not act:
        return w, None if z is None else w.replace(tzinfo=ms).utcoffset()
    mr = model_zone(repl, loc)
    if act == NormalizationAction.REPLACE:
        return w, None if repl is None else w.replace(tzinfo=mr).utcoffset()
    new = inst(w, ms).astimezone(mr)
    return new.replace(tzinfo=None, fold=0), new.utcoffset()


def run_norm(loc, r, nf, nw, rep):
    name = REPL[r]
    if name and name.startswith("call-"):
        name = name[5:] if name != "call-None" else None
        replacement = lambda: zone(name)
    else:
        replacement = zone(name)
    nf, nw = ACTIONS[nf], ACTIONS[nw]
    for call in (0, 1, 2):
        ents = [build_entry(d) for d in ENTRIES]
        cal = Calendar(events=[e for e in ents if isinstance(e, Event)], todos=[e for e in ents if isinstance(e, Todo)])
        clones = [e.clone() for e in ents]
        rep.step()
        if call == 0:
            cal.normalize(Normalization(replacement, nf, nw))
        elif call == 1:
            cal.normalize(replacement, nf, nw)
        else:
            cal.normalize(replacement, normalize_floating=nf, normalize_with_tz=nw)
        got = cal.events + cal.todos
        rep.expect(len(got) == len(ents) and len(cal.events) == 6, "number of entries changed", "norm-count")
        for d, e, before in zip(ENTRIES, got, clones):
            kind, b, en, how, z = d
            rep.step()
            if how == "allday":
                rep.expect(e == before, lambda: f"all-day entry {before} was changed to {e}", "norm-allday")
                continue
            exp = (norm_model(b, z, name, nf, nw, loc), norm_model(en, z, name, nf, nw, loc) if how == "end" else None, en - b if how == "duration" else None)
            g = (obs(e.timespan.begin_time), obs(e.timespan.end_time), e.timespan.duration)
            rep.expect(g == exp, lambda: f"[TZ={loc}] {before} normalized by {name} {nf!r} {nw!r} is {g}, expected {exp}", "norm")
            n = Normalization(replacement, nf, nw)
            for ts in (before.timespan, Timespan(before.timespan.begin_time, before.timespan.end_time, before.timespan.duration)):
                if kind == "todo" and b is None and type(ts) is Timespan:
                    continue
                new = n.normalize(ts)
                g = (obs(new.begin_time), obs(new.end_time), new.duration)
                rep.expect(g == exp and type(new) is type(ts), lambda: f"[TZ={loc}] {ts!r} normalized by {name} {nf!r} {nw!r} is {new!r}, expected {exp}", "norm-timespan")
            e.timespan = before.timespan
            rep.expect(e == before, lambda: f"other attributes of {before} changed: {e}", "norm-others")
        rep.state((loc, r, repr(nf), repr(nw), call))
    # single values
    for w, z in itertools.product([datetime(2020, 7, 1, 10), datetime(2020, 1, 1, 10)], [None, "utc", "icsber"]):
        n = Normalization(replacement, nf, nw)
        rep.step()
        exp = norm_model(w, z, name, nf, nw, loc)
        g = obs(n.normalize(w.replace(tzinfo=zone(z))))
        rep.expect(g == exp, lambda: f"[TZ={loc}] {w} {z} normalized by {name} {nf!r} {nw!r} is {g}, expected {exp}", "norm-value")
        if z is None:
            g = [obs(n.normalize(x)) for x in (w.date(), (w.year, w.month, w.day), dict(year=w.year, month=w.month, day=w.day))]
            exp = norm_model(datetime(w.year, w.month, w.day), None, name, nf, nw, loc)
            rep.expect(g == [exp] * 3, lambda: f"[TZ={loc}] {w.date()} normalized by {name} {nf!r} {nw!r} is {g}, expected {exp}", "norm-value")
    rep.expect(Normalization(replacement, nf, nw).normalize(None) is None, "None", "norm-value")


def run_misc(rep):
    rep.state("misc")
    for f in ("replace_timezone", "convert_timezone"):
        for z in (None, "utc", "icsber"):
            for o in (build_entry(ENTRIES[4]), build_entry(ENTRIES[8]), build_entry(ENTRIES[4]).timespan):
                rep.step()
                before = str(o)
                try:
                    r = getattr(o, f)(zone(z))
                    rep.fail(f"{f} of all-day {o} returned {r}", "allday")
                except ValueError:
                    rep.outcome("rejected")
                rep.expect(str(o) == before, "changed", "allday")
    cal = Calendar(events=[build_entry(ENTRIES[0])])
    for args, kw in (((True,), {}), ((), {"normalize_with_tz": True})):
        rep.step()
        try:
            cal.normalize(Normalization(zone("utc")), *args, **kw)
            rep.fail("extra arguments were accepted", "args")
        except ValueError:
            rep.outcome("rejected")
    # converting and back
    for a, b in itertools.permutations(ZONES, 2):
        e = Event(begin=datetime(2020, 7, 1, 10, tzinfo=zone(a)), end=datetime(2020, 7, 1, 12, tzinfo=zone(a)))
        before = e.timespan
        e.convert_timezone(zone(b))
        e.convert_timezone(zone(a))
        rep.step()
        rep.expect((obs(e.begin), obs(e.end)) == (obs(before.begin_time), obs(before.end_time)), lambda: f"{before} converted to {b} and back is {e}", "back")

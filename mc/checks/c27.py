"""C27: timezones are found by all their names, and tzinfos of the standard library and of dateutil are converted to timezones saying the same."""
import itertools
import os
import time
import warnings
from datetime import datetime, timedelta, timezone, tzinfo
from zoneinfo import ZoneInfo, available_timezones

import dateutil.tz
import ics_vtimezones

from ics import Calendar, Event, Timezone
from ics.timezone import UTC, TimezoneDaylightObservance, TimezoneStandardObservance, ensure_utc, is_utc, now_in_utc
from ics.timezone.converters import Timezone_from_tzinfo
from mc import ref

PROPERTY = "C27"
BOUNDS = {
    "quick": "all 593 Olson names x 9 spellings, all 137 Windows names, near misses of every name; every Olson zone as ZoneInfo and dateutil zone: from_tzinfo, and events in it written and read; all fixed offsets of full minutes "
    "(-23:59..23:59) and 40 with seconds, named and unnamed; is_utc of every zone of all kinds; all histories of <=3 conversions of 14 tzinfos sharing a context; to_builtin of custom zones with every name; all offsets of constant zones",
    "thorough": "all histories of <=4 conversions, events at 24 times per zone",
}
ASSUMPTIONS = ["the library's timezone database contains the rules of 2020 only; events are compared with the tzinfo only at times at which the database agrees with it"]
CASE_TIMEOUT = 300
U = timezone.utc
NAMES = sorted(str(n) for n in ics_vtimezones.ZONEINFO_LIST)
WIN = sorted(ics_vtimezones.WINDOWS_ZONE_MAPPING)
UTCS = {"UTC", "Etc/UTC"}
UTC_ALIASES = {"UCT", "Etc/UCT", "Zulu", "Etc/Zulu", "Universal", "Etc/Universal"}
PREFIXES = ["", "/ics.py/2020.1/", "/mozilla.org/20050126_1/", "/freeassociation.sourceforge.net/", "/softwarestudio.org/Olson_20011030_5/", "x/", "/", "//", "/a/b/c/d/"]


class Custom(tzinfo):
    def utcoffset(self, dt):
        return timedelta(hours=3)

    def dst(self, dt):
        return timedelta(0)

    def tzname(self, dt):
        return "Custom"


class Named(Custom):
    """unknown class whose text is the name of a zone"""

    def __str__(self):
        return "Europe/Berlin"


class Unhashable(Custom):
    __hash__ = None

    def __eq__(self, other):
        return self is other


POOL = {
    "utc": lambda: timezone.utc, "tzutc": lambda: dateutil.tz.tzutc(), "ics": lambda: UTC, "zi": lambda: ZoneInfo("UTC"), "ziber": lambda: ZoneInfo("Europe/Berlin"), "duber": lambda: dateutil.tz.gettz("Europe/Berlin"),
    "icsber": lambda: Timezone.from_tzid("Europe/Berlin"), "p1": lambda: timezone(timedelta(hours=1)), "p1n": lambda: timezone(timedelta(hours=1), "one"), "m1n": lambda: timezone(timedelta(hours=-1), "one"), "local": lambda: dateutil.tz.tzlocal(),
    "custom": lambda: Custom(), "named": lambda: Named(), "unhash": lambda: Unhashable(), "str": lambda: dateutil.tz.tzstr("EST5EDT,M3.2.0,M11.1.0"),
}
ERR = {"custom", "named", "unhash", "str"}


def conv(fn, *a):
    try:
        return fn(*a)
    except ValueError:
        return "ValueError"


def offsets():
    for m in range(-24 * 60 + 1, 24 * 60):
        yield timedelta(minutes=m)
    for s in (1, 59, 60 * 30 + 30, 3599, 3661, 12 * 3600 + 1):
        yield timedelta(seconds=s)
        yield -timedelta(seconds=s)


def cases(tier):
    th = tier == "thorough"
    for i in range(0, len(NAMES), 8):
        yield ["names", i, th]
    for i in range(0, len(WIN), 8):
        yield ["win", i]
    for i in range(0, 2891, 60):
        yield ["offset", i]
    for a in POOL:
        for b in [None, *POOL]:
            yield ["hist", a, b, 4 if th else 3]
    for n in POOL:
        yield ["write", n]
    yield ["utc"]


def event_text(begin_line):
    return f"BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20200101T000000Z\r\n{begin_line}\r\nEND:VEVENT\r\nEND:VCALENDAR"


def roundtrip(dt):
    return Calendar(Calendar(events=[Event("e", begin=dt, uid="u")]).serialize()).events[0].begin


def times(th):
    for m in range(1, 13) if th else (1, 4, 7, 10):
        for d in (1, 20) if th else (12,):
            yield datetime(2020, m, d, 12 + d % 7, 34, 56)


def check_name(name, th, rep):
    tz = Timezone.from_tzid(name)
    rep.state(name)
    for p in PREFIXES:
        rep.step()
        t = Timezone.from_tzid(p + name)
        rep.expect(t == tz and t.tzid == tz.tzid and t.observances == tz.observances, lambda: f"{p + name} is found as {t!r} instead of {tz!r}", key="prefix")
        rep.expect(t.is_builtin and t.to_builtin() is t, lambda: f"{p + name} isn't builtin", key="builtin")
        # the same within a file that doesn't define the zone
        got = Calendar(event_text(f"DTSTART;TZID={p}{name}:20200715T120000")).events[0].begin
        if p == "":
            rep.expect(got.utcoffset() == tz.utcoffset(datetime(2020, 7, 15, 12)), lambda: f"TZID={name} is read with offset {got.utcoffset()}", key="tzid")
    again = Timezone.from_tzid(tz.tzid)
    rep.expect(again == tz and str(tz) == tz.tzid and tz.tzid in repr(tz), lambda: f"{tz.tzid} isn't found", key="again")
    # near misses
    for bad in (name + "x", name.lower() if name.lower() not in NAMES else "/", name[:-1] if name[:-1] not in NAMES else "/", name + ".ics", name.replace("/", " / ") if "/" in name else name + " ", "x" + name if "x" + name not in NAMES else "/", name.replace("/", "") if "/" in name else "-" + name):
        if bad in WIN or bad.rstrip("/").split("/")[-1] in NAMES or any(bad.endswith("/" + n) for n in NAMES) or bad in NAMES:
            continue
        rep.step()
        r = conv(Timezone.from_tzid, bad)
        rep.expect(r == "ValueError", lambda: f"{bad!r} is found as {r!r}", key="nearmiss")
    # zones of a file with this name
    for std, same in ((tz.observances, True), ([TimezoneStandardObservance(timedelta(hours=1), timedelta(hours=2), UTC.observances[0].rrule)], False)):
        own = Timezone(name, list(std))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            b = own.to_builtin()
        rep.step()
        if is_utc(own):
            rep.expect(own.is_builtin and b is own, lambda: f"to_builtin of own {name}", key="to_builtin")
            continue
        rep.expect(not own.is_builtin and b == tz and b.is_builtin, lambda: f"to_builtin of own {name} gives {b!r}", key="to_builtin")
        rep.expect(bool(w) is not same, lambda: f"to_builtin of own {name} ({'same' if same else 'other'} observances): {len(w)} warnings", key="to_builtin-warn")
    # other kinds of zones with that name
    others = {}
    if name in AVAILABLE:
        others["zoneinfo"] = ZoneInfo(name)
    d = dateutil.tz.gettz(name)
    if d is not None:
        others["dateutil"] = d
    for kind, o in others.items():
        got = Timezone.from_tzinfo(o)
        rep.step()
        utc = is_utc(o)
        if kind == "zoneinfo":
            rep.expect(utc is (name in UTCS), lambda: f"is_utc of the zoneinfo zone {name} is {utc}", key="is_utc")
        else:
            rep.expect(not utc or name in UTCS | UTC_ALIASES, lambda: f"is_utc of the dateutil zone {name} is {utc}", key="is_utc")
        if utc:
            rep.expect(got is UTC, lambda: f"{kind} {name} is converted to {got!r}", key="from_tzinfo")
        elif kind == "dateutil" and not getattr(o, "_filename", None):
            continue
        else:
            want = tz
            rep.expect(got == want and got.tzid == want.tzid, lambda: f"{kind} {name} is converted to {got!r}", key="from_tzinfo")
        for t in times(th):
            for fold in (0, 1):
                x = t.replace(tzinfo=o, fold=fold)
                if x.utcoffset() != tz.utcoffset(t):
                    rep.outcome("other version of the database")
                    continue
                back = roundtrip(x)
                rep.step()
                rep.expect(back.utcoffset() == x.utcoffset() and back.replace(tzinfo=None) == t and back == x, lambda: f"{x} ({kind}) is read back as {back}", key="instant")
                rep.outcome("instant")
    rep.expect(is_utc(tz) is (tz.tzid.split("/2020.1/")[-1] in UTCS) or is_utc(tz) is False, lambda: f"is_utc({tz})", key="is_utc")
    if is_utc(tz):
        rep.expect(all(tz.utcoffset(t) == timedelta(0) for t in times(True)), lambda: f"is_utc({tz}), but its offset isn't 0", key="is_utc")
    rep.trace()


NEAR_UTC = ["X-UTC", "My/UTC", "/UTC", "UTC+1", "UTC/x", "U", "Etc/UTC2", "UTC ", "Etc", "GMT", "Z", "Zulu"]
AVAILABLE = available_timezones()


def check_offset(off, rep):
    for tz in (timezone(off), timezone(off, "Own name"), timezone(off, ""), timezone(off, "+05:00")):
        rep.step()
        got = Timezone.from_tzinfo(tz)
        utc = off == timedelta(0) and tz == timezone.utc
        name = tz.tzname(None)
        rep.expect(got is UTC if is_utc(tz) else got.tzid == name, lambda: f"{tz!r} is converted to {got!r}", key="offset-name")
        rep.expect(not is_utc(tz) or off == timedelta(0), lambda: f"is_utc({tz!r})", key="is_utc")
        rep.expect(is_utc(tz) or not utc, lambda: f"not is_utc({tz!r})", key="is_utc")
        for t in (datetime(2020, 1, 1), datetime(2020, 7, 1, 12, 30, 59), datetime(1970, 1, 2), datetime(2037, 12, 31)):
            x = t.replace(tzinfo=tz)
            rep.expect(got.utcoffset(t) == off and got.dst(t) == timedelta(0) and t.replace(tzinfo=got) == x and (got is UTC or got.tzname(t) == name), lambda: f"{tz!r}: offset {got.utcoffset(t)} at {t}", key="offset")
            rep.expect(x.astimezone(got).replace(tzinfo=None) == t and x.astimezone(got).astimezone(U) == x, lambda: f"{x} as {got!r} is {x.astimezone(got)}", key="offset-conv")
        back = roundtrip(datetime(2020, 7, 1, 12, 30, 59, tzinfo=tz)) if name else None
        if name:
            rep.expect(back == x.replace(year=2020, month=7, day=1, hour=12, minute=30, second=59) and back.utcoffset() == off, lambda: f"{tz!r} is read back as {back!r}", key="offset-rt")
    e = ensure_utc(datetime(2020, 1, 1, 12, tzinfo=timezone(off)))
    rep.expect(is_utc(e) and e.replace(tzinfo=None) == datetime(2020, 1, 1, 12) - off, lambda: f"ensure_utc with offset {off}: {e}", key="ensure_utc")
    rep.state(off)
    rep.trace()


def desc(r):
    return r if r is None or isinstance(r, str) else (r.tzid, [(type(o).__name__, o.tzoffsetfrom, o.tzoffsetto, o.tzname) for o in r.observances], r == UTC)


def run_case(case, rep):
    if case[0] in ("hist", "write"):
        set_local("America/New_York")
        try:
            run_case_(case, rep)
        finally:
            set_local("UTC")
    else:
        run_case_(case, rep)


def set_local(tz):
    os.environ["TZ"] = tz
    time.tzset()


def run_case_(case, rep):
    kind = case[0]
    if kind == "names":
        for n in NAMES[case[1] : case[1] + 8]:
            check_name(n, case[2], rep)
    elif kind == "win":
        for w in WIN[case[1] : case[1] + 8]:
            rep.step()
            rep.state(w)
            tz = Timezone.from_tzid(w)
            olson = ics_vtimezones.WINDOWS_ZONE_MAPPING[w]
            rep.expect(tz == Timezone.from_tzid(w if w in NAMES else olson), lambda: f"{w} is found as {tz!r} instead of {olson}", key="windows")
            got = Calendar(event_text(f'DTSTART;TZID="{w}":20200715T120000')).events[0].begin
            rep.expect(got.utcoffset() == tz.utcoffset(datetime(2020, 7, 15, 12)) and got.replace(tzinfo=None) == datetime(2020, 7, 15, 12), lambda: f"TZID={w} is read as {got}", key="windows")
            if tz.tzid == w:
                continue
            # a zone the file defines takes precedence
            own = event_text(f'DTSTART;TZID="{w}":20200715T120000').replace("BEGIN:VEVENT", f"BEGIN:VTIMEZONE\r\nTZID:{w}\r\nBEGIN:STANDARD\r\nDTSTART:19700101T000000\r\nTZOFFSETFROM:+1111\r\nTZOFFSETTO:+1111\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\nBEGIN:VEVENT")
            if not is_utc(Timezone(w, UTC.observances)):
                got = Calendar(own).events[0].begin
                rep.expect(got.utcoffset() == timedelta(hours=11, minutes=11), lambda: f"defined TZID={w} is read as {got}", key="windows-defined")
            for bad in (w + " ", w.lower(), w[:-1], w + "/x"):
                r = conv(Timezone.from_tzid, bad)
                rep.expect(r == "ValueError" or bad in NAMES, lambda: f"{bad!r} is found as {r!r}", key="nearmiss")
                rep.step()
            rep.trace()
    elif kind == "offset":
        for off in list(offsets())[case[1] : case[1] + 60]:
            check_offset(off, rep)
    elif kind == "hist":
        objs = {n: f() for n, f in POOL.items()}
        alone = {n: desc(conv(Timezone_from_tzinfo, o)) for n, o in objs.items()}
        pre = case[1:3] if case[2] else case[1:2]
        for n in range(0, case[3] - len(pre) + 1 if case[2] else 1):
            for rest in itertools.product(POOL, repeat=n):
                ctx = {}
                for name in [*pre, *rest]:
                    rep.step()
                    got = desc(conv(Timezone_from_tzinfo, objs[name], ctx))
                    rep.expect(got == alone[name], lambda: f"{pre} {rest}: {name} is converted to {got}, alone to {alone[name]}", key="history")
                    got = desc(conv(Timezone_from_tzinfo, POOL[name](), ctx))
                    rep.expect(got == alone[name], lambda: f"{pre} {rest}: new {name} is converted to {got}, alone to {alone[name]}", key="history")
                rep.state((pre, rest))
        rep.expect(alone["local"] is None and all((alone[n] == "ValueError") == (n in ERR) for n in POOL), lambda: f"{alone}", key="kinds")
        rep.trace()
    elif kind == "write":
        n = case[1]
        dt = datetime(2020, 7, 1, 12, tzinfo=POOL[n]())
        for m in POOL:
            dt2 = datetime(2020, 7, 2, 13, tzinfo=POOL[m]())
            cal = Calendar(events=[Event("a", begin=dt, uid="a"), Event("b", begin=dt2, uid="b")])
            r = conv(cal.serialize)
            rep.step()
            rep.state((n, m))
            if n in ERR or m in ERR:
                rep.expect(r == "ValueError", lambda: f"times in {n}, {m} are written as {r}", key="unserializable")
                continue
            if {n, m} == {"p1n", "m1n"}:
                continue  # known finding tzid-collision of C18
            c2 = Calendar(r)
            for a, b, k in ((dt, c2.events[0].begin, n), (dt2, c2.events[1].begin, m)):
                if k == "local":
                    rep.expect(b.tzinfo is None and a.replace(tzinfo=None) == b, lambda: f"local {a} is read as {b}", key="local")
                else:
                    rep.expect(a == b and a.utcoffset() == b.utcoffset(), lambda: f"{k}: {a} is read as {b}", key="write")
            tzids = [t.props("TZID")[0][2] for t in ref.parse(r)[0].subs("VTIMEZONE")]
            rep.expect(len(tzids) == len(set(tzids)), lambda: f"{tzids}", key="once")
        rep.trace()
    else:
        good = [timezone.utc, dateutil.tz.tzutc(), dateutil.tz.UTC, UTC, ZoneInfo("UTC"), ZoneInfo("Etc/UTC"), Timezone("utc", UTC.observances), Timezone("Etc/UTC", UTC.observances), ZoneInfo.no_cache("UTC")]
        for g in good:
            for v in (g, datetime(2020, 1, 1, tzinfo=g), datetime(2020, 1, 1, tzinfo=g).timetz()):
                rep.step()
                rep.expect(is_utc(v) is True, lambda: f"is_utc({v!r}) is False", key="is_utc")
            x = ensure_utc(datetime(2020, 1, 1, 5, tzinfo=g))
            rep.expect(x == datetime(2020, 1, 1, 5, tzinfo=U) and x.hour == 5, lambda: f"ensure_utc in {g!r}: {x}", key="ensure_utc")
            line = ref.parse(Calendar(events=[Event("a", begin=datetime(2020, 7, 1, 12, tzinfo=g), uid="u")]).serialize())[0]
            rep.expect(line.subs("VEVENT")[0].props("DTSTART")[0][2] == "20200701T120000Z", lambda: f"{g!r}: {line.subs('VEVENT')[0].props('DTSTART')}", key="utc-written")
            rep.expect(not line.subs("VTIMEZONE"), lambda: f"VTIMEZONE for {g!r}", key="utc-def")
            rep.state(repr(g))
        for b in [None, *(POOL[n]() for n in ("ziber", "duber", "icsber", "p1", "custom", "named", "str")), Timezone("UTCx", UTC.observances), *(Timezone(n, [TimezoneStandardObservance(timedelta(0), timedelta(hours=1), UTC.observances[0].rrule, "N")]) for n in NEAR_UTC), *(timezone(timedelta(hours=1), n) for n in NEAR_UTC), timezone(timedelta(seconds=1)), timezone(timedelta(hours=1), "GMT"), dateutil.tz.tzoffset("GMT", 3600)]:
            for v in (b, datetime(2020, 1, 1, tzinfo=b), datetime(2020, 1, 1, tzinfo=b).timetz()):
                rep.step()
                rep.expect(is_utc(v) is False, lambda: f"is_utc({v!r}) is True", key="is_utc")
            rep.state(repr(b))
        t0 = datetime.now(tz=U)
        n = now_in_utc()
        rep.expect(is_utc(n) and t0 - timedelta(seconds=1) <= n <= t0 + timedelta(seconds=60), lambda: f"now_in_utc: {n}", key="now")
        for tzn in ("UTC", "America/New_York", "Asia/Kolkata"):
            set_local(tzn)
            try:
                t0 = datetime.now(tz=U)
                n = now_in_utc()
                rep.expect(is_utc(n) and t0 - timedelta(seconds=1) <= n <= t0 + timedelta(seconds=60), lambda: f"now_in_utc with local zone {tzn}: {n}", key="now")
                want = datetime(2020, 7, 1, 12, tzinfo=ZoneInfo(tzn)).astimezone(U)
                got = ensure_utc(datetime(2020, 7, 1, 12))
                rep.expect(got == want and is_utc(got), lambda: f"ensure_utc of a local time in {tzn}: {got}", key="ensure_utc")
            finally:
                set_local("UTC")
        rep.expect(ensure_utc(None) is None, "ensure_utc(None)", key="ensure_utc")
        rep.trace()

"""Palette of intervals shared by the checks of relations, orderings and timelines, with an independent model in absolute instants."""
import itertools
import os
import time as _time
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

from ics import Event, EventTimespan, Timespan, Timezone, Todo, TodoTimespan

BASE = datetime(2020, 7, 1)
LOCALS = ["UTC", "Europe/Berlin", "America/New_York", "Pacific/Kiritimati"]
_cache = {}


def set_local(tzname):
    os.environ["TZ"] = tzname
    _time.tzset()


def zone(name):
    if name is None:
        return None
    if name not in _cache:
        _cache[name] = {
            "utc": lambda: timezone.utc,
            "ber": lambda: Timezone.from_tzid("Europe/Berlin"),
            "ny": lambda: ZoneInfo("America/New_York"),
            "p5": lambda: timezone(timedelta(hours=5, minutes=30)),
        }[name]()
    return _cache[name]


MODEL = {"utc": "UTC", "ber": "Europe/Berlin", "ny": "America/New_York"}


def hours(h):
    """fractions of hours are used for whole seconds"""
    return timedelta(seconds=round(h * 3600))


def wall(h):
    return BASE + hours(h)


def instant(w, z, local):
    """absolute time of the wall clock time w in zone z (None: local time)"""
    if w is None:
        return None
    if z == "p5":
        return (w - timedelta(hours=5, minutes=30)).replace(tzinfo=timezone.utc)
    tz = ZoneInfo(local if z is None else MODEL[z])
    return w.replace(tzinfo=tz).astimezone(timezone.utc)


class Span:
    """A description of an interval: begin and end in hours after BASE (or None), representation of the end, zone and all-day flag."""

    def __init__(self, b, e, how="end", z=None, allday=False):
        self.b, self.e, self.how, self.z, self.allday = b, e, how, z, allday

    def token(self):
        return [self.b, self.e, self.how, self.z, self.allday]

    def timespan(self, cls=EventTimespan):
        z = zone(self.z)
        b = None if self.b is None else wall(self.b).replace(tzinfo=z)
        kw = {}
        if self.e is not None:
            if self.how == "end":
                kw["end_time"] = wall(self.e).replace(tzinfo=z)
            elif self.how == "duration":
                kw["duration"] = hours(self.e - self.b)
        return cls(b, precision="day" if self.allday else "second", **kw)

    def entity(self, cls, **kw):
        return cls(timespan=self.timespan(EventTimespan if cls is Event else TodoTimespan), **kw)

    def build(self, kind, **kw):
        if kind == "span":
            return self.timespan(Timespan)
        if kind == "espan":
            return self.timespan(EventTimespan)
        if kind == "tspan":
            return self.timespan(TodoTimespan)
        return self.entity({"event": Event, "todo": Todo}[kind], **kw)

    def instants(self, kind, local):
        """(begin, effective end) as absolute times, None if there is none"""
        b = None if self.b is None else instant(wall(self.b), self.z, local)
        e = None
        if self.e is not None:
            e = instant(wall(self.e), self.z, local)
        elif self.b is not None and kind in ("event", "espan"):
            e = instant(wall(self.b + (24 if self.allday else 0)), self.z, local)
        return b, e


FALL = datetime(2020, 10, 25)  # 02:00 to 03:00 are repeated in Europe/Berlin


def fall_zone(name):
    """zones with a repeated hour, also several tzinfo objects for one zone"""
    if name not in _cache:
        _cache[name] = {
            "ber2": lambda: Timezone.from_container(zone("ber").to_container()),
            "zi": lambda: ZoneInfo("Europe/Berlin"),
        }[name]() if name in ("ber2", "zi") else zone(name)
    return _cache[name]


class FallSpan(Span):
    """An interval at the end of DST: ends are (minutes after FALL, fold) in the wall clock of the zone."""

    def __init__(self, *args, base=FALL):
        super().__init__(*args)
        self.base = base

    def token(self):
        return ["fall", str(self.base), self.b, self.e, self.how, self.z]

    def ambiguous(self):
        return self.z not in (None, "utc") and any(x is not None and 120 <= x[0] < 180 for x in (self.b, self.e))

    def wall(self, x):
        return (self.base + timedelta(minutes=x[0])).replace(fold=x[1])

    def inst(self, x, local):
        tz = ZoneInfo(local if self.z is None else "UTC" if self.z == "utc" else "Europe/Berlin")
        return self.wall(x).replace(tzinfo=tz).astimezone(timezone.utc)

    def timespan(self, cls=EventTimespan):
        z = fall_zone(self.z) if self.z else None
        b = None if self.b is None else self.wall(self.b).replace(tzinfo=z)
        kw = {}
        if self.e is not None:
            if self.how == "end":
                kw["end_time"] = self.wall(self.e).replace(tzinfo=z)
            else:
                kw["duration"] = timedelta(minutes=self.e[0] - self.b[0])
        return cls(b, **kw)

    def instants(self, kind, local):
        b = None if self.b is None else self.inst(self.b, local)
        if self.e is not None:
            return b, self.inst(self.e, local)
        return b, b if self.b is not None and kind in ("event", "espan") else None


def fall_spans(zones=(None, "utc", "ber", "ber2", "zi")):
    pts = [(90, 0), (135, 0), (150, 0), (135, 1), (150, 1), (180, 0), (240, 0)]
    out = []
    n = 0
    for z in zones:
        for b, e in itertools.combinations_with_replacement(pts, 2):
            if z == "utc":
                b, e = ((x[0] - (120 if x[0] < 180 and not x[1] else 60), 0) for x in (b, e))
            if b[0] > e[0]:
                continue  # compared by the wall clock, rejected
            how = "duration" if n % 2 and not e[1] else "end"
            n += 1
            out.append(FallSpan(b, e, how, z))
    return out

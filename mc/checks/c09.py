"""C09: making something all-day covers exactly the touched days; changing the representation of the end never moves it."""
import itertools
from datetime import date, datetime, timedelta, timezone
from zoneinfo import ZoneInfo

import ics
from ics import Event, EventTimespan, Timespan, Timezone, Todo, TodoTimespan

PROPERTY = "C09"
BOUNDS = {
    "quick": "all (begin, length) pairs over 26 begin times of day (incl. the last/first seconds and microseconds) on 7 days (leap, year end, DST changes) x 70 lengths, "
    "with end, duration or neither, for 3 kinds of timespan, naive / UTC / DST zone; all chains of <=3 representation changes (of <=2 for begin and end in different zones); followed by going back to timed",
    "thorough": "every quarter of an hour of the day as begin time in addition, x 110 lengths",
}
ASSUMPTIONS = ["lengths are at most half a second above whole seconds (others are rejected as too precise); days are counted on the wall clock of the event's own zone", "ends at the second occurrence of a time which is repeated in the zone of the begin can't be expressed by a duration"]

DAYS = [date(2020, 2, 28), date(2020, 2, 29), date(2019, 12, 31), date(2020, 3, 28), date(2020, 3, 29), date(2020, 10, 25), date(1, 1, 1)]
MIXED_DAYS = [date(2020, m, d) for m, d in ((1, 1), (3, 7), (3, 8), (3, 28), (3, 29), (7, 1), (10, 24), (10, 25), (10, 31), (11, 1))]
D1 = timedelta(days=1)


def times(th):
    t = [(0, 0, 0), (0, 0, 1), (0, 0, 59), (0, 1, 0), (0, 59, 59), (1, 0, 0), (1, 59, 59), (2, 0, 0), (2, 30, 0), (3, 0, 0), (4, 0, 0), (6, 0, 0), (11, 59, 59),
         (12, 0, 0), (12, 0, 1), (18, 0, 0), (22, 0, 0), (22, 59, 59), (23, 0, 0), (23, 59, 0), (23, 59, 58), (23, 59, 59),
         (0, 0, 0, 1), (0, 0, 0, 500000), (12, 0, 0, 123456), (23, 59, 59, 999999)]
    return t + [(h, m, 0) for h in range(24) for m in range(0, 60, 15)] if th else t


def lengths(th):
    base = [0, 1, 2, 59, 60, 3599, 3600, 3601, 7200, 43199, 43200, 43201, 82799, 82800, 86398, 86399, 86400, 86401, 86400 + 3600, 86400 * 2 - 1, 86400 * 2, 86400 * 2 + 1,
            86400 * 3 - 1, 86400 * 3, 86400 * 7, 86400 * 30 + 1, 86400 * 366, 1000, 5400, 9000, 10800, 14400, 18000, 21600, 25200, 28800, 36000, 50400, 64800, 79200, 79201, 90000,
            100000, 129600, 129599, 129601, 150000, 172799, 200000, 604799, 604801, 2592000, 31536000, 31622400, 5, 10, 30, 300, 600, 900,
            0.000001, 0.4, 1.4, 59.000001, 86399.4, 86400.000001, 86400.4, 172799.000001, 172800.000001]
    return sorted(set(base + [i * 3607 for i in range(40)])) if th else base


def zones():
    return {"naive": None, "utc": timezone.utc, "ics": Timezone.from_tzid("Europe/Berlin"), "zi": ZoneInfo("America/New_York")}


def cases(tier):
    th = tier == "thorough"
    for d in range(len(DAYS)):
        for t in times(th):
            yield ["allday", d, list(t), th]
    for d in range(len(DAYS)):
        yield ["reps", d]
    for d in range(len(MIXED_DAYS)):
        yield ["mixed", d]
    yield ["dueonly"]


def touched(begin, end):
    """the set of days [first, last] having an instant in the half-open interval, or the begin's day if it is empty; wall clock"""
    first = begin.date()
    last = first
    if end > begin:
        last = (end - timedelta(microseconds=1)).date()
    return first, last


def run_case(case, rep):
    rep.trace()
    if case[0] == "allday":
        run_allday(DAYS[case[1]], case[2], case[3], rep)
    elif case[0] == "reps":
        run_reps(DAYS[case[1]], rep)
    elif case[0] == "mixed":
        run_mixed(MIXED_DAYS[case[1]], rep)
    else:
        run_dueonly(rep)


def run_allday(day, t, th, rep):
    zs = zones()
    for zn, z in zs.items():
        if z is not None and day.year < 1900 and zn in ("ics", "zi"):
            continue
        b = datetime(day.year, day.month, day.day, *t, tzinfo=z)
        wall = b.replace(tzinfo=None)
        for how in ("end", "duration", "none"):
            for secs in lengths(th) if how != "none" else [0]:
                if zn not in ("naive", "ics") and secs % 2 == 1:
                    continue
                e_wall = wall + timedelta(seconds=secs)
                for cls in (EventTimespan, TodoTimespan, Timespan):
                    if cls is not EventTimespan and secs > 4000 and secs % 3 and not th:
                        continue
                    rep.step()
                    kw = {}
                    if how == "end":
                        kw["end_time"] = e_wall.replace(tzinfo=z)
                    elif how == "duration":
                        kw["duration"] = timedelta(seconds=secs)
                    ts = cls(b, **kw)
                    new = ts.make_all_day()
                    first, last = touched(wall, e_wall)
                    rep.state((first, last, how, cls.__name__, zn))
                    ok = new.is_all_day() and new.get_begin() == datetime.combine(first, datetime.min.time()) and new.get_begin().tzinfo is None
                    exp_end = datetime.combine(last, datetime.min.time()) + D1
                    if how == "none" and cls is not EventTimespan:
                        ok = ok and new.end_time is None and new.duration is None
                    else:
                        ok = ok and new.get_effective_end() == exp_end and new.get_effective_duration() == exp_end - new.get_begin()
                        ok = ok and (new.get_end_representation() == ("duration" if how == "duration" else "end"))
                    if not rep.expect(ok, lambda: f"{ts} made all-day is {new}, but it touches the days {first} to {last}", "allday"):
                        continue
                    rep.expect(new.make_all_day() == new, lambda: f"making {new} all-day again changes it", "idempotent")
                    # back to timed: the covered instants don't change
                    back = new.replace(precision="second")
                    rep.expect(
                        not back.is_all_day() and back.get_begin() == new.get_begin() and (how == "none" or back.get_effective_end() == new.get_effective_end()),
                        f"{new} made timed is {back}", "unset",
                    )
                    again = back.make_all_day()
                    if how != "none" or cls is not EventTimespan:
                        rep.expect(again == new, lambda: f"{new} -> timed -> all-day is {again}", "again")
                if secs % 7 == 0:
                    ev = Event(begin=b, **({"end": kw["end_time"]} if how == "end" else {"duration": kw["duration"]} if how == "duration" else {}))
                    ev.make_all_day()
                    rep.step()
                    rep.expect(ev.all_day and (ev.begin, ev.end) == (datetime.combine(first, datetime.min.time()), exp_end), lambda: f"event {ev} instead of {first} - {exp_end}", "event")
                    ev.unset_all_day()
                    rep.expect(not ev.all_day and (ev.begin, ev.end) == (datetime.combine(first, datetime.min.time()), exp_end), lambda: f"event {ev} after going back to timed", "event")


def run_reps(day, rep):
    """chains of representation changes on entities and timespans"""
    for (zn, z), secs, hh, how in itertools.product(zones().items(), [0, 0.4, 1, 3600, 86399, 86400, 86400.4, 86401, 172800, 86400 * 400], [0, 1, 12, 23], ["end", "duration"]):
        if z is not None and day.year < 1900 and zn in ("ics", "zi"):
            continue
        b = datetime(day.year, day.month, day.day, hh, tzinfo=z)
        e = b + timedelta(seconds=secs)
        for allday in (False, True):
            for cls in (Event, Todo):
                base = cls(begin=b, **({("end" if cls is Event else "due"): e} if how == "end" else {"duration": timedelta(seconds=secs)}))
                if allday:
                    base.make_all_day()
                for chain in itertools.product(["end", "duration"] + (["due"] if cls is Todo else []), repeat=3 if hh == 1 else 2):
                    x = base.clone()
                    for target in chain:
                        rep.step()
                        before = (x.begin, x.end, x.duration, x.all_day)
                        x.convert_end(target)
                        after = (x.begin, x.end, x.duration, x.all_day)
                        rep.expect(before == after, lambda: f"{base}: converting the end to {target} changed {before} to {after}", "convert")
                        exp = "duration" if target == "duration" else "end"
                        rep.expect(x.end_representation == exp, lambda: f"{base}: end representation after converting to {target} is {x.end_representation}", "rep")
                    rep.state((str(base), chain[-1]))
                x = base.clone()
                x.convert_end(None)
                rep.expect(x.begin == base.begin and x.end_representation is None and not x.has_explicit_end, lambda: f"{base}: removing the end gave {x}", "none")


def run_mixed(day, rep):
    """begin and end in different zones"""
    zs = {k: v for k, v in zones().items() if v is not None}
    for (bn, bz), (en, ez), secs, hh in itertools.product(zs.items(), zs.items(), MIXED_LENGTHS, [0, 1, 2, 12, 23]):
        if bn == en:
            continue
        b = datetime(day.year, day.month, day.day, hh, tzinfo=bz)
        u = b.astimezone(timezone.utc) + timedelta(seconds=secs)
        e = u.astimezone(ez)
        if e.fold or e.astimezone(timezone.utc) != u or u.astimezone(bz).fold:
            continue  # the second occurrence of a time isn't expressible
        for cls in (Event, Todo, EventTimespan, TodoTimespan, Timespan):
            if cls is Event:
                base = cls(begin=b, end=e)
            elif cls is Todo:
                base = cls(begin=b, due=e)
            else:
                base = cls(b, e)
            for chain in itertools.product(["end", "duration"] + (["due"] if cls in (Todo, TodoTimespan) else []), repeat=2):
                x = base.clone() if cls in (Event, Todo) else base
                for target in chain:
                    rep.step()
                    if cls in (Event, Todo):
                        x.convert_end(target)
                        ts = x.timespan
                    else:
                        ts = x = x.convert_end(target)
                    got = (ts.get_begin().astimezone(timezone.utc), ts.get_effective_end().astimezone(timezone.utc))
                    exp = (b.astimezone(timezone.utc), u)
                    rep.expect(got == exp, lambda: f"{base}: converting the end to {chain} moved it: {ts}", "convert-mixed")
                    rep.expect(ts.get_end_representation() == ("duration" if target == "duration" else "end"), lambda: f"{base}: end representation after converting to {target} is {ts}", "rep-mixed")
        rep.state(("mixed", bn, en, secs, hh))


MIXED_LENGTHS = [0, 1, 1800, 3600, 5400, 7200, 9000, 10800, 12 * 3600, 86399, 86400, 86401, 90000, 93600, 86400 * 7, 86400 * 90, 86400 * 200, 86400 * 400]


def run_dueonly(rep):
    for t in times(False):
        for z in zones().values():
            for d in DAYS[:-1]:
                rep.step()
                due = datetime(d.year, d.month, d.day, *t, tzinfo=z)
                td = Todo(due=due)
                td.make_all_day()
                exp = datetime(d.year, d.month, d.day) + (D1 if t != (0, 0, 0) else timedelta(0))
                rep.state((exp, z is None))
                rep.expect(td.all_day and td.begin is None and td.due == exp and td.due.tzinfo is None, lambda: f"todo due {due} made all-day is {td}", "due")
    for cls in (EventTimespan, TodoTimespan, Timespan):
        ts = cls()
        rep.expect(ts.make_all_day().is_all_day() and not ts.make_all_day(), "empty timespan", "empty")

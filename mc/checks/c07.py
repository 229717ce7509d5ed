"""C07: dates, times, date-times and periods survive writing and reading exactly; malformed ones are rejected."""
import calendar as pycal
import itertools
import re
from datetime import date, datetime, time, timedelta, timezone
from zoneinfo import ZoneInfo

import dateutil.tz

import ics

ics.initialize_converters()
from ics import Timespan
from ics.timezone import UTC, Timezone
from ics.valuetype.datetime import DateConverter, DatetimeConverter, PeriodConverter, TimeConverter

PROPERTY = "C07"
BOUNDS = {
    "quick": "first/last day of every month of every year 1..9999 and every day of 24 years, every second of the day naive and in 7 spellings of UTC, "
    "every truncated form of every minute, every one-symbol edit of 9 base texts over a 16-symbol alphabet, "
    "all times on a half-hour grid (+-1 s) around the changes of 8 zones; all periods over 14 begin x 14 end x 8 duration x 5 zone kinds",
    "thorough": "every day of every year 1..9999, every second of 8 days, every edit by at most two symbols",
}
ASSUMPTIONS = ["sub-second parts and fold are not expressible in the format", "texts with stray '-', '/' or 'Z' are not judged (or with a space instead of a leading zero are not judged (read leniently)"]

UTCS = [timezone.utc, dateutil.tz.UTC, UTC, ZoneInfo("UTC"), ZoneInfo("Etc/UTC"), Timezone("Etc/UTC", UTC.observances), Timezone("utc", UTC.observances)]
FULL_YEARS = [1, 4, 99, 100, 400, 999, 1000, 1582, 1600, 1752, 1899, 1900, 1904, 1969, 1970, 1999, 2000, 2001, 2020, 2024, 2038, 2100, 9996, 9999]
ALPHA = "0139TtZ :.,+x\n\u0663P"
BASES = ["20240229", "20240229T235959", "20240229T235959Z", "202402", "20240229T23", "20240229T2359", "235959", "2359", "23"]
CONVS = {"date": DateConverter, "datetime": DatetimeConverter, "time": TimeConverter}


def cases(tier):
    th = tier == "thorough"
    for y in range(1, 10000, 50):
        yield ["years", y, min(y + 50, 10000), th]
    for y in FULL_YEARS:
        yield ["years", y, y + 1, True]
    days = [(2024, 2, 29), (1, 1, 1), (9999, 12, 30), (1969, 12, 31), (2020, 3, 29), (2020, 10, 25), (1900, 2, 28), (2037, 12, 31)] if th else [(2024, 2, 29)]
    for d in days:
        for h in range(24):
            yield ["secs", list(d), h]
    for h in range(24):
        yield ["partial", h]
    for b in range(len(BASES)):
        yield ["edit", b, None]
    if th:
        for b in range(len(BASES)):
            for i in range(len(BASES[b]) + 1):
                yield ["edit", b, i]
    yield ["short"]
    for z in ZONED:
        yield ["zoned", z, 300 if th else 1800]
    for i in range(len(PB)):
        yield ["period", i]
    yield ["periodbad"]


PB = [datetime(2024, 2, 29), datetime(2024, 2, 29, 23, 59, 59), datetime(2020, 3, 29, 1, 59), datetime(2020, 3, 29, 3), datetime(2020, 10, 25, 2, 30),
      datetime(1, 1, 2), datetime(999, 12, 31, 23), datetime(9999, 12, 30), datetime(1970, 1, 1), datetime(1969, 12, 31, 23, 59, 59),
      datetime(2000, 1, 1, 0, 0, 1), datetime(2000, 1, 1, 0, 1), datetime(2000, 1, 1, 1), datetime(2038, 1, 19, 3, 14, 8)]
PD = [timedelta(0), timedelta(seconds=1), timedelta(minutes=1), timedelta(hours=1), timedelta(days=1), timedelta(days=1, seconds=1), timedelta(weeks=2), timedelta(hours=23, minutes=59, seconds=59)]


def ref_datetime(s, kind):
    """the value of a strictly well-formed text, None if not well-formed"""
    pats = {
        "date": [r"(\d{4})(\d\d)", r"(\d{4})(\d\d)(\d\d)"],
        "datetime": [r"(\d{4})(\d\d)", r"(\d{4})(\d\d)(\d\d)", r"(\d{4})(\d\d)(\d\d)T(\d\d)", r"(\d{4})(\d\d)(\d\d)T(\d\d)(\d\d)", r"(\d{4})(\d\d)(\d\d)T(\d\d)(\d\d)(\d\d)"],
        "time": [r"(\d\d)", r"(\d\d)(\d\d)", r"(\d\d)(\d\d)(\d\d)"],
    }[kind]
    z = s[-1:] in ("Z", "z")
    body = s[:-1] if z else s
    for p in pats:
        m = re.fullmatch(p, body, re.ASCII)
        if m:
            v = [int(x) for x in m.groups()]
            try:
                if kind == "time":
                    return time(*(v + [0] * (3 - len(v))), tzinfo=timezone.utc if z else None)
                if len(v) == 2:
                    v.append(1)
                if kind == "date":
                    return date(*v)
                return datetime(*v, tzinfo=timezone.utc if z else None)
            except ValueError:
                return None
    return None


def judge_text(conv, kind, s, rep):
    rep.step()
    exp = ref_datetime(s, kind)
    # lenient spellings are not judged
    stripped = re.sub(r"[-/Zz]", "", s).replace(" ", "0")
    if exp is None and (stripped != s or not s.isascii() or "t" in s) and ref_datetime(stripped.upper(), kind) is not None:
        return
    if exp is None and not s.isascii():
        return
    try:
        got = conv.parse(s, {}, {})
    except ValueError:
        got = None
    except Exception as e:
        rep.fail(f"{kind} text {s!r}: rejected with {type(e).__name__} {e} instead of ValueError", key="reject")
        return
    rep.outcome("rejected" if exp is None else "accepted")
    if exp is None:
        rep.expect(got is None, f"malformed {kind} text {s!r} was read as {got!r}", "malformed")
    else:
        same = got is not None and type(got) is type(exp) and got == exp and getattr(got, "tzinfo", None).__class__ is not None
        if same and kind != "date":
            same = (got.tzinfo is None) == (exp.tzinfo is None)
        rep.expect(same, f"{kind} text {s!r} was read as {got!r} instead of {exp!r}", "read")


def rt(conv, v, text, rep, params=None):
    rep.step()
    p = {}
    s = conv.serialize(v, p, {})
    if not rep.expect(s == text and p == {}, f"{v!r} was written as {s!r} {p}, expected {text!r}", "write"):
        return
    back = conv.parse(s, {}, {})
    ok = back == v and type(back) is type(v)
    if ok and hasattr(v, "tzinfo"):
        ok = (back.tzinfo is None) == (v.tzinfo is None)
        if ok and v.tzinfo is not None and not isinstance(v, time):
            ok = back.utcoffset() == timedelta(0) and back.replace(tzinfo=None) == v.replace(tzinfo=None)
    rep.expect(ok, f"{v!r} was written as {s!r} but read back as {back!r}", "roundtrip")


def run_case(case, rep):
    kind = case[0]
    rep.trace()
    rep.state(case)
    if kind == "years":
        for y in range(case[1], case[2]):
            for m in range(1, 13):
                last = pycal.monthrange(y, m)[1]
                for d in range(1, last + 1) if case[3] else (1, last):
                    t = f"{y:04d}{m:02d}{d:02d}"
                    rt(DateConverter, date(y, m, d), t, rep)
                    rt(DatetimeConverter, datetime(y, m, d, 23, 0, 7), t + "T230007", rep)
                    if d == 1:
                        rt(DatetimeConverter, datetime(y, m, d, 0, 9, 0, tzinfo=UTC), t + "T000900Z", rep)
    elif kind == "secs":
        d, h = case[1], case[2]
        ds = "%04d%02d%02d" % tuple(d)
        for m in range(60):
            for s in range(60):
                ts = "%02d%02d%02d" % (h, m, s)
                rt(DatetimeConverter, datetime(*d, h, m, s), f"{ds}T{ts}", rep)
                rt(TimeConverter, time(h, m, s), ts, rep)
                for u in UTCS if s % 10 == 0 or m % 13 == 0 else UTCS[:2]:
                    rt(DatetimeConverter, datetime(*d, h, m, s, tzinfo=u), f"{ds}T{ts}Z", rep)
                    rt_time_utc(time(h, m, s, tzinfo=u), ts + "Z", rep)
    elif kind == "partial":
        h = case[1]
        for m in range(60):
            for z in ("", "Z", "z"):
                for base in ("20200229", "00010101", "99991231"):
                    judge_text(DatetimeConverter, "datetime", f"{base}T{h:02d}{m:02d}{z}", rep)
                    judge_text(DatetimeConverter, "datetime", f"{base}T{h:02d}{z}", rep)
                    judge_text(DatetimeConverter, "datetime", f"{base}T{h:02d}{m:02d}{m:02d}{z}", rep)
                judge_text(TimeConverter, "time", f"{h:02d}{m:02d}{z}", rep)
                judge_text(TimeConverter, "time", f"{h:02d}{z}", rep)
                judge_text(DatetimeConverter, "datetime", f"20{h:02d}{m:02d}{z}", rep)
                judge_text(DatetimeConverter, "datetime", f"20{h:02d}{m:02d}{m:02d}{z}", rep)
                judge_text(DateConverter, "date", f"20{h:02d}{m:02d}{m:02d}", rep)
                judge_text(DatetimeConverter, "datetime", f"20200101T{m:02d}{m:02d}{h:02d}", rep)
    elif kind == "edit":
        base, i2 = BASES[case[1]], case[2]
        texts = set(edits(base))
        if i2 is not None:
            first = set(edits_at(base, i2))
            texts = set()
            for f in first:
                texts.update(edits(f))
        for s in sorted(texts):
            for k, conv in CONVS.items():
                judge_text(conv, k, s, rep)
    elif kind == "short":
        for n in range(0, 4):
            for t in itertools.product("09TZ-/ ", repeat=n):
                for k, conv in CONVS.items():
                    judge_text(conv, k, "".join(t), rep)
    elif kind == "zoned":
        run_zoned(case[1], case[2], rep)
    elif kind == "period":
        run_periods(PB[case[1]], rep)
    elif kind == "periodbad":
        for s in ["", "/", "20200101T000000", "20200101T000000/", "/PT1H", "/20200101T000000", "20200101T000000/P", "20200101T000000/X", "20200102T000000/20200101T000000",
                  "20200101T000000/-PT1H", "20200101T000000/20200101T010000Z", "20200101T000000Z/20200101T010000", "x/PT1H", "20200101T000000/PT1H/PT1H", "20200101T000000/20200102T000000/20200103T000000"]:
            rep.step()
            if s in ("20200101T000000/P",):
                continue  # an empty duration is read leniently
            try:
                r = PeriodConverter.parse(s, {}, {})
                rep.fail(f"malformed period {s!r} was read as {r}", "malformed")
            except ValueError:
                rep.outcome("period-rejected")
        for ts in (Timespan(), Timespan(B0), Timespan(None, B0), Timespan(B0.replace(tzinfo=timezone.utc))):  # neither of them is a period
            rep.step()
            try:
                r = PeriodConverter.serialize(ts, {}, {})
                rep.fail(f"{ts!r} was written as period {r!r}", "malformed")
            except ValueError:
                rep.outcome("period-rejected")


B0 = datetime(2020, 1, 1)


ZONED = {
    "Europe/Berlin": [(2020, 3, 29, 2), (2020, 10, 25, 3)], "America/New_York": [(2020, 3, 8, 2), (2020, 11, 1, 2)], "Europe/London": [(2020, 3, 29, 1), (2020, 10, 25, 2)], "Europe/Dublin": [(2020, 3, 29, 1), (2020, 10, 25, 2)],
    "Australia/Lord_Howe": [(2020, 4, 5, 2), (2020, 10, 4, 2)], "Asia/Kolkata": [(2020, 1, 1, 0)], "Pacific/Apia": [(2011, 12, 30, 12)], "America/Sao_Paulo": [(2018, 2, 18, 0), (2018, 11, 4, 0)],
}


def run_zoned(name, step, rep):
    """times around the changes of a zone, also skipped and repeated ones, keep their wall clock, zone and offset"""
    tz = Timezone.from_tzid(name)
    for y, m, d, h in ZONED[name]:
        t0 = datetime(y, m, d, h)
        for s in range(-4 * 3600, 4 * 3600 + 1, step):
            for off in (-1, 0, 1):
                t = t0 + timedelta(seconds=s + off)
                wall = f"{t:%Y%m%dT%H%M%S}"
                for z in (tz, ZoneInfo(name)):
                    rep.step()
                    v = t.replace(tzinfo=z)
                    p, ctx = {}, {}
                    text = DatetimeConverter.serialize(v, p, ctx)
                    if not rep.expect(text == wall and p == {"TZID": [tz.tzid]}, lambda: f"{v!r} is written as {text} {p}", "zoned-write"):
                        return
                    for tzid in (tz.tzid, name):
                        back = DatetimeConverter.parse(text, {"TZID": [tzid]}, dict(ctx))
                        rep.expect(back.replace(tzinfo=None) == t and back.fold == 0 and back.utcoffset() == t.replace(tzinfo=tz).utcoffset() and back.tzinfo.tzid == tz.tzid, lambda: f"{v!r} ({v.utcoffset()}) is written as {text} {p} and read as {back!r} (fold {back.fold}, {back.utcoffset()})", "zoned")
                    back = TimeConverter.parse(wall[9:], {"TZID": [name]}, {})
                    rep.expect(back.replace(tzinfo=None) == t.time() and str(back.tzinfo) == tz.tzid, lambda: f"time {wall[9:]} in {name} is read as {back!r}", "zoned")
    rep.outcome("zoned")


def rt_time_utc(v, text, rep):
    rep.step()
    s = TimeConverter.serialize(v, {}, {})
    back = TimeConverter.parse(s, {}, {}) if s == text else None
    rep.expect(
        s == text and back is not None and back.replace(tzinfo=None) == v.replace(tzinfo=None) and back.utcoffset() == timedelta(0),
        f"{v!r} was written as {s!r} (expected {text!r}) and read back as {back!r}", "time-utc",
    )


def edits_at(s, i):
    if i < len(s):
        yield s[:i] + s[i + 1 :]
        for c in ALPHA:
            yield s[:i] + c + s[i + 1 :]
    for c in ALPHA:
        yield s[:i] + c + s[i:]


def edits(s):
    for i in range(len(s) + 1):
        yield from edits_at(s, i)


def run_periods(b, rep):
    berlin = Timezone.from_tzid("Europe/Berlin")
    ny = Timezone.from_tzid("America/New_York")
    zones = {"naive": None, "utc": UTC, "dutc": timezone.utc, "berlin": berlin, "zi": ZoneInfo("America/New_York")}
    for zn, z in zones.items():
        if z is not None and z in (berlin, zones["zi"]) and not 1000 < b.year < 9999:
            continue
        beg = b.replace(tzinfo=z)
        exp_params = {"berlin": {"TZID": [berlin.tzid]}, "zi": {"TZID": [ny.tzid]}}.get(zn, {})
        suffix = "Z" if zn in ("utc", "dutc") else ""
        txt = f"{b.year:04}" + b.strftime("%m%dT%H%M%S") + suffix
        for d in PD:
            if b.year == 9999 and d > timedelta(hours=23):
                continue
            rep.step()
            ts = Timespan(beg, duration=d)
            p, ctx = {}, {}
            s = PeriodConverter.serialize(ts, p, ctx)
            back = PeriodConverter.parse(s, dict(p), ctx)
            rep.expect(s.split("/")[0] == txt and p == exp_params, f"{ts} written as {s!r} {p}", "period-write")
            rep.expect(same_ts(back, ts), f"{ts} written as {s!r} {p} read back as {back}", "period")
        for e in PB:
            if z is not None and z in (berlin, zones["zi"]) and not 1000 < e.year < 9999:
                continue
            end = e.replace(tzinfo=z)
            rep.step()
            try:
                ts = Timespan(beg, end)
            except ValueError:
                if not rep.expect(end < beg, f"Timespan({beg}, {end}) was rejected", "period-valid"):
                    continue
                # the same as text
                t = f"{txt}/{e.year:04}" + e.strftime("%m%dT%H%M%S") + suffix
                try:
                    r = PeriodConverter.parse(t, dict(exp_params), {})
                    rep.fail(f"period {t} with begin after end was read as {r}", "period-order")
                except ValueError:
                    rep.outcome("period-rejected")
                continue
            p, ctx = {}, {}
            s = PeriodConverter.serialize(ts, p, ctx)
            back = PeriodConverter.parse(s, dict(p), ctx)
            rep.expect(p == exp_params, f"{ts} written as {s!r} {p}", "period-write")
            rep.expect(same_ts(back, ts), f"{ts} written as {s!r} {p} read back as {back}", "period")
    # begin and end in different zones can't be written as one period
    for z1, z2 in itertools.permutations([berlin, ny, UTC], 2):
        if not 1000 < b.year < 9999:
            continue
        ts = Timespan(b.replace(tzinfo=z1), b.replace(tzinfo=z2) + timedelta(days=2))
        rep.step()
        try:
            p = {}
            s = PeriodConverter.serialize(ts, p, {})
        except ValueError:
            rep.outcome("mixed-rejected")
            continue
        try:
            back = PeriodConverter.parse(s, p, {})
        except ValueError:
            back = None
        rep.expect(back is not None and back.begin_time == ts.begin_time and back.end_time == ts.end_time, f"{ts} with mixed zones was written as {s!r} {p}, which reads as {back}", "period-mixed")


def same_ts(a, b):
    def k(d):
        return None if d is None else (d.replace(tzinfo=None), d.tzinfo is None, d.utcoffset())

    return (k(a.begin_time), k(a.end_time), a.duration, a.precision) == (k(b.begin_time), k(b.end_time), b.duration, b.precision)

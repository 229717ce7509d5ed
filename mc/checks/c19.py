"""C19: a timezone gives every local time the offset its definition says and converts every instant to the right local time, independent of earlier queries."""
import itertools
import re
from datetime import datetime, timedelta, timezone

import ics_vtimezones

from ics import Timezone
from ics.contentline import string_to_container
from mc import ref

PROPERTY = "C19"
BOUNDS = {
    "quick": "13 synthetic zones (two rules, half-hour, negative daylight time, eras with UNTIL, permanent changes forward, backward and over the date line, offsets with seconds, RDATE only, "
    "fixed, daylight only) in every order of their observances (4 observances: 8 orders): every transition of 4 years x 31 distances x both folds, and every instant around them; "
    "all histories of <=3 of 6 queries and of 12 queries exceeding the cache, in fresh zones; all distinct rule sets of the timezone database in 2020",
    "thorough": "all years 1970..2037 and all 24 orders of the synthetic zones, all zones of the timezone database in 12 years",
}
ASSUMPTIONS = ["times before the first onset of a definition have one of its offsets"]

H = timedelta(hours=1)
U = timezone.utc
# (kind, from, to, DTSTART, rule lines, name)
BER = [("STANDARD", "+0200", "+0100", "19701025T030000", ["RRULE:FREQ=YEARLY;BYMONTH=10;BYDAY=-1SU"], "CET"), ("DAYLIGHT", "+0100", "+0200", "19700329T020000", ["RRULE:FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU"], "CEST")]
ZONES = {
    "berlin": BER,
    "lordhowe": [("STANDARD", "+1100", "+1030", "19700405T020000", ["RRULE:FREQ=YEARLY;BYMONTH=4;BYDAY=1SU"], "S"), ("DAYLIGHT", "+1030", "+1100", "19701004T020000", ["RRULE:FREQ=YEARLY;BYMONTH=10;BYDAY=1SU"], "D")],
    "dublin": [("STANDARD", "+0000", "+0100", "19710328T010000", ["RRULE:FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU"], "IST"), ("DAYLIGHT", "+0100", "+0000", "19711031T020000", ["RRULE:FREQ=YEARLY;BYMONTH=10;BYDAY=-1SU"], "GMT")],
    "newyork": [
        ("DAYLIGHT", "-0500", "-0400", "19870405T020000", ["RRULE:FREQ=YEARLY;BYMONTH=4;BYDAY=1SU;UNTIL=20060402T070000Z"], "EDT"), ("STANDARD", "-0400", "-0500", "19671029T020000", ["RRULE:FREQ=YEARLY;BYMONTH=10;BYDAY=-1SU;UNTIL=20061029T060000Z"], "EST"),
        ("DAYLIGHT", "-0500", "-0400", "20070311T020000", ["RRULE:FREQ=YEARLY;BYMONTH=3;BYDAY=2SU"], "EDT"), ("STANDARD", "-0400", "-0500", "20071104T020000", ["RRULE:FREQ=YEARLY;BYMONTH=11;BYDAY=1SU"], "EST"),
    ],
    "istanbul": [
        ("STANDARD", "+0300", "+0200", "20071028T040000", ["RRULE:FREQ=YEARLY;BYMONTH=10;BYDAY=-1SU;UNTIL=20151025T010000Z"], "EET"), ("DAYLIGHT", "+0200", "+0300", "20070325T030000", ["RRULE:FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU;UNTIL=20160327T010000Z"], "EEST"),
        ("STANDARD", "+0300", "+0300", "20160907T000000", [], "+03"),
    ],
    "forward": [("STANDARD", "+0100", "+0100", "19700101T000000", [], "A"), ("STANDARD", "+0100", "+0330", "20180501T000000", [], "B")],
    "backward": [("STANDARD", "+0900", "+0900", "19700101T000000", [], "A"), ("STANDARD", "+0900", "+0600", "20170815T000000", [], "B"), ("STANDARD", "+0600", "+0830", "20190504T233000", [], "C")],
    "dateline": [("STANDARD", "-1100", "-1100", "19700101T000000", [], "A"), ("DAYLIGHT", "-1100", "-1000", "20110924T030000", [], "B"), ("STANDARD", "-1000", "+1400", "20111230T000000", [], "C"), ("STANDARD", "+1400", "+1300", "20120401T040000", [], "D")],
    "seconds": [("STANDARD", "+005328", "+005328", "18000101T000000", [], "LMT"), ("STANDARD", "+005328", "+0100", "20180401T000000", [], "CET")],
    "rdate": [
        ("STANDARD", "+0100", "+0000", "20180513T030000", ["RDATE:20181028T030000,20190505T030000", "RDATE:20200419T030000"], "W"),
        ("DAYLIGHT", "+0000", "+0100", "20180617T020000", ["RDATE:20180325T020000", "RDATE:20190609T020000", "RDATE:20200531T020000"], "S"),
    ],
    "fixed": [("STANDARD", "+0530", "+0530", "19700101T000000", [], "IST")],
    "daylight": [("DAYLIGHT", "+0100", "+0200", "19800406T020000", ["RRULE:FREQ=YEARLY;BYMONTH=4;BYDAY=1SU;COUNT=30"], "D")],
    "permadst": [("STANDARD", "+0200", "+0100", "19701025T030000", ["RRULE:FREQ=YEARLY;BYMONTH=10;BYDAY=-1SU;UNTIL=20191027T010000Z"], None), ("DAYLIGHT", "+0100", "+0200", "19700329T020000", ["RRULE:FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU;UNTIL=20200329T010000Z"], None)],
}


def text_of(name, obs):
    out = ["BEGIN:VTIMEZONE", f"TZID:{name}"]
    for kind, fr, to, start, rules, tzn in obs:
        out += [f"BEGIN:{kind}", f"TZOFFSETFROM:{fr}", f"TZOFFSETTO:{to}", f"DTSTART:{start}", *rules] + ([f"TZNAME:{tzn}"] if tzn else []) + [f"END:{kind}"]
    return "\r\n".join(out + ["END:VTIMEZONE"])


def offset(t):
    m = re.fullmatch(r"([+-])(\d\d)(\d\d)(\d\d)?", t)
    v = timedelta(hours=int(m[2]), minutes=int(m[3]), seconds=int(m[4] or 0))
    return -v if m[1] == "-" else v


def local(t):
    return datetime.strptime(t, "%Y%m%dT%H%M%S")


DAYS = ["MO", "TU", "WE", "TH", "FR", "SA", "SU"]


def nth_weekday(year, month, n, wd):
    days = [d for d in range(1, 32) if valid(year, month, d) and datetime(year, month, d).weekday() == wd]
    return days[n - 1 if n > 0 else n]


def valid(y, m, d):
    try:
        datetime(y, m, d)
        return True
    except ValueError:
        return False


class RefObs:
    def __init__(self, kind, fr, to, start, rules, name):
        self.dst, self.fr, self.to, self.name = kind == "DAYLIGHT", offset(fr), offset(to), name
        self.diff = self.to - self.fr
        start = local(start)
        onsets = {start}
        for r in rules:
            what, _, val = r.partition(":")
            if what == "RDATE":
                onsets |= {local(v) for v in val.split(",")}
                continue
            p = dict(x.split("=") for x in val.split(";"))
            assert what == "RRULE" and p.pop("FREQ") == "YEARLY"
            until, count = p.pop("UNTIL", None), int(p.pop("COUNT", 10**6))
            # UNTIL is in UTC
            until = (local(until[:-1]) + self.fr if until.endswith("Z") else local(until)) if until else datetime.max
            m = re.fullmatch(r"(-?\d)(\w\w)", p.pop("BYDAY"))
            month = int(p.pop("BYMONTH"))
            assert not p
            for y in range(start.year, 2039):
                t = start.replace(year=y, month=month, day=1).replace(day=nth_weekday(y, month, int(m[1]), DAYS.index(m[2])))
                if t >= start and t <= until and count > 0:
                    onsets.add(t)
                    count -= 1
        self.onsets = sorted(onsets)


class RefZone:
    def __init__(self, obs):
        self.obs = [RefObs(*o) for o in obs]
        self.trans = sorted(((w - o.fr, w, o) for o in self.obs for w in o.onsets), key=lambda t: t[0])
        self.insts = [t[0] for t in self.trans]

    def at(self, t):
        """observance in effect at the naive UTC instant t, None before the first onset"""
        from bisect import bisect_right

        i = bisect_right(self.insts, t)
        return self.trans[i - 1][2] if i else None

    def candidates(self, wall):
        """observances with an instant of this wall clock time, earlier instant first; None if the time is (maybe) before the first onset"""
        out = []
        for off in sorted({o.to for o in self.obs} | {o.fr for o in self.obs}, reverse=True):
            o = self.at(wall - off)
            if o is None:
                return None
            if o.to == off:
                out.append((wall - off, o))
        return [o for _, o in sorted(out, key=lambda x: x[0])]

    def adjacent(self, wall):
        """the observances before and after the gap"""
        for t, w, o in self.trans:
            if w <= wall < w + o.diff:
                return [p for p in (self.at(t - timedelta(seconds=1)), o) if p]
        raise AssertionError(wall)


_z = {}


def refzone(name, obs):
    if name not in _z:
        _z[name] = RefZone(obs)
    return _z[name]


def real(name, obs):
    return Timezone.from_container(string_to_container(text_of(name, obs)))


DELTAS = sorted({timedelta(minutes=m * s) for m in (0, 15, 30, 45, 60, 75, 90, 120, 150, 180, 240) for s in (-1, 1)} | {timedelta(seconds=s) for s in (-1, 1, -3600 - 1, -3600 + 1, 3599, 3601, 7199)} | {timedelta(days=d) for d in (-40, -1, 1, 40)} | {timedelta(hours=12), timedelta(microseconds=-1), timedelta(microseconds=1)})
FEW = [timedelta(seconds=s) for s in (-7200, -3600, -3599, -1, 0, 1, 3599, 3600, 7200)]


def check_wall(tz, rz, wall, rep, where):
    cand = rz.candidates(wall)
    for fold in (0, 1):
        dt = wall.replace(tzinfo=tz, fold=fold)
        rep.step()
        got = dt.utcoffset()
        if cand is None:
            rep.outcome("before the first onset")
            rep.expect(got in {o.to for o in rz.obs}, lambda: f"{where}: {wall} (fold={fold}) has offset {got}", "before")
            continue
        if len(cand) == 1:
            want = cand
            rep.outcome("unambiguous")
        elif len(cand) > 1:
            want = [cand[-1 if fold else 0]]
            rep.outcome(f"ambiguous fold={fold}")
        else:
            # RFC 5545 3.3.5: the offset before the gap is used (PEP 495: the one after it if fold is set)
            want = [rz.adjacent(wall)[-1 if fold else 0]]
            rep.outcome(f"gap fold={fold}")
        ok = [o for o in want if o.to == got]
        if not rep.expect(ok, lambda: f"{where}: {wall} (fold={fold}) has offset {got} instead of {[str(o.to) for o in want]}", "offset"):
            continue
        if len(want) == 1:
            o = want[0]
            rep.expect(dt.tzname() == o.name, lambda: f"{where}: {wall} (fold={fold}) is called {dt.tzname()} instead of {o.name}", "tzname")
            rep.expect(dt.dst() == (o.diff if o.dst else timedelta(0)), lambda: f"{where}: {wall} (fold={fold}) has dst {dt.dst()}", "dst")
            rep.expect(dt.astimezone(U).replace(tzinfo=None) == wall - o.to, lambda: f"{where}: {wall} (fold={fold}) is {dt.astimezone(U)}", "to-utc")


def check_instant(tz, rz, t, rep, where):
    o = rz.at(t)
    if o is None or rz.at(t - timedelta(days=2)) is None:
        return
    rep.step()
    got = t.replace(tzinfo=U).astimezone(tz)
    want = t + o.to
    cand = rz.candidates(want)
    fold = int(len(cand) > 1 and cand.index(o) > 0) if cand else 0
    rep.outcome("instant")
    rep.expect(got.replace(tzinfo=None, fold=0) == want, lambda: f"{where}: {t} UTC is converted to {got.replace(tzinfo=None)} instead of {want}", "from-utc")
    rep.expect(got.utcoffset() == o.to and (got.fold == fold or len(cand) < 2), lambda: f"{where}: {t} UTC is converted to {got.replace(tzinfo=None)!r} with offset {got.utcoffset()} instead of {o.to}", "from-utc-fold")
    rep.expect(got.astimezone(U).replace(tzinfo=None) == t, lambda: f"{where}: {t} UTC converted and back is {got.astimezone(U)}", "back")


def years(tier, name):
    if tier == "thorough":
        return (1970, 2037)
    return {"newyork": (2005, 2008), "istanbul": (2014, 2017), "dateline": (2010, 2013), "daylight": (2008, 2011)}.get(name, (2017, 2020))


def cases(tier):
    for name, obs in ZONES.items():
        perms = list(itertools.permutations(range(len(obs))))
        if tier == "quick" and len(obs) > 3:  # rotations and their reversals
            r = list(range(len(obs)))
            perms = [tuple((r[i:] + r[:i])[::d]) for d in (1, -1) for i in r]
        for n, perm in enumerate(perms):
            full = n == 0 or tier == "thorough" and n < 6
            y0, y1 = years(tier if full else "quick", name)
            if not full and tier == "quick":
                y0 += 2
            for y in range(y0, y1 + 1):
                yield ["zone", name, list(perm), y, full]
        yield ["roundtrip", name]
        for first in range(6):
            yield ["history", name, first]
        yield ["cache", name]
    files = db_files(tier)
    for i in range(0, len(files), 2):
        yield ["db", files[i : i + 2], tier]


def db_files(tier):
    root = ics_vtimezones.__path__[0]
    import os

    seen, out = set(), []
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(".ics"):
                p = os.path.join(d, f)
                rules = tuple(l for l in open(p).read().splitlines() if not l.startswith(("TZID", "X-LIC", "LAST-MOD", "TZNAME")))
                if tier == "thorough" or rules not in seen:
                    seen.add(rules)
                    out.append(os.path.relpath(p, root))
    return out


def obs_of(c):
    out = []
    for s in c.items:
        if isinstance(s, ref.C):
            p = {x[0]: x[2] for x in s.items}
            out.append((s.name, p["TZOFFSETFROM"], p["TZOFFSETTO"], p["DTSTART"], [x[0] + ":" + x[2] for x in s.items if x[0] in ("RRULE", "RDATE")], p.get("TZNAME")))
    return out


def explore(tz, rz, rep, where, y0, y1, deltas):
    for t, w, o in rz.trans:
        if not (y0 <= w.year <= y1):
            continue
        # the local clock shows w (before) and w + diff (after) at the transition
        for base in {w, w + o.diff}:
            for d in deltas:
                check_wall(tz, rz, base + d, rep, where)
        # the transition itself, the wall clock times taken for instants, and the length of the change before and after it
        for x in sorted({b + d for b in (t, t + o.diff, t - o.diff) for d in deltas} | {t + x + d for x in (o.to, o.fr) for d in FEW}):
            check_instant(tz, rz, x, rep, where)
        rep.state((where, w))
    for m in range(1, 13, 3):
        check_wall(tz, rz, datetime(y0, m, 15, 12), rep, where)
        check_instant(tz, rz, datetime(y0, m, 15, 12), rep, where)


def six(rz):
    """six sensitive wall clock queries around two transitions"""
    back = [x for x in rz.trans if x[2].diff < timedelta(0) and x[1].year > 2005] or rz.trans[-1:]
    fw = [x for x in rz.trans if x[2].diff > timedelta(0) and x[1].year > 2005] or rz.trans[-1:]
    w, d = back[0][1], back[0][2].diff / 2 or -H
    v = fw[0][1]
    return [(w + d, 0), (w + d, 1), (w, 0), (v + timedelta(days=1), 0), (v - timedelta(days=1), 0), (w + d, 0)]


def ask(tz, rz, q, rep, where):
    wall, fold = q
    cand = rz.candidates(wall)
    got = wall.replace(tzinfo=tz, fold=fold).utcoffset()
    rep.step()
    if cand:
        want = cand[-1 if fold else 0].to
        rep.expect(got == want, lambda: f"{where}: {wall} (fold={fold}) has offset {got} instead of {want}", "history")
    return got


def run_case(case, rep):
    rep.trace()
    what = case[0]
    if what == "db":
        import os

        for f in case[1]:
            txt = open(os.path.join(ics_vtimezones.__path__[0], f)).read().replace("\n", "\r\n")
            (cal,) = ref.parse(txt)
            (c,) = cal.subs("VTIMEZONE")
            rz = RefZone(obs_of(c))
            tz = Timezone.from_tzid(c.props("TZID")[0][2].split("/ics.py/2020.1/")[-1])
            for y in (1999, 2003, 2007, 2010, 2015, 2016, 2018, 2019, 2020, 2025, 2030, 2037) if case[2] == "thorough" else (2020,):
                explore(tz, rz, rep, f, y, y, FEW)
        return
    name = case[1]
    obs = ZONES[name]
    if what == "zone":
        _, _, perm, y, full = case
        obs = [obs[i] for i in perm]
        explore(real(name, obs), refzone(name, ZONES[name]), rep, f"{name} {perm}", y, y, DELTAS if full else FEW)
    elif what == "roundtrip":
        rz = refzone(name, obs)
        tz = real(name, obs)
        again = Timezone.from_container(string_to_container(tz.serialize()))
        rep.expect(again.serialize() == tz.serialize(), lambda: f"{tz.serialize()} differs when read and written again", "fixpoint")
        y0, y1 = years("quick", name)
        for y in range(y0, y1 + 1):
            explore(again, rz, rep, f"{name} written and read again", y, y, FEW)
    elif what == "history":
        rz = refzone(name, obs)
        qs = six(rz)
        for rest in [()] + [(i,) for i in range(6)] + list(itertools.product(range(6), repeat=2)):
            tz = real(name, obs)
            for i in (case[2],) + rest:
                ask(tz, rz, qs[i], rep, f"{name} after {case[2:]} {rest}")
            rep.state((name, case[2], rest))
    elif what == "cache":
        rz = refzone(name, obs)
        qs = [(w + timedelta(minutes=m), f) for w, _ in six(rz)[:4:3] for m in (0, 7, 13) for f in (0, 1)]
        tz0 = [ask(real(name, obs), rz, q, rep, "fresh") for q in qs]
        for rot in range(len(qs)):
            for rev in (1, -1):
                order = list(range(len(qs)))[::rev]
                order = order[rot:] + order[:rot]
                tz = real(name, obs)
                for i in order + order + order[::-1]:
                    rep.expect(ask(tz, rz, qs[i], rep, f"{name} in order {order}") == tz0[i], lambda: f"{name}: answer to {qs[i]} depends on history {order}", "history")
                rep.state((name, rot, rev))

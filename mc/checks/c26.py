"""C26: the recurrence rules of timezone observances denote exactly the onsets RFC 5545 says, also after writing and reading them, and compare equal iff they say the same."""
import calendar as _cal
import copy
import itertools
from datetime import date, datetime, timedelta

import dateutil.rrule as dr

from ics import Calendar, Event, Timezone
from ics.contentline import string_to_containers
from ics.timezone import TimezoneDaylightObservance, TimezoneStandardObservance
from mc import ref

PROPERTY = "C26"
BOUNDS = {
    "quick": "rules: 4 frequencies x 3 intervals x all combinations of <=2 of 10 BY-parts (25 values) x 3 ends; every rule with an end: UNTIL at/just before/just after an onset as UTC, local and date x 6 offsets; "
    "sets: all ordered sequences of <=3 of 13 RRULE/RDATE/EXRULE/EXDATE lines, DTSTART at each place; the same rules built by hand; all pairs of a pool of 90 rules for equality and hash",
    "thorough": "combinations of <=3 BY-parts, sequences of <=4 lines",
}
ASSUMPTIONS = ["DTSTART is always the first onset (RFC 5545: anything else is undefined); rules built by hand start with an occurrence", "expansions are compared within 9 years after DTSTART, rules without any occurrence in this time are left out"]
CASE_TIMEOUT = 300
WD = ["MO", "TU", "WE", "TH", "FR", "SA", "SU"]
SEC = timedelta(seconds=1)


# ---- reference expansion of a rule: filters every day, period by period -----------------------------
def parse_rule(text):
    return dict(p.split("=", 1) for p in text.upper().split(";"))


def dt_of(s):
    return datetime.strptime(s, "%Y%m%dT%H%M%S") if "T" in s else datetime.strptime(s, "%Y%m%d")


def fmt(d):
    return "%04d%02d%02dT%02d%02d%02d" % d.timetuple()[:6]


def weekno(day, wkst):
    """(year, number) of the week of a day, weeks start with wkst, week 1 has at least 4 days in its year"""
    start = day - timedelta((day.weekday() - wkst) % 7)
    mid = start + timedelta(3)
    return mid.year, (mid - date(mid.year, 1, 1)).days // 7 + 1


def expand(text, dtstart, hi, offset=timedelta(0)):
    r = parse_rule(text)
    freq, interval = r["FREQ"], int(r.get("INTERVAL", 1))
    ints = {k: [int(x) for x in r[k].split(",")] for k in ("BYMONTH", "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYSETPOS", "BYHOUR", "BYMINUTE", "BYSECOND") if k in r}
    wkst = WD.index(r.get("WKST", "MO"))
    byday = [(int(x[:-2] or 0), WD.index(x[-2:])) for x in r["BYDAY"].split(",")] if "BYDAY" in r else None
    if not ({"BYMONTHDAY", "BYYEARDAY", "BYWEEKNO"} & set(r) or byday):
        if freq == "YEARLY":
            ints.setdefault("BYMONTH", [dtstart.month])
        if freq in ("YEARLY", "MONTHLY"):
            ints["BYMONTHDAY"] = [dtstart.day]
        if freq == "WEEKLY":
            byday = [(0, dtstart.weekday())]
    times = sorted(set(itertools.product(ints.get("BYHOUR", [dtstart.hour]), ints.get("BYMINUTE", [dtstart.minute]), ints.get("BYSECOND", [dtstart.second]))))
    until = None
    if "UNTIL" in r:
        until = dt_of(r["UNTIL"].rstrip("Z"))
        if r["UNTIL"].endswith("Z"):
            until += offset

    def weekstart(d):
        return d - timedelta((d.weekday() - wkst) % 7)

    def nth(d, n, wd, lo, last):
        """d is the n-th of the weekday wd within lo..last"""
        if d.weekday() != wd:
            return False
        return n == 0 or (n > 0 and (d - lo).days // 7 + 1 == n) or (n < 0 and (last - d).days // 7 + 1 == -n)

    def matches(d):
        ylen = 366 if _cal.isleap(d.year) else 365
        mlen = _cal.monthrange(d.year, d.month)[1]
        if "BYMONTH" in ints and d.month not in ints["BYMONTH"]:
            return False
        if "BYMONTHDAY" in ints and not any(d.day == n or (n < 0 and d.day == mlen + 1 + n) for n in ints["BYMONTHDAY"]):
            return False
        yd = d.timetuple().tm_yday
        if "BYYEARDAY" in ints and not any(yd == n or (n < 0 and yd == ylen + 1 + n) for n in ints["BYYEARDAY"]):
            return False
        if "BYWEEKNO" in ints and weekno(d, wkst)[1] not in ints["BYWEEKNO"]:
            return False
        if byday is not None:
            if freq == "MONTHLY" or (freq == "YEARLY" and "BYMONTH" in ints):
                lo, last = d.replace(day=1), d.replace(day=mlen)
            else:
                lo, last = date(d.year, 1, 1), date(d.year, 12, 31)
            if not any(nth(d, n, wd, lo, last) for n, wd in byday):
                return False
        return True

    def period(d):
        if freq == "YEARLY":
            return d.year - dtstart.year
        if freq == "MONTHLY":
            return (d.year - dtstart.year) * 12 + d.month - dtstart.month
        if freq == "WEEKLY":
            return (weekstart(d) - weekstart(dtstart.date())).days // 7
        return (d - dtstart.date()).days

    first = dtstart.date()
    first = {"YEARLY": first.replace(month=1, day=1), "MONTHLY": first.replace(day=1), "WEEKLY": weekstart(first), "DAILY": first}[freq]
    out, cur, curp = [], [], None

    def flush():
        if "BYSETPOS" in ints:
            return sorted({cur[n - 1 if n > 0 else n] for n in ints["BYSETPOS"] if -len(cur) <= n <= len(cur)})
        return cur

    d = first
    count = int(r["COUNT"]) if "COUNT" in r else None
    while True:
        p = period(d)
        if p != curp:
            for o in flush():
                if o < dtstart:
                    continue
                if o > hi or (until is not None and o > until) or (count is not None and len(out) >= count):
                    return out
                out.append(o)
            if d > hi.date():
                return out
            cur, curp = [], p
        if p % interval == 0 and matches(d):
            cur += [datetime(d.year, d.month, d.day, *t) for t in times]
        d += timedelta(1)


def expand_set(lines, dtstart, hi, offset=timedelta(0)):
    inc, exc = {dtstart}, set()
    for l in lines:
        name, v = l.upper().split(":", 1)
        tgt = inc if name.startswith("R") else exc
        if name.endswith("RULE"):
            tgt.update(expand(v, dtstart, hi, offset))
        else:
            tgt.update(dt_of(x) for x in v.split(","))
    return sorted(x for x in inc - exc if x <= hi)


# ---- driving the implementation ----------------------------------------------------------------------
OFFS = {"+0100": timedelta(hours=1), "+0000": timedelta(0), "-0500": timedelta(hours=-5), "+0530": timedelta(hours=5.5), "+1400": timedelta(hours=14), "-121530": -timedelta(hours=12, minutes=15, seconds=30)}
DT = datetime(1998, 3, 29, 2, 0)  # a sunday
YEARS = 9


def vtz(lines, off="+0100", at=0, tzid="X"):
    lines = list(lines)
    lines.insert(at, "DTSTART:" + fmt(DT))
    body = "".join(l + "\r\n" for l in lines)
    return (
        f"BEGIN:VTIMEZONE\r\nTZID:{tzid}\r\nBEGIN:STANDARD\r\nTZOFFSETFROM:{off}\r\nTZOFFSETTO:+0200\r\n{body}END:STANDARD\r\nBEGIN:DAYLIGHT\r\n"
        "DTSTART:19700101T000000\r\nTZOFFSETFROM:+0000\r\nTZOFFSETTO:+0100\r\nEND:DAYLIGHT\r\nEND:VTIMEZONE\r\n"
    )


def read(text):
    cs = list(string_to_containers(text))
    assert len(cs) == 1
    return Timezone.from_container(cs[0])


def onsets(obs, hi):
    return obs.rrule.between(datetime(1900, 1, 1), hi, inc=True)


def check_zone(rep, lines, off="+0100", at=0):
    hi = DT + timedelta(days=366 * YEARS)
    text = vtz(lines, off, at)
    want = expand_set(lines, DT, hi, OFFS[off])
    tz = read(text)
    obs = tz.observances[0]
    got = onsets(obs, hi)
    rep.step(2)
    rep.outcome(f"onsets:{min(len(want), 12)}")
    rep.expect(got == want, lambda: f"onsets of {lines} ({off}) are {[str(g) for g in got[:8]]} ({len(got)}), expected {[str(w) for w in want[:8]]} ({len(want)})", key="onsets")
    out = tz.to_container().serialize()
    # what is written denotes the same by the reference
    std = ref.parse(out)[0].subs("STANDARD")[0]
    rl = [f"{l[0]}:{l[2]}" for l in std.items if not hasattr(l, "items") and l[0].upper() in ("RRULE", "RDATE", "EXRULE", "EXDATE")]
    wdt = [l[2] for l in std.props("DTSTART")]
    if not rep.expect(len(wdt) == 1, lambda: f"{lines}: written with DTSTART {wdt}", key="dtstart"):
        return
    wr = expand_set(rl, dt_of(wdt[0]), hi, OFFS[off])
    rep.expect(wr == want, lambda: f"{lines} ({off}) is written as {rl}, which denotes {[str(g) for g in wr[:8]]} instead of {[str(w) for w in want[:8]]}", key="written")
    rep.expect(all("UNTIL" not in parse_rule(l.split(":", 1)[1]) or parse_rule(l.split(":", 1)[1])["UNTIL"].endswith("Z") for l in rl if "RULE:" in l), lambda: f"{lines}: UNTIL isn't written in UTC: {rl}", key="until-utc")
    back = read(out)
    rep.expect(back == tz and hash(back.observances[0].rrule) == hash(obs.rrule), lambda: f"{lines} ({off}) isn't equal after writing and reading: {tz!r} / {back!r}", key="roundtrip-eq")
    rep.expect(onsets(back.observances[0], hi) == want, lambda: f"{lines} ({off}): other onsets after writing and reading", key="roundtrip")
    rep.expect(back.to_container().serialize() == out, lambda: f"{lines} ({off}): text changes when written again", key="stable")
    rep.step(6)
    # what times in the zone say: a jump forward skips the times after the onset, they still have the offset before it
    gap = max(timedelta(hours=2) - OFFS[off], timedelta(0))
    for w in want[:2] + want[-1:]:
        for d in (w, w + SEC, w - SEC, w + gap, w + gap + SEC, w + gap - SEC):
            exp = timedelta(hours=2) if any(x + gap <= d for x in want) else timedelta(hours=1)
            rep.expect(tz.utcoffset(d) == exp, lambda: f"{lines} ({off}): offset at {d} is {tz.utcoffset(d)}", key="offset")
            rep.step()
    rep.state((lines, off, at))
    rep.trace()


FREQS = ["YEARLY", "MONTHLY", "WEEKLY", "DAILY"]
INTERVALS = ["", "INTERVAL=1", "INTERVAL=2", "INTERVAL=3"]
BY = {
    "BYMONTH": ["3", "3,10", "10,3,3"], "BYDAY": ["SU", "MO,SU", "1SU", "-1SU", "2MO,-1FR"], "BYMONTHDAY": ["8,9,10,11,12,13,14", "-1", "31"], "BYYEARDAY": ["1,-1", "88,200"], "BYWEEKNO": ["10,13"],
    "BYHOUR": ["2", "3,1"], "BYMINUTE": ["0,30"], "BYSECOND": ["7"], "BYSETPOS": ["1", "-1", "2,-2"], "WKST": ["SU", "MO"],
}


def rules(nby):
    for freq in FREQS:
        for n in range(nby + 1):
            for parts in itertools.combinations(BY, n):
                if freq != "YEARLY" and "BYWEEKNO" in parts or freq in ("WEEKLY", "MONTHLY", "DAILY") and "BYYEARDAY" in parts or freq == "WEEKLY" and "BYMONTHDAY" in parts:
                    continue
                if "BYSETPOS" in parts and (not set(parts) - {"BYSETPOS", "WKST"} or freq == "WEEKLY"):
                    continue
                for vals in itertools.product(*[BY[p] for p in parts]):
                    ordinal = any(p == "BYDAY" and ("1" in v or "2" in v) for p, v in zip(parts, vals))
                    if ordinal and (freq in ("WEEKLY", "DAILY") or "BYWEEKNO" in parts):
                        continue
                    yield freq, ";".join(f"{p}={v}" for p, v in zip(parts, vals))


def rule_text(freq, interval, by, end):
    return ";".join(x for x in ("FREQ=" + freq, interval, end, by) if x)


POOL = [
    "RRULE:FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU;COUNT=5", "RRULE:FREQ=YEARLY;INTERVAL=2;UNTIL=20040329T010000Z", "rrule:freq=yearly;bymonth=10;byday=-1su;until=20021027T010000z", "RRULE:FREQ=MONTHLY;COUNT=4",
    "RDATE:20000326T020000", "RDATE:20020101T000000,19990101T000000", "RDATE:19980329T020000", "RDATE:19970101T000000", "EXDATE:19990328T020000,20000326T020000", "EXDATE:19980329T020000", "EXDATE:20020101T000000",
    "EXRULE:FREQ=YEARLY;INTERVAL=2;BYMONTH=3;BYDAY=-1SU", "EXRULE:FREQ=YEARLY;COUNT=3",
]
EQ_BASE = {"FREQ": "YEARLY", "BYMONTH": "3,10", "BYDAY": "-1SU,1MO"}
EQ_VAR = {
    "FREQ": ["MONTHLY"], "INTERVAL": ["2", "3"], "COUNT": ["1", "2", "30"], "UNTIL": ["20040329T010000Z", "20040329T010001Z", "20050329T010000Z"], "BYMONTH": ["3", "10", "4,10"], "BYDAY": ["-1SU", "1SU,1MO", "SU", "-1SU,2MO", "-2SU,1MO"],
    "BYMONTHDAY": ["1", "-1", "1,2"], "BYYEARDAY": ["88", "-10"], "BYWEEKNO": ["10", "13"], "BYHOUR": ["2", "1", "1,2"], "BYMINUTE": ["0", "1"], "BYSECOND": ["0", "7"], "BYSETPOS": ["1", "-1"], "WKST": ["SU", "TU"],
}


def eq_pool():
    """[(text, canonical meaning)]"""
    out = []

    def add(lines, key):
        out.append((lines, key))

    def rule(parts):
        return ";".join(f"{k}={v}" for k, v in parts.items())

    def canon(parts):
        res = {}
        for k, v in parts.items():
            if k not in ("FREQ", "UNTIL"):
                v = ",".join(sorted(set(v.split(","))))
            if (k, v) not in (("INTERVAL", "1"), ("WKST", "MO")):
                res[k] = v
        return tuple(sorted(res.items()))

    variants = [EQ_BASE]
    for k, vs in EQ_VAR.items():
        for v in vs:
            variants.append({**EQ_BASE, k: v})
    variants += [{"FREQ": "YEARLY", "BYEASTER": e} for e in ("0", "1", "-2", "1,-2")]  # an extension of dateutil
    variants += [{"FREQ": "YEARLY"}, {"FREQ": "MONTHLY"}, {"FREQ": "YEARLY", "BYMONTH": "3"}]
    for p in variants:
        add(["RRULE:" + rule(p)], ("R", canon(p)))
    # other ways to write the same
    add(["RRULE:" + rule(dict(reversed(list(EQ_BASE.items()))))], ("R", canon(EQ_BASE)))
    add(["RRULE:" + rule({"INTERVAL": "1", "WKST": "MO", **EQ_BASE, "BYMONTH": "10,3", "BYDAY": "1MO,-1SU"})], ("R", canon(EQ_BASE)))
    add(["rrule:" + rule(EQ_BASE).lower()], ("R", canon(EQ_BASE)))
    for v in EQ_VAR["FREQ"] + ["YEARLY"]:
        add(["EXRULE:FREQ=" + v], ("X", v))
        add(["RDATE:20000101T000000", "RRULE:FREQ=" + v], ("RD", v))
        add(["EXDATE:20000101T000000", "RRULE:FREQ=" + v], ("RE", v))
        add(["RRULE:FREQ=" + v, "RDATE:20000101T000000"], ("RD", v))
        add(["RRULE:FREQ=" + v, "EXRULE:FREQ=" + v], ("RX", v))
    for d in (["20000101T000000", "20010101T000000"], ["20000101T000000"], ["20010101T000000"], ["20000101T000001"], []):
        add(["RDATE:" + ",".join(d)] if d else [], ("D", tuple(d)))
        add(["RDATE:" + x for x in reversed(d)], ("D", tuple(d)))
        if d:
            add(["EXDATE:" + ",".join(reversed(d))], ("E", tuple(d)))
            add(["RDATE:" + ",".join(d + d)], ("D", tuple(d)))
    return out


def cases(tier):
    th = tier == "thorough"
    rs = list(rules(3 if th else 2))
    for iv in range(len(INTERVALS)):
        if iv == 1 and not th:
            continue
        for i in range(0, len(rs), 20):
            yield ["rules", iv, i, i + 20, 3 if th else 2]
    one = list(rules(1))
    for off in OFFS:
        for i in range(0, len(one), 3):
            yield ["until", off, i, i + 3]
    for n in range(4 if th else 3):
        for pre in itertools.permutations(range(len(POOL)), n):
            yield ["sets", list(pre), th]
    for i in range(0, len(rs), 40):
        yield ["built", i, i + 40, 3 if th else 2]
    for n in range(1, 4):
        for pre in itertools.combinations(range(len(BUILT)), n):
            yield ["builtset", list(pre)]
    for i in range(len(eq_pool())):
        yield ["eq", i]


# ---- rules built by hand -------------------------------------------------------------------------------
def kwargs_of(text, offset=None):
    r = parse_rule(text)
    kw = {"freq": getattr(dr, r.pop("FREQ"))}
    for k, v in r.items():
        if k == "UNTIL":
            kw["until"] = dt_of(v)
        elif k in ("INTERVAL", "COUNT"):
            kw[k.lower()] = int(v)
        elif k == "WKST":
            kw["wkst"] = getattr(dr, v)
        elif k == "BYDAY":
            kw["byweekday"] = [getattr(dr, x[-2:])(int(x[:-2])) if x[:-2] else getattr(dr, x[-2:]) for x in v.split(",")]
        else:
            kw[k.lower()] = [int(x) for x in v.split(",")]
    return kw


BUILT = ["r:FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU;COUNT=5", "r:FREQ=YEARLY;INTERVAL=2;UNTIL=20040329T020000", "r:FREQ=MONTHLY;COUNT=3", "d:20000101T000000", "d:19970101T000000", "d:19980329T020000", "x:FREQ=YEARLY;INTERVAL=2;COUNT=2", "e:19990328T020000", "e:19980329T020000", "d:20000101T000000"]


def check_built(rep, what, rrule, want, hi, cls=TimezoneStandardObservance):
    obs = cls(timedelta(hours=-5), timedelta(hours=2), rrule, "N")
    tz = Timezone("X", [obs])
    rep.expect(onsets(obs, hi) == want, lambda: f"{what}: onsets {onsets(obs, hi)[:5]} instead of {want[:5]}", key="built")
    out = tz.to_container().serialize()
    back = read(out)
    got = onsets(back.observances[0], hi)
    rep.expect(got == want, lambda: f"{what}, built by hand, has the onsets {[str(w) for w in want[:6]]}, but is written as\n{out}\nwith the onsets {[str(g) for g in got[:6]]}", key="built-written")
    std = ref.parse(out)[0].subs(cls.NAME)[0]
    rl = [f"{l[0]}:{l[2]}" for l in std.items if not hasattr(l, "items") and l[0].upper() in ("RRULE", "RDATE", "EXRULE", "EXDATE")]
    dts = std.props("DTSTART")
    if rep.expect(len(dts) == 1, lambda: f"{what}: {len(dts)} DTSTARTs written", key="built-dtstart"):
        wr = expand_set(rl, dt_of(dts[0][2]), hi, timedelta(hours=-5))
        rep.expect(wr == want, lambda: f"{what} is written as {dts[0][2]} {rl}, denoting {[str(w) for w in wr[:6]]}", key="built-ref")
    rep.expect(onsets(obs, hi) == want and tz.to_container().serialize() == out, lambda: f"{what} changed by writing", key="built-changed")
    rep.expect(type(back.observances[0]) is cls and back.observances[0].tzname == "N", lambda: f"{what}: other kind of observance", key="built-kind")
    c = Calendar(events=[Event("e", begin=datetime(2003, 5, 5, 5, tzinfo=tz), uid="u")])
    c2 = Calendar(c.serialize())
    rep.expect(onsets(c2.events[0].begin.tzinfo.observances[0], hi) == want, lambda: f"{what}: other onsets after writing a calendar using it", key="built-calendar")
    rep.step(7)
    rep.trace()


def run_case(case, rep):
    kind = case[0]
    hi = DT + timedelta(days=366 * YEARS)
    if kind == "rules":
        for freq, by in list(rules(case[4]))[case[2] : case[3]]:
            if not expand(rule_text(freq, INTERVALS[case[1]], by, ""), DT, hi):
                continue  # searched for until the year 9999
            for end in ("", "COUNT=1", "COUNT=3") if freq != "DAILY" else ("COUNT=2", "COUNT=40"):
                check_zone(rep, ["RRULE:" + rule_text(freq, INTERVALS[case[1]], by, end)])
    elif kind == "until":
        off = case[1]
        for freq, by in list(rules(1))[case[2] : case[3]]:
            for iv in ("", "INTERVAL=2"):
                occ = expand(rule_text(freq, iv, by, "COUNT=3"), DT, hi)
                for o in occ[:2] + occ[-1:]:
                    for d in (o - SEC, o, o + SEC):
                        for u in (fmt(d - OFFS[off]) + "Z", fmt(d), fmt(d)[:8]):
                            check_zone(rep, ["RRULE:" + rule_text(freq, iv, by, "UNTIL=" + u)], off)
                    u = fmt(o - OFFS[off]) + "Z"
                    check_zone(rep, [f"RRULE:UNTIL={u};" + rule_text(freq, iv, by, "")], off)
                    check_zone(rep, [("rrule:" + rule_text(freq, iv, by, "UNTIL=" + u)).lower()], off)
                    check_zone(rep, ["EXRULE:" + rule_text(freq, iv, by, "UNTIL=" + u)], off)
    elif kind == "sets":
        pre = case[1]
        for last in [None, *range(len(POOL))]:
            if last is None and len(pre) or last in pre:
                continue
            seq = [POOL[i] for i in pre] + ([POOL[last]] if last is not None else [])
            for at in range(len(seq) + 1) if len(seq) <= 2 else (0, len(seq)):
                check_zone(rep, seq, "+0100", at)
    elif kind == "built":
        for freq, by in list(rules(case[3]))[case[1] : case[2]]:
            for iv in ("", "INTERVAL=2"):
                occ = expand(rule_text(freq, iv, by, ""), DT, DT + timedelta(days=366 * 3) if freq != "YEARLY" else hi)
                if not occ:
                    continue
                for end in ("", "COUNT=2", "UNTIL=" + fmt(occ[min(1, len(occ) - 1)]), "UNTIL=" + fmt(occ[min(1, len(occ) - 1)] - SEC)):
                    if freq == "DAILY" and not end:
                        continue
                    text = rule_text(freq, iv, by, end)
                    # starts with an occurrence
                    start = occ[0]
                    if expand(text, start, hi)[:1] != [start]:
                        continue
                    check_built(rep, text, dr.rrule(dtstart=start, **kwargs_of(text)), expand(text, start, hi), hi)
                    rep.state(text)
    elif kind == "builtset":
        seen = []
        for perm in itertools.permutations(case[1]):
            items = [BUILT[i] for i in perm]
            inc, exc = set(), set()
            rs = dr.rruleset()
            for it in items:
                k, v = it.split(":")
                if k in "rx":
                    (rs.rrule if k == "r" else rs.exrule)(dr.rrule(dtstart=DT, **kwargs_of(v)))
                    (inc if k == "r" else exc).update(expand(v, DT, hi))
                else:
                    (rs.rdate if k == "d" else rs.exdate)(dt_of(v))
                    (inc if k == "d" else exc).add(dt_of(v))
            for rs2, items2 in seen + [(copy.deepcopy(rs), items)]:
                rep.step()
                eq = rs == rs2
                rep.expect((rs2 == rs) is eq and (rs != rs2) is not eq and (not eq or hash(rs) == hash(rs2)), lambda: f"sets of rules {items} and {items2}: ==, != and hash don't fit", key="built-hash")
                rep.expect(eq or items != items2, lambda: f"{items}: a copy isn't equal", key="built-eq")
            seen.append((rs, items))
            if not inc:
                continue
            fresh = copy.deepcopy(rs)
            check_built(rep, items, rs, sorted(inc - exc), hi, TimezoneDaylightObservance)
            rep.expect(rs == fresh and hash(rs) == hash(fresh), lambda: f"{items}: differs from what it was before its onsets were used", key="built-used")
            rep.state(items)
    else:
        pool = eq_pool()
        lines, key = pool[case[1]]
        a = read(vtz(lines))
        for lines2, key2 in pool:
            b = read(vtz(lines2))
            same = key == key2
            for x, y, what in ((a, b, "timezones"), (a.observances[0], b.observances[0], "observances"), (a.observances[0].rrule, b.observances[0].rrule, "rules")):
                rep.expect((x == y) is same and (x != y) is not same, lambda: f"{what} with {lines} and {lines2}: == gives {x == y}", key="eq")
                rep.step()
            if same:
                rep.expect(hash(a.observances[0].rrule) == hash(b.observances[0].rrule) and repr(a) == repr(b) and str(a.observances[0].rrule) == str(b.observances[0].rrule), lambda: f"{lines} and {lines2} are equal with different hashes or texts", key="hash")
                rep.outcome("equal")
            else:
                rep.expect(repr(a) != repr(b), lambda: f"{lines} and {lines2} have the same repr {a!r}", key="repr")
                rep.outcome("different")
        onsets(a.observances[0], hi)
        b = read(vtz(lines))
        rep.expect(a == b and hash(a.observances[0].rrule) == hash(b.observances[0].rrule), lambda: f"{lines}: differs after its onsets were used", key="eq-used")
        rep.expect(not a.observances[0].rrule == 5 and a.observances[0].rrule != None and a.observances[0].rrule != str(a), lambda: "equal to something else", key="eq-other")
        rep.state(lines)
        rep.trace()

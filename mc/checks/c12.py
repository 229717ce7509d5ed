"""C12: timeline queries return exactly the matching events, in chronological order, for the current content of the calendar."""
import itertools
from collections import Counter
from datetime import date, datetime, timedelta, timezone
from zoneinfo import ZoneInfo

from ics import Calendar, Event, Timespan
from ics.timeline import Timeline
from ics.timespan import Normalization, NormalizationAction

from mc.spans import BASE, LOCALS, Span, instant, set_local, wall, zone

PROPERTY = "C12"
BOUNDS = {
    "quick": "every multiset of <=3 out of 13 events (timed, all-day, floating, zoned, empty, unscheduled) x ~170 queries (5 kinds of queries, 3 kinds of instants) in 2 "
    "local timezones; every pair of 36 events with times which differ by seconds to hours, queried at these times; frozen current time at 14 instants x 3 timezones; 9 normalizations; all histories of <=3 calendar changes, with and without queries in between; all interleavings of two iterations",
    "thorough": "multisets of <=4 events, 4 local timezones",
}
ASSUMPTIONS = ["'included' means: begins no earlier and ends strictly earlier than the query", "the order of events with equal begin and end is not specified"]

PAL = [
    Span(0, 6, "end", None), Span(6, 12, "duration", None), Span(6, 6, "end", None), Span(0, 24, "end", None, True), Span(0, 48, "duration", None, True),
    Span(24, None, "none", None, True), Span(0, 6, "end", "utc"), Span(6, 30, "end", "ber"), Span(12, None, "none", "ny"), Span(-12, 36, "duration", "utc"),
    Span(None, None, "none"), Span(-24, 0, "end", None), Span(6, 12, "end", None),
]
TIMED = [i for i, s in enumerate(PAL) if not s.allday]
H = [-24, 0, 3, 6, 12, 24, 36]


# times which differ by seconds, minutes and hours only
FINE_H = [0, 1 / 3600, 2 / 3600, 59 / 3600, 1 / 60, 1, 24 - 1 / 3600, 24]
FINE = [Span(b, e, "end" if n % 2 else "duration", [None, "utc", "ny"][n % 3]) for n, (b, e) in enumerate(itertools.combinations_with_replacement(FINE_H, 2))]


def run_fine(loc, i, rep):
    inst = [(wall(h), instant(wall(h), None, loc)) for h in FINE_H] + [(wall(h).replace(tzinfo=zone("utc")), instant(wall(h), "utc", loc)) for h in FINE_H]
    qs = [("iter", lambda t: t, lambda b, e: True)]
    for n, (a, x) in enumerate(inst):
        qs.append((f"start_after({a})", lambda t, a=a: t.start_after(a), lambda b, e, x=x: b > x))
        qs.append((f"at({a})", lambda t, a=a: t.at(a), lambda b, e, x=x: b <= x < e))
        for c, y in inst[: len(FINE_H)] if n < len(FINE_H) else inst[len(FINE_H) :]:
            if x <= y:
                qs.append((f"included({a},{c})", lambda t, a=a, c=c: t.included(a, c), lambda b, e, x=x, y=y: x <= b and e < y))
                qs.append((f"overlapping({a},{c})", lambda t, a=a, c=c: t.overlapping(a, c), lambda b, e, x=x, y=y: max(b, x) < min(e, y) or (b == e and x <= b < y) or (x == y and b <= x < e)))
    for j in range(len(FINE)):
        events = [FINE[k].entity(Event, summary=str(n)) for n, k in enumerate((i, j))]
        keys = [key(FINE[k], loc) for k in (i, j)]
        cal = Calendar(events=events)
        for q in qs if j % 6 == i % 6 else qs[:1]:
            expect_query(rep, events, keys, cal.timeline, q, f"[TZ={loc}]")
        rep.state((loc, "fine", i, j))


def cases(tier):
    th = tier == "thorough"
    for loc in LOCALS if th else LOCALS[:2]:
        for i in range(len(PAL)):
            yield ["static", loc, [i], 2]
        yield ["static", loc, [], 0]
        for i, j in itertools.combinations_with_replacement(range(len(PAL)), 2):
            if th:
                for k in range(j, len(PAL)):
                    yield ["static", loc, [i, j, k], 1]
            else:
                yield ["static", loc, [i, j], 1]
    for i in range(len(FINE)):
        yield ["fine", LOCALS[i % 2], i]
    for loc in LOCALS[:3]:
        for h in [-25, -24, -0.5, 0, 0.5, 3, 6, 11.5, 12, 23.75, 24, 26, 35.5, 36]:
            yield ["frozen", loc, h]
    for loc in LOCALS[:2]:
        for n in range(9):
            yield ["norm", loc, n]
    for loc in LOCALS[:2]:
        for op in range(len(OPS)):
            yield ["hist", loc, op]
    yield ["iters"]
    yield ["errors"]


def local_instants(loc):
    """[(argument, instant)]"""
    out = []
    for h in H:
        out.append((wall(h), instant(wall(h), None, loc)))
        if h % 24 == 0:
            out.append((wall(h).date(), instant(wall(h), None, loc)))
    for h in (0, 3, 6, 24):
        for z in ("utc", "ber"):
            out.append((wall(h).replace(tzinfo=zone(z)), instant(wall(h), z, loc)))
    return out


_q = {}


def queries(loc):
    """[(description, function on a timeline, predicate over (begin, end))]"""
    if loc in _q:
        return _q[loc]
    qs = [("iter", lambda t: t, lambda b, e: True)]
    inst = local_instants(loc)
    for a, i in inst:
        qs.append((f"start_after({a})", lambda t, a=a: t.start_after(a), lambda b, e, i=i: b > i))
        qs.append((f"at({a})", lambda t, a=a: t.at(a), lambda b, e, i=i: b <= i < e))
    pairs = [(x, y) for x, y in itertools.product(inst, repeat=2) if (getattr(x[0], "tzinfo", None) is None) == (getattr(y[0], "tzinfo", None) is None) and x[1] <= y[1]]
    for n, ((a, i), (b_, j)) in enumerate(pairs):
        if n % 2 and not (isinstance(a, date) and not isinstance(a, datetime)) and getattr(a, "tzinfo", None) is not None:
            continue
        incl = lambda b, e, i=i, j=j: i <= b and e < j
        over = lambda b, e, i=i, j=j: max(b, i) < min(e, j) or (b == e and i <= b < j) or (i == j and b <= i < e)
        qs.append((f"included({a},{b_})", lambda t, a=a, b_=b_: t.included(a, b_), incl))
        qs.append((f"overlapping({a},{b_})", lambda t, a=a, b_=b_: t.overlapping(a, b_), over))
        if n % 5 == 0 and isinstance(a, datetime) and isinstance(b_, datetime):
            qs.append((f"included(Timespan {a},{b_})", lambda t, a=a, b_=b_: t.included(Timespan(a, b_)), incl))
            qs.append((f"overlapping(Timespan {a},{b_})", lambda t, a=a, b_=b_: t.overlapping(Timespan(a, duration=b_ - a)), over))
    for h in (-24, 0, 5, 23.9999, 24, 36):
        for z in (None, "utc", "ny"):
            w = wall(h)
            day = datetime(w.year, w.month, w.day)
            i, j = instant(day, z, loc), instant(day + timedelta(days=1), z, loc)
            args = [w.replace(tzinfo=zone(z))] + ([w.date()] if z is None else [])
            for a in args:
                qs.append((f"on({a})", lambda t, a=a: t.on(a), lambda b, e, i=i, j=j: max(b, i) < min(e, j) or (b == e and i <= b < j)))
                qs.append((f"on({a},strict)", lambda t, a=a: t.on(a, strict=True), lambda b, e, i=i, j=j: i <= b and e < j))
    _q[loc] = qs
    return qs


def key(s, loc):
    return s.instants("event", loc)


def expect_query(rep, events, keys, tl, q, where):
    desc, f, pred = q
    rep.step()
    got = list(f(tl))
    exp = Counter(id(e) for e, k in zip(events, keys) if k[0] is not None and pred(*k))
    back = Counter(id(e) for e in got)
    bykey = {id(e): k for e, k in zip(events, keys)}
    ok = back == exp
    if ok:
        ks = [bykey[id(e)] for e in got]
        ok = all(x <= y for x, y in zip(ks, ks[1:]))
    rep.outcome(f"{len(got)} of {len(events)}")
    rep.expect(ok, lambda: f"{where}: {desc} over {[str(e) for e in events]} returned {[str(e) for e in got]}", desc.split("(")[0])


def build_events(idx):
    return [PAL[i].entity(Event, summary="e%d" % n) for n, i in enumerate(idx)]


def run_case(case, rep):
    rep.trace()
    what = case[0]
    if what == "errors":
        return run_errors(rep)
    if what == "iters":
        return run_iters(rep)
    loc = case[1]
    set_local(loc)
    try:
        if what == "static":
            tails = [[]] if case[3] == 0 else [[]] if case[3] == 2 else [[]] + [[k] for k in range(case[2][-1], len(PAL))]
            qs = queries(loc)
            for tail in tails:
                idx = case[2] + tail
                events = build_events(idx)
                keys = [key(PAL[i], loc) for i in idx]
                # the order of insertion doesn't matter, use a non-sorted one
                cal = Calendar(events=events[::-1] if sum(idx) % 2 else events)
                full = len(idx) <= 2
                sub = qs if full else qs[sum(idx) % 7 :: 7]
                for q in sub:
                    expect_query(rep, events, keys, cal.timeline, q, f"[TZ={loc}]")
                rep.state((loc, tuple(idx)))
        elif what == "fine":
            run_fine(loc, case[2], rep)
        elif what == "frozen":
            run_frozen(loc, case[2], rep)
        elif what == "norm":
            run_norm(loc, case[2], rep)
        elif what == "hist":
            run_hist(loc, case[2], rep)
    finally:
        set_local("UTC")


def run_frozen(loc, h, rep):
    from freezegun import freeze_time

    now = wall(h).replace(tzinfo=timezone.utc)
    local = now.astimezone(ZoneInfo(loc))
    off = local.utcoffset()
    with freeze_time(now.replace(tzinfo=None), tz_offset=off):
        day = datetime(local.year, local.month, local.day)
        i, j = instant(day, None, loc), instant(day + timedelta(days=1), None, loc)
        qs = [
            ("now()", lambda t: t.now(), lambda b, e: b <= now < e),
            ("today()", lambda t: t.today(), lambda b, e: max(b, i) < min(e, j) or (b == e and i <= b < j)),
            ("today(strict)", lambda t: t.today(strict=True), lambda b, e: i <= b and e < j),
        ]
        for n in (1, 2):
            for idx in itertools.combinations(range(len(PAL)), n):
                events = build_events(idx)
                keys = [key(PAL[x], loc) for x in idx]
                cal = Calendar(events=events)
                for q in qs:
                    expect_query(rep, events, keys, cal.timeline, q, f"[TZ={loc}, now {now}]")
                rep.state((loc, h, idx))


A = NormalizationAction
NORMS = [(z, nf, nw) for z in ("utc", "ny", None) for nf, nw in ((A.REPLACE, A.IGNORE), (A.CONVERT, A.CONVERT), (A.REPLACE, A.REPLACE))]


def run_norm(loc, n, rep):
    z, nf, nw = NORMS[n]

    def inst(w, wz):
        if wz is None:
            return instant(w, z if nf is A.REPLACE else None, loc)
        return instant(w, z if nw is A.REPLACE else wz, loc)

    norm = Normalization((lambda: zone(z)) if n % 2 else zone(z), nf, nw)
    for cnt in (1, 2):
        for idx in itertools.combinations(TIMED, cnt):
            events = build_events(idx)
            keys = []
            for x in idx:
                s = PAL[x]
                b = None if s.b is None else inst(wall(s.b), s.z)
                e = b if s.e is None else inst(wall(s.e), s.z)
                keys.append((b, e))
            cal = Calendar(events=events)
            before = [str(e) for e in events]
            tl = Timeline(cal, norm)
            qs = [("iter", lambda t: t, lambda b, e: True)]
            for h in (0, 3, 6, 12):
                for wz in (None, "utc", "ny"):
                    a, i, j = wall(h).replace(tzinfo=zone(wz)), inst(wall(h), wz), inst(wall(h + 12), wz)
                    stop = wall(h + 12).replace(tzinfo=zone(wz))
                    qs.append((f"at({a})", lambda t, a=a: t.at(a), lambda b, e, i=i: b <= i < e))
                    qs.append((f"start_after({a})", lambda t, a=a: t.start_after(a), lambda b, e, i=i: b > i))
                    qs.append((f"included({a})", lambda t, a=a, s=stop: t.included(a, s), lambda b, e, i=i, j=j: i <= b and e < j))
                    qs.append((f"overlapping({a})", lambda t, a=a, s=stop: t.overlapping(a, s), lambda b, e, i=i, j=j: max(b, i) < min(e, j) or (b == e and i <= b < j)))
            for q in qs if cnt == 1 else qs[sum(idx) % 3 :: 3]:
                expect_query(rep, events, keys, tl, q, f"[TZ={loc}, {z} {nf} {nw}]")
            rep.expect(before == [str(e) for e in events], lambda: f"querying changed {before} to {[str(e) for e in events]}", "pure")
            rep.state((loc, n, idx))


OPS = [("add", 0), ("add", 3), ("add", 7), ("pop", 0), ("pop", -1), ("begin", 0, 2), ("shift", 0), ("clear",), ("assign", 6, 1), ("allday", 0), ("dup", 0), ("rev",)]


def run_hist(loc, first, rep):
    qs = queries(loc)
    sub = qs[:1] + qs[3::31]
    for watched, rest in itertools.product((False, True), [()] + [(o,) for o in range(len(OPS))] + list(itertools.product(range(len(OPS)), repeat=2))):
        spans = [PAL[1], PAL[6]]
        events = [s.entity(Event, summary="x") for s in spans]
        cal = Calendar(events=events)
        tl = cal.timeline
        model = [[e, key(s, loc)] for e, s in zip(events, spans)]
        for oi in (first,) + rest:
            if watched:
                for q in (sub[0], sub[-1]):
                    expect_query(rep, [m[0] for m in model], [m[1] for m in model], tl, q, f"[TZ={loc}] within {[OPS[o] for o in (first,) + rest]}")
            op = OPS[oi]
            rep.step()
            if op[0] == "add":
                e = PAL[op[1]].entity(Event, summary="n")
                cal.events.append(e)
                model.append([e, key(PAL[op[1]], loc)])
            elif op[0] == "clear":
                cal.events.clear()
                model = []
            elif op[0] == "assign":
                es = [PAL[i].entity(Event) for i in op[1:]]
                cal.events = es
                model = [[e, key(PAL[i], loc)] for e, i in zip(es, op[1:])]
            elif not model:
                continue
            elif op[0] == "pop":
                cal.events.pop(op[1])
                model.pop(op[1])
            elif op[0] == "rev":
                cal.events.reverse()
                model.reverse()
            elif op[0] == "dup":
                cal.events.append(model[0][0])
                model.append(list(model[0]))
            else:
                e = model[0][0]
                if op[0] == "begin":
                    s = Span(op[2], 14, "end", None)
                    e.timespan = s.timespan()
                    k = key(s, loc)
                elif op[0] == "shift":
                    s = Span(20, 22, "end", "utc")
                    e.timespan = s.timespan()
                    k = key(s, loc)
                elif op[0] == "allday":
                    s = Span(0, 24, "end", None, True)
                    e.timespan = s.timespan()
                    k = key(s, loc)
                for m in model:
                    if m[0] is e:
                        m[1] = k
        for q in sub:
            expect_query(rep, [m[0] for m in model], [m[1] for m in model], tl, q, f"[TZ={loc}] after {[OPS[o] for o in (first,) + rest]}")
        rep.expect(cal.timeline is tl or list(cal.timeline) == list(tl), "timeline replaced", "timeline")
        c2 = cal.clone()
        c2.events.append(PAL[0].entity(Event, summary="only in clone"))
        rep.expect(len(list(c2.timeline)) == len(list(tl)) + 1 == sum(1 for m in model if m[1][0]) + 1, lambda: f"timeline of the clone {list(map(str, c2.timeline))} vs {list(map(str, tl))}", "clone")
        rep.state((loc, first, rest, watched))


def run_iters(rep):
    events = build_events([0, 1, 7, 3])
    cal = Calendar(events=events)
    exp = [id(e) for e in cal.timeline]
    for pattern in itertools.product((0, 1), repeat=10):
        its = [iter(cal.timeline), iter(cal.timeline.overlapping(wall(-100), wall(100)))]
        got = [[], []]
        for p in pattern:
            rep.step()
            e = next(its[p], None)
            if e is not None:
                got[p].append(id(e))
        for n in (0, 1):
            got[n] += [id(e) for e in its[n]]
        rep.state(pattern)
        rep.expect(got[0] == exp and got[1] == exp, lambda: f"interleaved iterations {pattern} got {got}", "interleaved")


def run_errors(rep):
    cal = Calendar(events=build_events([0, 6]))
    rep.state("errors")
    for f in ("included", "overlapping"):
        for args in [(wall(6), wall(0)), (Timespan(wall(0), wall(6)), wall(12)), (wall(0), wall(6).replace(tzinfo=timezone.utc)), (wall(0),), (None,), ("2020",), (wall(0), "x")]:
            rep.step()
            try:
                r = list(getattr(cal.timeline, f)(*args))
                rep.fail(f"{f}{args} returned {r}", "invalid-query")
            except (ValueError, TypeError):
                rep.outcome("rejected")

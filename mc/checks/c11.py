"""C11: events, todos and timespans are totally preordered by absolute time, also when mixing floating and zoned times."""
import itertools
from datetime import datetime, timezone
from zoneinfo import ZoneInfo

from ics import Event, Timespan, Todo

from mc.spans import LOCALS, FallSpan, Span, fall_spans, set_local

PROPERTY = "C11"
BOUNDS = {
    "quick": "every ordered pair (hence every triple, through a common key) of ~65 events, ~65 todos and ~65 timespans over 5 points x 4 zone kinds x representations x "
    "3 summaries, incl. missing times, and of 72 of each with times which differ by seconds, minutes and hours, of ~130 around the end of DST (both times of a repeated hour, 5 tzinfo objects), of 30 in a past of the local timezone with another offset, all 4 operators, 3 local timezones; sorting and min/max of every permutation of all 4-element subsets of 9 entries",
    "thorough": "~150 entries of each kind, 4 local timezones",
}
ASSUMPTIONS = ["all times lie after 1900; missing times sort first", "no times skipped by a DST change; repeated times of one zone are not compared with the same instant of another tzinfo"]


def palette(kind, th):
    pts = [0, 6, 24, 30] if not th else [0, 2, 6, 24, 30]
    out = []
    n = 0
    for z in [None, "utc", "ber", "ny"]:
        for b, e in itertools.combinations_with_replacement(pts, 2):
            out.append((Span(b, e, ["end", "duration"][n % 2], z), [None, "a", "b"][n % 3]))
            if th:
                out.append((Span(b, e, ["end", "duration"][(n + 1) % 2], z), ["", "a", "B"][n % 3]))
            n += 1
        out.append((Span(6, None, "none", z), "a"))
        if kind != "event":
            out.append((Span(None, 24, "end", z), "b"))
            out.append((Span(None, 24, "end", z), "a"))
    out += [(Span(0, 24, "end", None, True), "a"), (Span(0, 24, "duration", None, True), "b"), (Span(0, 48, "end", None, True), None), (Span(24, None, "none", None, True), "a")]
    out += [(Span(None, None, "none"), None), (Span(None, None, "none"), "z"), (Span(0, 24, "end", None), "a\u00e9"), (Span(0, 24, "end", None), "A")]
    return out


def fine(kind):
    """times which differ by seconds, minutes, hours and days only"""
    out, n = [], 0
    for z in (None, "ny"):
        for b, e in itertools.combinations_with_replacement([0, 1 / 3600, 59 / 3600, 1 / 60, 61 / 3600, 1, 1 + 1 / 3600, 24 + 1 / 3600], 2):
            out.append((Span(b, e, ["end", "duration"][n % 2], z), ["a", "b"][n % 2]))
            n += 1
    return out


def fall(kind):
    """times around the end of DST"""
    return [(s, ["a", "b", None][n % 3]) for n, s in enumerate(fall_spans())]


def past(kind):
    """times at which the local timezone had another standard offset than today"""
    out = []
    for z in (None, "utc"):
        for n, (b, e) in enumerate(itertools.combinations_with_replacement([0, 90, 120, 180, 210], 2)):
            out.append((FallSpan((b, 0), (e, 0), ["end", "duration"][n % 2], z, base=datetime(2014, 1, 1)), ["a", "b"][n % 2]))
    return out


PALETTES = {"past": past, "fine": fine, "fall": fall}
KINDS = ["event", "todo", "span", "tspan"]


def cases(tier):
    th = tier == "thorough"
    for loc in LOCALS if th else LOCALS[:3]:
        for kind in KINDS:
            for i in range(len(palette(kind, th))):
                yield ["order", tier, loc, kind, i]
            for i in range(0, len(fine(kind)), 1 if th else 2) if loc in LOCALS[: 4 if th else 1] else ():
                yield ["fine", tier, loc, kind, i]
            for i in range(0, len(fall(kind)), 1 if th else 2) if loc in LOCALS[: 4 if th else 2] else ():
                yield ["fall", tier, loc, kind, i]
    for kind in KINDS:
        for i in range(len(past(kind))):
            yield ["past", tier, "Europe/Istanbul", kind, i]
        for combo in itertools.combinations(range(9), 4):
            yield ["sort", loc, list(combo)]
        yield ["mixed", loc]
    yield ["foreign"]


def ref_key(kind, s, summary, loc):
    unset = datetime(1900, 1, 1, tzinfo=ZoneInfo(loc)).astimezone(timezone.utc)
    b, e = s.instants(kind, loc)
    b, e = b or unset, e or unset
    if kind in ("todo", "tspan"):
        b, e = e, b
    return (b, e, summary or "") if kind in ("event", "todo") else (b, e)


def make(kind, s, summary):
    return s.build(kind, summary=summary) if kind in ("event", "todo") else s.build(kind)


def compare(a, b, ka, kb, rep, what):
    rep.step(4)
    got = (a < b, a <= b, a > b, a >= b)
    exp = (ka < kb, ka <= kb, ka > kb, ka >= kb)
    rep.outcome(str(exp))
    rep.expect(got == exp, lambda: f"{what}: {a} <,<=,>,>= {b}: {got}, expected {exp}", "order")


def run_case(case, rep):
    rep.trace()
    if case[0] == "foreign":
        ents = [Event(), Todo(), Timespan()]
        for a in ents:
            for b in [None, 5, "x", datetime(2020, 1, 1)] + [x for x in ents if isinstance(x, Timespan) != isinstance(a, Timespan)]:
                for op in ("__lt__", "__le__", "__gt__", "__ge__"):
                    rep.step()
                    rep.expect(getattr(a, op)(b) is NotImplemented, f"{a} {op} {b}", "foreign")
        rep.state("foreign")
        return
    loc = case[2] if case[0] in ("order", *PALETTES) else case[1]
    set_local(loc)
    try:
        if case[0] in ("order", *PALETTES):
            kind, i, th = case[3], case[4], case[1] == "thorough"
            pal = palette(kind, th) if case[0] == "order" else PALETTES[case[0]](kind)
            s, summ = pal[i]
            a, ka = make(kind, s, summ), ref_key(kind, s, summ, loc)
            for t, tsumm in pal:
                b, kb = make(kind, t, tsumm), ref_key(kind, t, tsumm, loc)
                if case[0] == "fall" and s.z != t.z and (s.ambiguous() or t.ambiguous()) and set(ka[:2]) & set(kb[:2]):
                    continue  # python deems repeated times unequal to the same instant with another tzinfo
                compare(a, b, ka, kb, rep, f"[TZ={loc}] {kind}")
            rep.state((loc, kind, ka))
        elif case[0] == "sort":
            run_sort(case[2], loc, rep)
        else:
            run_mixed(loc, rep)
    finally:
        set_local("UTC")


SORT = [
    (Span(0, 6, "end", "utc"), "a"), (Span(0, 6, "duration", None), "b"), (Span(0, 24, "end", None, True), "a"), (Span(2, 6, "end", "ber"), "a"),
    (Span(None, None, "none"), "a"), (Span(0, 6, "end", "utc"), "A"), (Span(6, None, "none", "ny"), None), (Span(-6, 30, "end", "ny"), "x"), (Span(0, 6, "duration", "utc"), "a"),
]


def run_sort(idx, loc, rep):
    for kind in ("event", "todo"):
        ents = [(make(kind, *SORT[i]), ref_key(kind, *SORT[i], loc), i) for i in idx]
        for perm in itertools.permutations(ents):
            rep.step()
            got = sorted(p[0] for p in perm)
            back = [next(p for p in perm if p[0] is g) for g in got]
            # python's sort is stable, so the expected result is unique
            exp = sorted(perm, key=lambda p: p[1])
            rep.expect([p[2] for p in back] == [p[2] for p in exp], lambda: f"[TZ={loc}] sorted {[str(p[0]) for p in perm]}: {[str(g) for g in got]}", "sort")
            rep.expect(min(p[0] for p in perm) is min(perm, key=lambda p: p[1])[0], lambda: f"min of {perm}", "min")
            rep.expect(max(p[0] for p in perm) is max(perm, key=lambda p: p[1])[0], lambda: f"max of {perm}", "max")
        rep.state((kind, tuple(idx), loc))


def run_mixed(loc, rep):
    """events and todos can be compared with each other, by the key of each of them"""
    pe, pt = palette("event", False)[::3], palette("todo", False)[::3]
    for s, summ in pe:
        a, ka = make("event", s, summ), ref_key("event", s, summ, loc)
        for t, tsumm in pt:
            b, kb = make("todo", t, tsumm), ref_key("todo", t, tsumm, loc)
            compare(a, b, ka, kb, rep, f"[TZ={loc}] mixed")
            compare(b, a, kb, ka, rep, f"[TZ={loc}] mixed")

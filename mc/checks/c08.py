"""C08: events, todos and timespans are always in a valid state; invalid changes are rejected and leave everything as it was."""
import itertools
from datetime import date, datetime, timedelta, timezone

import ics
from ics import Event, EventTimespan, Timespan, Timezone, Todo, TodoTimespan

PROPERTY = "C08"
BOUNDS = {
    "quick": "every combination of 12 begin x 12 end x 7 duration values x 2 precisions for 3 kinds of timespan; breadth-first search over all states reachable "
    "with <=2 operations from 4 start states per kind, every one of ~90 operations applied in each of them (so all histories of <=3 operations)",
    "thorough": "all states reachable with <=5 operations (histories of <=6 operations)",
}
ASSUMPTIONS = ["times have whole seconds", "wall clock arithmetic within one zone offset; DST is covered by the timezone properties", "local time is UTC"]

BERLIN = None


def berlin():
    global BERLIN
    if BERLIN is None:
        BERLIN = Timezone.from_tzid("Europe/Berlin")
    return BERLIN


CET = timezone(timedelta(hours=1), "cet")
UTC = timezone.utc
# model values: wall clock + zone token (None, "u", "b"); all of them in the winter, when Berlin is at +01:00
MODEL_TZ = {None: None, "u": UTC, "b": CET}
DT = {}
for z in (None, "u", "b"):
    for n, w in enumerate([datetime(2020, 3, 1), datetime(2020, 3, 1, 12, 30), datetime(2020, 3, 2), datetime(2020, 3, 3)]):
        DT[(z or "n") + str(n)] = w.replace(tzinfo=MODEL_TZ[z])
DUR = {"0": timedelta(0), "30m": timedelta(minutes=30), "1d": timedelta(days=1), "2d": timedelta(days=2), "36h": timedelta(hours=36), "-1h": timedelta(hours=-1), "0.4s": timedelta(milliseconds=400)}
RAW_DT = {"date2": (date(2020, 3, 2), "n2"), "tuple2": ((2020, 3, 2, 0, 0), "n2"), "dict1": (dict(year=2020, month=3, day=1, hour=12, minute=30), "n1")}
RAW_DUR = {"t1": ((1,), "1d"), "d36": ({"hours": 36}, "36h")}
BAD = {"str": "2020-03-01", "int": 5, "list": [2020, 3, 1]}


def real_tz(tz):
    return berlin() if tz is CET else tz


def real_dt(v):
    return v if v is None or v.tzinfo is None else v.replace(tzinfo=real_tz(v.tzinfo))


def norm(d):
    return None if d is None else (d.replace(tzinfo=None), None if d.tzinfo is None else d.utcoffset())


KINDS = {"event": (Event, EventTimespan), "todo": (Todo, TodoTimespan), "plain": (None, Timespan)}


def valid(kind, m):
    """the rules for valid combinations, m = (begin, end, duration, precision)"""
    b, e, d, p = m
    if p == "day":
        for t in (b, e):
            # without a begin the rules apply to the end as well
            if t is not None and (t.tzinfo is not None or (t.hour, t.minute, t.second, t.microsecond) != (0, 0, 0, 0)):
                return False
    if e is not None and d is not None:
        return False
    if b is None:
        return d is None and not (kind == "event" and e is not None)
    if e is not None:
        if (b.tzinfo is None) != (e.tzinfo is None) or e < b:
            return False
        if p == "day" and (e - b < timedelta(days=1)):
            return False
    if d is not None:
        if d < timedelta(0):
            return False
        if p == "day" and (d < timedelta(days=1) or d % timedelta(days=1)):
            return False
    return True


def eff_dur(kind, m):
    b, e, d, p = m
    if d is not None:
        return d
    if b is not None and e is not None:
        return e - b
    if kind == "event":
        return timedelta(days=1) if p == "day" else timedelta(0)
    return None


def eff_end(kind, m):
    b, e, d, p = m
    if e is not None:
        return e
    if b is not None and eff_dur(kind, m) is not None:
        return b + eff_dur(kind, m)
    return None


def rep_of(m):
    return "duration" if m[2] is not None else "end" if m[1] is not None else None


def apply(kind, m, op):
    """the model's successor state or None if the operation has to be rejected"""
    b, e, d, p = m
    name, arg = op[0], op[1] if len(op) > 1 else None
    if name in ("begin", "end", "due", "duration"):
        if arg in BAD:
            return None
        if name == "duration":
            v = None if arg is None else DUR[RAW_DUR[arg][1] if arg in RAW_DUR else arg]
            new = (b, None, v, p)
        else:
            v = None if arg is None else DT[RAW_DT[arg][1] if arg in RAW_DT else arg]
            new = (v, e, d, p) if name == "begin" else (b, v, None, p)
    elif name == "allday":
        if p == "day":
            return m
        nb, ne = b, eff_end(kind, m)
        if nb is not None:
            nb = datetime(nb.year, nb.month, nb.day)
        if ne is not None:
            f = datetime(ne.year, ne.month, ne.day)
            ne = f if f == ne.replace(tzinfo=None) else f + timedelta(days=1)
            if ne == nb:
                ne += timedelta(days=1)
        new = (nb, None, ne - nb, "day") if d is not None else (nb, ne, None, "day")
    elif name == "unset":
        new = (b, e, d, "second")
    elif name == "convert_end":
        cur = rep_of(m)
        if arg == "due" and kind != "event":
            arg = "end"
        if arg == cur:
            return m
        if cur == "end" and arg == "duration":
            if b is None:
                # nothing to compute a duration from
                new = (b, None, None, p)
            else:
                new = (b, None, e - b, p)
        elif cur == "duration" and arg == "end":
            new = (b, b + d, None, p)
        elif arg is None:
            new = (b, None, None, p)
        else:
            return None
    elif name in ("replace_tz", "convert_tz"):
        if p == "day":
            return None
        tz = MODEL_TZ[arg]
        if name == "replace_tz":
            f = lambda t: None if t is None else t.replace(tzinfo=tz)
        else:
            f = lambda t: None if t is None else t.astimezone(tz or UTC) if t.tzinfo else t.replace(tzinfo=UTC).astimezone(tz or UTC)
        new = (f(b), f(e), d, p)
    elif name == "timespan":
        if arg == "wrong":
            return None
        new = SPANS[arg]
        if not valid(kind, new):
            return m  # can't even be built, skipped
    return new if valid(kind, new) else None


SPANS = {
    "empty": (None, None, None, "second"),
    "be": (DT["n0"], DT["n1"], None, "second"),
    "bd": (DT["b1"], None, DUR["36h"], "second"),
    "day": (DT["n0"], None, DUR["2d"], "day"),
    "b": (DT["u0"], None, None, "second"),
    "e": (None, DT["n2"], None, "second"),
    "dayend": (DT["n0"], DT["n3"], None, "day"),
}


def ops(kind):
    out = []
    ends = ["end"] if kind == "event" else ["end", "due"]
    for n in ["begin"] + ends:
        for v in list(DT) + [None] + (list(RAW_DT) + list(BAD) if n != "due" else []):
            out.append([n, v])
    for v in list(DUR) + list(RAW_DUR) + [None] + list(BAD):
        if v != "list":
            out.append(["duration", v])
    out += [["allday"], ["unset"]]
    out += [["convert_end", x] for x in ["end", "duration", None] + (["due"] if kind != "event" else [])]
    out += [["replace_tz", z] for z in MODEL_TZ] + [["convert_tz", z] for z in MODEL_TZ]
    out += [["timespan", s] for s in list(SPANS) + ["wrong"]]
    return out


STARTS = {"event": ["empty", "be", "bd", "day"], "todo": ["empty", "be", "e", "dayend"], "plain": ["empty", "be", "e", "day"]}
PLAIN_SKIP = {"duration": ["str", "int"], "begin": [], "end": []}


def plain_ops():
    return [o for o in ops("plain") if o[0] in ("allday", "unset", "convert_end", "replace_tz", "convert_tz") and o != ["convert_end", "due"]]


def key(m):
    return (norm(m[0]), norm(m[1]), m[2], m[3])


def cases(tier):
    depth = 5 if tier == "thorough" else 2
    for kind in KINDS:
        for b in list(DT) + [None]:
            yield ["combos", kind, b]
    for kind in ("event", "todo", "plain"):
        for b in list(DT) + [None]:
            yield ["init", kind, b]
    for kind in ("event", "todo"):
        seen = {}
        frontier = []
        for s in STARTS[kind]:
            k = key(SPANS[s])
            if k not in seen:
                seen[k] = 1
                frontier.append((s, [], SPANS[s]))
        menu = ops(kind)
        for d in range(depth + 1):
            nxt = []
            for s, path, m in frontier:
                yield ["state", kind, s, path]
                if d == depth:
                    continue
                for o in menu:
                    n = apply(kind, m, o)
                    if n is not None and key(n) not in seen:
                        seen[key(n)] = 1
                        nxt.append((s, path + [o], n))
            frontier = nxt


def build(kind, m):
    return KINDS[kind][1](begin_time=real_dt(m[0]), end_time=real_dt(m[1]), duration=m[2], precision=m[3])


def real_apply(ent, op):
    name, arg = op[0], op[1] if len(op) > 1 else None
    if name in ("begin", "end", "due"):
        if arg in BAD:
            v = BAD[arg]
        elif arg in RAW_DT:
            v = RAW_DT[arg][0]
        else:
            v = None if arg is None else real_dt(DT[arg])
        setattr(ent, name, v)
    elif name == "duration":
        ent.duration = BAD[arg] if arg in BAD else RAW_DUR[arg][0] if arg in RAW_DUR else None if arg is None else DUR[arg]
    elif name == "allday":
        ent.make_all_day()
    elif name == "unset":
        ent.unset_all_day()
    elif name == "convert_end":
        ent.convert_end(arg)
    elif name == "replace_tz":
        ent.replace_timezone(real_tz(MODEL_TZ[arg]))
    elif name == "convert_tz":
        ent.convert_timezone(real_tz(MODEL_TZ[arg]))
    elif name == "timespan":
        if arg == "wrong":
            ent.timespan = TodoTimespan() if isinstance(ent, Event) else EventTimespan()
        else:
            ent.timespan = build("event" if isinstance(ent, Event) else "todo", SPANS[arg])


def observe(ts):
    return (norm(ts.begin_time), norm(ts.end_time), ts.duration, ts.precision)


def check_derived(kind, ent, m, rep, where):
    """all the derived values of the entity (or timespan) agree with the model"""
    b, e, d, p = m
    ts = ent.timespan if kind != "plain" else ent
    if not rep.expect(observe(ts) == key(m), lambda: f"{where}: got {observe(ts)}, expected {key(m)}", "state"):
        return False
    ed, ee = eff_dur(kind, m), eff_end(kind, m)
    got = dict(
        begin=norm(ts.get_begin()), end=norm(ts.get_effective_end()), duration=ts.get_effective_duration(), all_day=ts.is_all_day(),
        floating=ts.is_floating(), rep=ts.get_end_representation(), explicit=ts.has_explicit_end(), bool=bool(ts),
    )
    ref = b if b is not None else e
    exp = dict(
        begin=norm(b), end=norm(ee), duration=ed, all_day=p == "day", floating=ref is None or ref.tzinfo is None, rep=rep_of(m),
        explicit=rep_of(m) is not None, bool=b is not None or e is not None,
    )
    if kind != "plain":
        got2 = dict(begin=norm(ent.begin), end=norm(ent.end), duration=ent.duration, all_day=ent.all_day, floating=ent.floating, rep=ent.end_representation, explicit=ent.has_explicit_end, bool=bool(ent.timespan))
        rep.expect(got2 == exp, lambda: f"{where}: entity reports {got2}, expected {exp}", "derived")
        if kind == "todo":
            got3 = (norm(ent.due), ent.due_representation, ent.has_explicit_due)
            rep.expect(got3 == (norm(ee), exp["rep"], exp["explicit"]), lambda: f"{where}: due values {got3}, expected {exp}", "derived")
    return rep.expect(got == exp, lambda: f"{where}: timespan reports {got}, expected {exp}", "derived") and bool(str(ent)) and bool(repr(ent))


def run_case(case, rep):
    what, kind = case[0], case[1]
    rep.trace()
    if what == "combos":
        b = None if case[2] is None else DT[case[2]]
        for e in [None] + list(DT.values()):
            for d in [None] + list(DUR.values()):
                for p in ("second", "day"):
                    m = (b, e, d, p)
                    rep.step()
                    rep.state((kind, key(m)))
                    try:
                        ts = build(kind, m)
                    except ValueError:
                        rep.outcome(kind + "-rejected")
                        rep.expect(not valid(kind, m), f"{kind} timespan {m} was rejected", "combo")
                        continue
                    rep.outcome(kind + "-accepted")
                    if rep.expect(valid(kind, m), f"invalid {kind} timespan {m} was accepted", "combo"):
                        if kind == "plain":
                            check_derived(kind, ts, m, rep, f"new timespan {m}")
                            for o in plain_ops():
                                run_plain_op(ts, m, o, rep)
                        else:
                            check_derived(kind, KINDS[kind][0](timespan=ts), m, rep, f"new {kind} {m}")
    elif what == "init":
        run_init(kind, case[2], rep)
    elif what == "state":
        s, path = case[2], case[3]
        for op in ops(kind):
            ent = KINDS[kind][0](timespan=build(kind, SPANS[s]), summary="s")
            m = SPANS[s]
            for o in path + [op]:
                m = one(kind, ent, m, o, rep)
                if m is None:
                    break


def one(kind, ent, m, op, rep):
    rep.step()
    if op[0] == "timespan" and op[1] != "wrong" and not valid(kind, SPANS[op[1]]):
        return m
    exp = apply(kind, m, op)
    before = ent.clone()
    try:
        real_apply(ent, op)
        ok = True
    except (ValueError, TypeError) as e:
        ok = False
        if isinstance(e, TypeError) and op != ["timespan", "wrong"]:
            rep.fail(f"{kind} {key(m)} {op}: raised {e!r} instead of ValueError", "error-type")
    where = f"{kind} {key(m)} {op}"
    if exp is None:
        rep.outcome("op-rejected")
        if not rep.expect(not ok, lambda: f"{where}: invalid change was accepted, now {ent.timespan}", "accepted"):
            return None
        rep.expect(ent == before, lambda: f"{where}: rejected change modified the {kind}: {before} -> {ent}", "atomic")
        check_derived(kind, ent, m, rep, where + " (rejected)")
        rep.state((kind, key(m)))
        return m
    rep.outcome("op-accepted")
    if not rep.expect(ok, lambda: f"{where}: valid change was rejected", "rejected"):
        return None
    if not check_derived(kind, ent, exp, rep, where):
        return None
    rep.expect((ent.summary, ent.uid, ent.dtstamp) == (before.summary, before.uid, before.dtstamp), lambda: f"{where}: changed other attributes", "others")
    rep.state((kind, key(exp)))
    return exp


def run_plain_op(ts, m, op, rep):
    rep.step()
    exp = apply("plain", m, op)
    name, arg = op[0], op[1] if len(op) > 1 else None
    try:
        new = {
            "allday": lambda: ts.make_all_day(),
            "unset": lambda: ts.replace(precision="second"),
            "convert_end": lambda: ts.convert_end(arg),
            "replace_tz": lambda: ts.replace_timezone(real_tz(MODEL_TZ[arg])),
            "convert_tz": lambda: ts.convert_timezone(real_tz(MODEL_TZ[arg])),
        }[name]()
    except ValueError:
        new = None
    rep.expect(observe(ts) == key(m), f"plain {key(m)} {op}: immutable timespan changed to {observe(ts)}", "immutable")
    if exp is None:
        rep.expect(new is None, f"plain {key(m)} {op}: accepted as {new}", "accepted")
    elif rep.expect(new is not None, f"plain {key(m)} {op}: rejected", "rejected"):
        check_derived("plain", new, exp, rep, f"plain {key(m)} {op}")


def run_init(kind, bn, rep):
    b = None if bn is None else DT[bn]
    if kind == "plain":
        for bad in (date(2020, 3, 1), "2020", 5, (2020, 3, 1)):
            for n in ("begin_time", "end_time", "duration"):
                rep.step()
                try:
                    Timespan(**{n: bad})
                    rep.fail(f"Timespan({n}={bad!r}) was accepted", "type")
                except (TypeError, ValueError):
                    rep.outcome("type-rejected")
        return
    clazz = KINDS[kind][0]
    endname = "end" if kind == "event" else "due"
    for e in [None] + list(DT):
        for d in [None] + list(DUR):
            for ts in (False, True):
                m = (b, None if e is None else DT[e], None if d is None else DUR[d], "second")
                kw = {"begin": real_dt(b), endname: None if e is None else real_dt(DT[e]), "duration": m[2]}
                if ts:
                    kw["timespan"] = KINDS[kind][1]()
                rep.step()
                rep.state((kind, key(m)))
                try:
                    ent = clazz(**kw)
                except ValueError:
                    rep.outcome("init-rejected")
                    rep.expect(not valid(kind, m) or ts and m[:3] != (None, None, None), f"{clazz.__name__}({kw}) was rejected", "init")
                    continue
                if rep.expect(valid(kind, m) and not (ts and m[:3] != (None, None, None)), f"{clazz.__name__}({kw}) was accepted as {ent}", "init"):
                    rep.outcome("init-accepted")
                    check_derived(kind, ent, m, rep, f"{clazz.__name__}({kw})")

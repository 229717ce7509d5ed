"""C16: exactly the well-formed components are accepted, and what is read doesn't depend on the order of properties or on other components."""
import itertools
import re
from datetime import datetime, timedelta, timezone

from ics import Calendar, Event, Timezone, Todo
from ics.contentline import ParseError, string_to_container
from mc import ref
from mc.checks import c15

PROPERTY = "C16"
BOUNDS = {
    "quick": "every sequence of <=3 out of 25 time properties (4 names x floating/UTC/zoned/date x order, durations) in events and todos; a document with all kinds of components: each "
    "of the ~80 properties removed, repeated (same and different value) at every position, moved to every position and swapped with every other one; ~110 malformed values; "
    "every sequence of <=3 out of 12 entries in one calendar against reading each alone; wrong roots; every part of a recurrence rule and every number, offset and date with the smallest and largest values and those beyond",
    "thorough": "sequences of <=4 time properties, all pairs of moved properties, sequences of <=4 entries",
}
ASSUMPTIONS = ["'reject' means raising ValueError or ParseError", "an entry without UID or DTSTAMP gets new ones"]

BER = timezone(timedelta(hours=2), "CEST")  # what Europe/Berlin is in the summer
W = [datetime(2020, 7, 1), datetime(2020, 7, 1, 12), datetime(2020, 7, 2), datetime(2020, 7, 3)]


def menu(kind):
    end = "DTEND" if kind == "event" else "DUE"
    other = "DUE" if kind == "event" else "DTEND"
    out = []
    for name, idx in (("DTSTART", (0, 1)), (end, (0, 1, 2))):
        for z in ("n", "u", "b", "d"):
            for i in idx:
                if z == "d" and i == 1:
                    i = 3
                if z == "b" and i == 2 or z == "u" and i == 2:
                    continue
                out.append((name, z, i))
    out += [(other, "n", 2), (other, "d", 2)]
    out += [("DURATION", None, s) for s in (0, 3600, 86400, -3600, 90000)]
    return out


DURTXT = {0: "PT0S", 3600: "PT1H", 86400: "P1D", -3600: "-PT1H", 90000: "P1DT1H"}


def tline(t):
    name, z, v = t
    if name == "DURATION":
        return "DURATION:" + DURTXT[v]
    w = W[v]
    return {
        "n": f"{name}:{w:%Y%m%dT%H%M%S}", "u": f"{name}:{w:%Y%m%dT%H%M%S}Z", "b": f"{name};TZID=Europe/Berlin:{w:%Y%m%dT%H%M%S}", "d": f"{name};VALUE=DATE:{w:%Y%m%d}",
    }[z]


def tmodel(kind, seq):
    """None if rejected, else (begin, end, duration, allday, zone kinds)"""
    names = [t[0] for t in seq]
    if len(set(names)) != len(names):
        return None
    end = "DTEND" if kind == "event" else "DUE"
    d = {t[0]: t for t in seq}
    if set(d) - {"DTSTART", end, "DURATION"}:
        return None
    b, e, dur = d.get("DTSTART"), d.get(end), d.get("DURATION")
    if e and dur:
        return None
    if not b and dur:
        return None
    if not b and e and kind == "event":
        return None
    if b and e:
        if (b[1] == "d") != (e[1] == "d") or (b[1] in "nd") != (e[1] in "nd"):
            return None
        ib, ie = (W[x[2]].replace(tzinfo={"u": timezone.utc, "b": BER}.get(x[1])) for x in (b, e))
        if ie < ib or b[1] == "d" and ie < ib + timedelta(days=1):
            return None
    if dur:
        if dur[2] < 0 or b[1] == "d" and (dur[2] < 86400 or dur[2] % 86400):
            return None
    day = any(x and x[1] == "d" for x in (b, e))
    return (b and (W[b[2]], b[1]), e and (W[e[2]], e[1]), dur and timedelta(seconds=dur[2]), day)


def zkind(dt):
    if dt.tzinfo is None:
        return "n"
    return {timedelta(0): "u", timedelta(hours=2): "b"}[dt.utcoffset()]


ENTRIES = [
    "BEGIN:VEVENT\nUID:1\nDTSTAMP:20200101T000000Z\nDTSTART;VALUE=DATE:20200101\nEND:VEVENT",
    "BEGIN:VEVENT\nUID:2\nDTSTAMP:20200101T000000Z\nEND:VEVENT",
    "BEGIN:VEVENT\nUID:3\nDTSTAMP:20200101T000000Z\nDTSTART:20200101T000000\nDURATION:PT1H\nCATEGORIES:a,b\nSUMMARY:s\nEND:VEVENT",
    "BEGIN:VTODO\nUID:4\nDTSTAMP:20200101T000000Z\nDUE:20200101T000000\nSUMMARY:t\nEND:VTODO",
    "BEGIN:VTODO\nUID:5\nDTSTAMP:20200101T000000Z\nDUE;VALUE=DATE:20200101\nDTSTART;VALUE=DATE:20191230\nEND:VTODO",
    "BEGIN:VTODO\nUID:6\nDTSTAMP:20200101T000000Z\nEND:VTODO",
    "BEGIN:VEVENT\nUID:7\nDTSTAMP:20200101T000000Z\nDTSTART;TZID=My/Zone;X-P=1:20200101T000000\nATTACH:http://x\nATTENDEE;CN=x:mailto:a\nBEGIN:VALARM\nACTION:DISPLAY\nTRIGGER:PT0S\nREPEAT:1\nDURATION:PT1H\nEND:VALARM\nEND:VEVENT",
    "BEGIN:VEVENT\nUID:8\nDTSTAMP:20200101T000000Z\nX-A:1\nSUMMARY;X-P=2:q\nDTSTART:20200101T000000Z\nDTEND:20200101T000000Z\nBEGIN:VALARM\nACTION:AUDIO\nX-B:1\nEND:VALARM\nEND:VEVENT",
    "BEGIN:VJOURNAL\nUID:9\nEND:VJOURNAL",
    "BEGIN:VTIMEZONE\nTZID:My/Zone\nX-A:1\nBEGIN:STANDARD\nTZOFFSETFROM:+0100\nTZOFFSETTO:+0130\nDTSTART:20100101T000000\nRRULE:FREQ=YEARLY\nEND:STANDARD\nEND:VTIMEZONE",
    "BEGIN:VEVENT\nUID:1\nDTSTAMP:20200101T000000Z\nDTSTART;VALUE=DATE:20200101\nDURATION:P2D\nEND:VEVENT",
    "BEGIN:VTODO\nUID:11\nDTSTAMP:20200101T000000Z\nDTSTART:20200101T000000\nDURATION:P2D\nPERCENT:5\nEND:VTODO",
]
TZ_IDX = 9

# (component, property line) which make the whole document unreadable
BAD = {
    "VCALENDAR": [],
    "VTIMEZONE": ["TZURL;VALUE=TEXT:x", "LAST-MODIFIED:x"],
    "STANDARD": ["TZOFFSETTO:+1", "TZOFFSETTO:x", "TZOFFSETTO:", "DTSTART:x", "DTSTART:", "RRULE:", "RRULE:FREQ=SOMETIMES", "RRULE:COUNT=1", "RRULE:x", "RDATE:x", "TZOFFSETFROM:+01000"],
    "VEVENT": [
        "DTSTART:x", "DTSTART:", "DTSTART;VALUE=DATE:20200101T000000", "DTSTART;VALUE=DATE:", "DTSTART;VALUE=PERIOD:20200101T000000/PT1H", "DTSTART;VALUE=DATE,DATE-TIME:20200101",
        "DTSTART:20200230T000000", "DTSTART:20200101T250000", "DTSTART;TZID=No/Where:20200101T000000", "DTSTART;TZID=Europe/Berlin,Europe/Paris:20200101T000000", "DTEND:x", "DTEND:19000101T000000",
        "DURATION:x", "DURATION:", "DURATION:PT1H", "STATUS:X", "STATUS:COMPLETED", "STATUS:NEEDS-ACTION", "STATUS:", "CREATED:x", "CREATED:", "LAST-MODIFIED:x", "DTSTAMP:x", "DTSTAMP:",
        "GEO:1", "GEO:x;y", "GEO:1;2;3", "GEO:", "GEO:;", "ATTACH;VALUE=BINARY:a", "ATTACH;VALUE=BINARY;ENCODING=8BIT:AAAA", "ATTACH;VALUE=BINARY;ENCODING=BASE64,BASE64:AAAA", "ATTACH;VALUE=TEXT:a", "TRANSPARENT:perhaps", "TRANSPARENT:", "SUMMARY;VALUE=INTEGER:1", "UID;VALUE=A,B:1",
        "SUMMARY:a\\", "URL;VALUE=DATE:20200101",
    ],
    "VTODO": ["DUE:x", "DTEND:20200701T120000Z", "STATUS:X", "STATUS:TENTATIVE1", "PERCENT:x", "PERCENT:101", "PERCENT:-1", "PERCENT:", "PERCENT:1.5", "PRIORITY:10", "PRIORITY:-1", "PRIORITY:x", "PRIORITY:", "COMPLETED:x", "DTSTART;VALUE=DATE:20200701", "DUE;VALUE=DATE:20200801"],
    "VALARM": ["TRIGGER:x", "TRIGGER:", "TRIGGER;VALUE=DATE-TIME:x", "TRIGGER;VALUE=DATE-TIME:PT1H", "TRIGGER:20200101T000000Z", "TRIGGER;VALUE=TEXT:x", "REPEAT:x", "REPEAT:", "DURATION:x", "DURATION:"],
}
REQUIRED = {"VCALENDAR": {"VERSION", "PRODID"}, "VTIMEZONE": {"TZID"}, "STANDARD": {"TZOFFSETFROM", "TZOFFSETTO", "DTSTART"}, "DAYLIGHT": {"TZOFFSETFROM", "TZOFFSETTO", "DTSTART"}, "VALARM": {"ACTION"}, "VEVENT": set(), "VTODO": set()}
MULTI = {"CATEGORIES", "ATTENDEE", "ATTACH", "RRULE", "RDATE", "EXDATE", "EXRULE"}


def multi(comp, name, alarm_action=None):
    return name in MULTI and not (comp.name == "VALARM" and name == "ATTACH" and ("ACTION", (), "AUDIO") in comp.items)


def removal_needs(comp, name):
    """other properties which depend on this one"""
    if name == "DTSTART":
        return any(not isinstance(x, ref.C) and x[0] in ("DTEND", "DURATION") for x in comp.items)
    return False


def cases(tier):
    th = tier == "thorough"
    for kind in ("event", "todo"):
        for i in range(len(menu(kind))):
            yield ["times", kind, [i], 4 if th else 3]
        yield ["times", kind, [], 0]
    paths = [list(p) for p, _ in c15.comps(c15.base())]
    for p in paths:
        yield ["remove", p]
        yield ["repeat", p]
        yield ["move", p, th]
        yield ["bad", p]
    n = len(text_of(c15.base()).split("\r\n"))
    for i in range(0, n, 8):
        yield ["spelling", i, min(i + 8, n)]
    yield ["roots"]
    for f in ("YEARLY", "MONTHLY", "WEEKLY", "DAILY"):
        yield ["rules", f]
    yield ["limits"]
    for n in range(4 if not th else 5):
        for c in itertools.product(range(len(ENTRIES)), repeat=n):
            if n < 3 or len(set(c)) == n:
                if n == 0 or c[0] == 0 or True:
                    yield ["seq", list(c)] if n < 2 else ["seq", list(c)]


def read(text):
    try:
        return Calendar(text)
    except (ValueError, ParseError):
        return None


def text_of(doc):
    return "\r\n".join(c15.write(doc))


def run_case(case, rep):
    rep.trace()
    {"times": run_times, "remove": run_remove, "repeat": run_repeat, "move": run_move, "bad": run_bad, "spelling": run_spelling, "roots": run_roots, "rules": run_rules, "limits": run_limits, "seq": run_seq}[case[0]](case, rep)


def run_times(case, rep):
    _, kind, pre, depth = case
    m = menu(kind)
    for n in range(0, depth - len(pre) + 1 if depth else 1):
        for tail in itertools.product(range(len(m)), repeat=n):
            seq = [m[i] for i in pre + list(tail)]
            name = "VEVENT" if kind == "event" else "VTODO"
            cls = Event if kind == "event" else Todo
            lines = [f"BEGIN:{name}", "UID:u", "DTSTAMP:20200101T000000Z"] + [tline(t) for t in seq] + ["SUMMARY:s", f"END:{name}"]
            want = tmodel(kind, seq)
            if want is None and len(seq) == 4 and any(tmodel(kind, c) is None for c in itertools.combinations(seq, 1)):
                continue  # lines which are never valid
            rep.step()
            try:
                x = cls.from_container(string_to_container("\r\n".join(lines)))
            except (ValueError, ParseError):
                rep.outcome("rejected")
                rep.expect(want is None, lambda: f"{kind} with {lines[3:-2]} was rejected", "times")
                continue
            rep.outcome("accepted")
            rep.state((kind, tuple(seq)))
            if not rep.expect(want is not None, lambda: f"{kind} with {lines[3:-2]} was accepted as {x.timespan!r}", "times"):
                continue
            ts = x.timespan
            got = (
                ts.begin_time and (ts.begin_time.replace(tzinfo=None), "d" if ts.is_all_day() else zkind(ts.begin_time)),
                ts.end_time and (ts.end_time.replace(tzinfo=None), "d" if ts.is_all_day() else zkind(ts.end_time)), ts.duration, ts.is_all_day(),
            )
            rep.expect(got == want, lambda: f"{kind} with {lines[3:-2]} was read as {got} instead of {want}", "times-value")


def run_remove(case, rep):
    path = case[1]
    comp = c15.at(c15.base(), path)
    full = ref.parse(read(text_of(c15.base())).serialize())[0]
    if comp.name == "VTIMEZONE":  # a zone needs an observance, and they are what remains to be read of it
        obs = [i for i, x in enumerate(comp.items) if isinstance(x, ref.C)]
        for n in range(len(obs) + 1):
            for rm in itertools.combinations(obs, n):
                doc = c15.base()
                c = c15.at(doc, path)
                c.items = [x for i, x in enumerate(c.items) if i not in rm]
                rep.step()
                rep.expect((read(text_of(doc)) is None) == (n == len(obs)), f"a timezone with {len(obs) - n} observances was {'accepted' if n == len(obs) else 'rejected'}", "observances")
    for i, x in enumerate(comp.items):
        doc = c15.base()
        c = c15.at(doc, path)
        del c.items[i]
        rep.step()
        cal = read(text_of(doc))
        if isinstance(x, ref.C):
            ok = x.name != "VTIMEZONE"
            name = x.name
        else:
            name = x[0]
            ok = name not in REQUIRED[comp.name] and not removal_needs(comp, name)
        rep.state((tuple(path), i))
        rep.outcome("optional" if ok else "required")
        if not rep.expect((cal is not None) == ok, lambda: f"{comp.name} without {name} was {'accepted' if cal else 'rejected'}", "required"):
            continue
        if comp.name == "VCALENDAR" and name == "VEVENT" and i == 5:
            doc.items = [y for y in doc.items if not (isinstance(y, ref.C) and y.name == "VTIMEZONE")]  # not used anymore
        if ok and name not in ("UID", "DTSTAMP", "RDATE"):
            out = ref.parse(cal.serialize())[0]
            rep.expect(c15.unordered(out) == c15.unordered(doc), lambda: f"{comp.name} without {name} was read as {out}", "optional")


def run_repeat(case, rep):
    path = case[1]
    comp = c15.at(c15.base(), path)
    for i, x in enumerate(comp.items):
        if isinstance(x, ref.C):
            continue
        for pos in range(len(comp.items) + 1):
            for val in (x[2], {"VERSION": "1.0", "STATUS": "CANCELLED"}.get(x[0], x[2])):
                doc = c15.base()
                c = c15.at(doc, path)
                c.items.insert(pos, (x[0], x[1], val))
                rep.step()
                cal = read(text_of(doc))
                ok = multi(comp, x[0])
                rep.state((tuple(path), i, pos))
                rep.outcome("multi" if ok else "single")
                if rep.expect((cal is not None) == ok, lambda: f"{comp.name} with {x} given twice was {'accepted' if cal else 'rejected'}", "multiplicity") and ok and x[0] not in ("RRULE", "RDATE"):
                    out = ref.parse(cal.serialize())[0]
                    rep.expect(c15.unordered(out) == c15.unordered(doc), lambda: f"{comp.name} with {x} given twice was written as {out}", "multi")


def run_move(case, rep):
    _, path, th = case
    comp = c15.at(c15.base(), path)
    want = read(text_of(c15.base())).serialize()
    n = len(comp.items)
    perms = [list(range(n))[::-1]]
    for i in range(n):
        for j in range(n):
            if i != j:
                p = list(range(n))
                p.insert(j, p.pop(i))
                perms.append(p)
                q = list(range(n))
                q[i], q[j] = q[j], q[i]
                perms.append(q)
    if th:
        perms += [[p[i] for i in q] for p, q in itertools.product(perms[: 2 * n], perms[-2 * n :])]
    seen = set()
    for p in perms:
        # items which can occur several times keep their order
        if tuple(p) in seen:
            continue
        seen.add(tuple(p))
        keyed = [comp.items[i].name if isinstance(comp.items[i], ref.C) else comp.items[i][0] for i in p]
        orig = [x.name if isinstance(x, ref.C) else x[0] for x in comp.items]
        ren = {"STANDARD": "OBS", "DAYLIGHT": "OBS"}
        if any([i for i, k in zip(p, keyed) if ren.get(k, k) == name] != [i for i, k in enumerate(orig) if ren.get(k, k) == name] for name in {ren.get(k, k) for k in orig}):
            continue
        doc = c15.base()
        c = c15.at(doc, path)
        c.items = [c.items[i] for i in p]
        rep.step()
        cal = read(text_of(doc))
        rep.state((tuple(path), tuple(p)))
        rep.expect(cal is not None and cal.serialize() == want, lambda: f"{comp.name} with properties in the order {keyed} is read as {cal and cal.serialize()!r}", "order")


def run_bad(case, rep):
    path = case[1]
    comp = c15.at(c15.base(), path)
    for l in BAD.get("STANDARD" if comp.name == "DAYLIGHT" else comp.name, []):
        name = ref.line(l)[0]
        for keep in (False, True):
            doc = c15.base()
            c = c15.at(doc, path)
            pos = [i for i, x in enumerate(c.items) if not isinstance(x, ref.C) and x[0] == name]
            if comp.name == "VEVENT" and name == "DURATION" and l == "DURATION:PT1H" and not any(not isinstance(x, ref.C) and x[0] == "DTEND" for x in c.items):
                l = "DURATION:PT0S"  # second all-day event
            if not keep:
                for i in pos[::-1]:
                    del c.items[i]
            elif pos:
                continue
            c.items.append(ref.line(l))
            rep.step()
            rep.outcome("malformed")
            rep.state((tuple(path), l, keep))
            if name == "DTEND" and not keep and l.endswith("x") is False and not any(not isinstance(x, ref.C) and x[0] == "DTSTART" for x in c.items):
                continue
            if l in ("SUMMARY:a\\",) and False:
                continue
            cal = read(text_of(doc))
            rep.expect(cal is None, lambda: f"{comp.name} with malformed property {l!r} was accepted", "malformed")
        # rejecting a document doesn't influence the next ones
    rep.expect(ref.parse(read(text_of(c15.base())).serialize())[0] == c15.base_out(rep), "reading after rejected documents", "after-bad")


# the default type of the values of a property may also be given explicitly
DEFAULT_TYPE = {
    "DTSTART": "DATE-TIME", "DTEND": "DATE-TIME", "DUE": "DATE-TIME", "CREATED": "DATE-TIME", "LAST-MODIFIED": "DATE-TIME", "DTSTAMP": "DATE-TIME", "COMPLETED": "DATE-TIME", "TRIGGER": "DURATION",
    "SUMMARY": "TEXT", "DESCRIPTION": "TEXT", "LOCATION": "TEXT", "ATTACH": "URI", "CATEGORIES": "TEXT", "PERCENT": "INTEGER", "PRIORITY": "INTEGER", "REPEAT": "INTEGER", "UID": "TEXT", "STATUS": "TEXT",
}


def run_spelling(case, rep):
    """names and enumerated values are case-insensitive"""
    lines = text_of(c15.base()).split("\r\n")
    want = read(text_of(c15.base())).serialize()
    comp = []
    for nr, l in enumerate(lines[: case[2]]):
        name, params, value = ref.line(l)
        if name == "BEGIN":
            comp.append(value)
        if nr >= case[1]:
            head = l[: len(l) - len(value)]
            variants = [f(l[: len(name)]) + l[len(name) :] for f in (str.lower, str.title)]
            if name in ("BEGIN", "END"):
                variants += [head.lower() + f(value) for f in (str.lower, str.title)] + [head + f(value) for f in (str.lower, str.title)]
            if params:
                variants += [re.sub(r";([^=:]*)=", lambda m: ";" + f(m[1]) + "=", head) + value for f in (str.lower, str.title)]
                variants += [re.sub(r"=(DATE-TIME|DATE)(?=[:;])", lambda m: "=" + f(m[1]), head) + value for f in (str.lower, str.title, lambda v: f'"{v}"')]
                variants += [re.sub(r";VALUE=DATE", ";value=date", head) + value]
            if name == "STATUS":
                variants += [head + f(value) for f in (str.lower, str.title)]
            if name in DEFAULT_TYPE and comp[-1] in ("VEVENT", "VTODO", "VALARM") and not any(n == "VALUE" for n, _ in params):
                t = DEFAULT_TYPE[name]
                variants += [f"{head[:-1]};VALUE={v}:{value}" for v in (t, t.lower(), t.title(), f'"{t}"')] + [f"{name};value={t}{head[len(name):]}{value}"]
            if name == "ACTION" and not value.startswith("X-"):
                variants += [head + f(value) for f in (str.lower, str.title)]
            for v in dict.fromkeys(variants):
                if v == l:
                    continue
                rep.step()
                rep.outcome("spelling")
                rep.state((nr, v))
                cal = read("\r\n".join(lines[:nr] + [v] + lines[nr + 1 :]))
                rep.expect(cal is not None and cal.serialize() == want, lambda: f"{v!r} in place of {l!r} is read as {cal and cal.serialize()!r}", "spelling")
        if name == "END":
            comp.pop()


# (part, values which are fine, values which aren't)
RULE_PARTS = [
    ("INTERVAL", ["1", "2", "99"], ["0", "-1", "x", "1.5", ""]), ("COUNT", ["1", "2"], ["0", "-1", "x", "1.5", ""]),
    ("BYMONTH", ["1", "12", "1,12"], ["0", "13", "-1", "x", "1,13", "13,1", "0,1"]),
    ("BYMONTHDAY", ["1", "31", "-1", "-31", "1,-31"], ["0", "32", "-32", "x", "1,32", "-32,1"]),
    ("BYYEARDAY", ["1", "366", "-1", "-366", "366,1"], ["0", "367", "-367", "x", "1,367", "-367,1", "1,0"]),
    ("BYWEEKNO", ["1", "53", "-1", "-53", "1,53"], ["0", "54", "-54", "x", "1,54", "54,1", "0,1"]),
    ("BYHOUR", ["0", "23", "0,23"], ["24", "-1", "x", "1,24", "24,1"]), ("BYMINUTE", ["0", "59", "0,59"], ["60", "-1", "x", "0,60", "60,0"]), ("BYSECOND", ["0", "59", "0,59"], ["61", "-1", "x", "0,61", "61,0"]),
    ("BYSETPOS", [], ["0", "367", "-367", "x"]), ("BYDAY", ["MO", "SU", "MO,SU", "TU,WE,TH,FR,SA"], ["XX", "M", "1", "MO,XX"]), ("WKST", ["MO", "SU", "WE"], ["XX", "1", ""]),
    ("UNTIL", ["20301027T010000Z", "20301027"], ["x", "20301327T010000Z"]), ("X-PART", [], ["1"]),
]


def run_rules(case, rep):
    """every part of a recurrence rule with the smallest and largest possible values and those just beyond them"""
    freq = case[1]
    parts = [(p, v, True) for p, good, _ in RULE_PARTS for v in good] + [(p, v, False) for p, _, bad in RULE_PARTS for v in bad]
    top = 5 if freq == "MONTHLY" else 53
    if freq in ("YEARLY", "MONTHLY"):
        parts += [("BYDAY", f"{n}MO", ok) for n, ok in ((1, True), (-1, True), (top, True), (-top, True), (top + 1, False), (-top - 1, False))]
        parts += [("BYDAY", f"1SU,{top + 1}MO", False), ("BYMONTH=3;BYDAY", "5MO", True), ("BYMONTH=3;BYDAY", "-5MO", True), ("BYMONTH=3;BYDAY", "6MO", False), ("BYMONTH=3;BYDAY", "-6MO", False)]
    for (part, value, ok), extra, obs in itertools.product(parts, ("", ";BYSETPOS=1", ";INTERVAL=2"), ("STANDARD", "DAYLIGHT")):
        if extra and (part in extra or part == "COUNT"):
            continue
        if extra == ";BYSETPOS=1" and not part.startswith("BY"):
            continue
        for text in (f"FREQ={freq};{part}={value}{extra}", f"FREQ={freq}{extra};{part}={value}"):
            lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:p", "BEGIN:VTIMEZONE", "TZID:My/Zone", f"BEGIN:{obs}", "TZOFFSETFROM:+0100", "TZOFFSETTO:+0200", "DTSTART:19960101T000000", f"RRULE:{text}",
                     f"END:{obs}", "END:VTIMEZONE", "BEGIN:VEVENT", "UID:1", "DTSTAMP:20200101T000000Z", "DTSTART;TZID=My/Zone:20200101T000000", "END:VEVENT", "END:VCALENDAR"]
            rep.step()
            rep.state(text)
            rep.outcome("rule" if ok else "bad rule")
            cal = read("\r\n".join(lines))
            if not rep.expect((cal is not None) == ok, lambda: f"RRULE:{text} was {'accepted' if cal else 'rejected'}", "rule") or not ok:
                continue
            out = [l for l in cal.serialize().split("\r\n") if l.startswith("RRULE")]
            dflt = {"INTERVAL=1", "WKST=MO"}
            got = {frozenset(l[6:].split(";")) - dflt for l in out}
            want = {frozenset(text.replace("UNTIL=20301027;", "UNTIL=20301027T000000;").split(";")) - dflt}
            if part != "UNTIL":
                rep.expect(len(out) == 1 and {tuple(sorted(map(norm_part, g))) for g in got} == {tuple(sorted(map(norm_part, g))) for g in want}, lambda: f"RRULE:{text} was written as {out}", "rule-value")


def norm_part(p):
    k, v = p.split("=")
    return k, tuple(sorted(v.replace("+", "").split(",")))


# (component, property, values which are fine, values which aren't)
LIMITS = [
    ("VTODO", "PERCENT", ["0", "1", "99", "100", "007"], ["-1", "101", "1000", "1,2", "0x1", "1e1"]),
    ("VTODO", "PRIORITY", ["0", "1", "8", "9"], ["-1", "10", "99", "1.0"]),
    ("VALARM", "REPEAT", ["0", "1", "100"], ["x", "1.5"]),
    ("VEVENT", "GEO", ["0;0", "90;180", "-90;-180", "1.5;-2.25"], ["0", "0,0"]),
    ("STANDARD", "TZOFFSETTO", ["+0000", "+2359", "-2359", "+235959", "-000001"], ["+2400", "-2400", "+1", "+01:00", "+01000", "+ 100"]),
    ("VEVENT", "DTSTART", ["00010101T000000", "99991231T235959", "20200229T000000", "20000229T235959", "20200101T000000Z"],
     ["20210229T000000", "19000229T000000", "20200001T000000", "20201301T000000", "20200100T000000", "20200132T000000", "20200431T000000", "20200101T240000", "20200101T236000", "20200101T", "20200101t000000z1", "2020-01-01T00:00:00", "00000101T000000"]),
    ("VEVENT", "DTSTART;VALUE=DATE", ["00010101", "20200229", "99991230"], ["20210229", "20200001", "20201301", "20200100", "20200132", "2020010", "202001011"]),
]
LIMIT_WRAP = {
    "VTODO": ("BEGIN:VTODO\r\nUID:1\r\nDTSTAMP:20200101T000000Z\r\n", "\r\nEND:VTODO"), "VEVENT": ("BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20200101T000000Z\r\n", "\r\nEND:VEVENT"),
    "VALARM": ("BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20200101T000000Z\r\nBEGIN:VALARM\r\nACTION:DISPLAY\r\nDURATION:PT1H\r\nTRIGGER:PT0S\r\n", "\r\nEND:VALARM\r\nEND:VEVENT"),
    "STANDARD": ("BEGIN:VTIMEZONE\r\nTZID:Z\r\nBEGIN:STANDARD\r\nTZOFFSETFROM:+0000\r\nDTSTART:20000101T000000\r\n", "\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\nBEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20200101T000000Z\r\nDTSTART;TZID=Z:20200101T000000\r\nEND:VEVENT"),
}


def run_limits(case, rep):
    for comp, prop, good, bad in LIMITS:
        for value in good + bad:
            ok = value in good
            pre, post = LIMIT_WRAP[comp]
            rep.step()
            rep.state((prop, value))
            cal = read(f"BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\n{pre}{prop}:{value}{post}\r\nEND:VCALENDAR")
            rep.outcome("within" if ok else "beyond")
            if rep.expect((cal is not None) == ok, lambda: f"{comp} with {prop}:{value} was {'accepted' if cal else 'rejected'}", "limit") and ok:
                out = [l for l in cal.serialize().split("\r\n") if l.startswith(prop + ":")]
                num = lambda v: [float(x) for x in v.split(";")] if prop in ("GEO", "PERCENT") else v
                rep.expect(value in out[0] or num(out[0].split(":")[1]) == num(value), lambda: f"{comp} with {prop}:{value} was written as {out}", "limit-value")


def run_roots(case, rep):
    good = text_of(c15.base())
    for t in ["", "\r\n", "X:1", "BEGIN:VEVENT\r\nEND:VEVENT", "BEGIN:VTODO\r\nEND:VTODO", good + "\r\n" + good, good + "\r\nX:1", "X:1\r\n" + good, "BEGIN:VCALENDAR\r\nEND:VCALENDAR", good[:-1], good[:-20], good[1:], "BEGIN:VCALENDARX" + good[15:]]:
        rep.step()
        rep.state(t[:40] + t[-20:])
        rep.expect(read(t) is None, lambda: f"{t[:60]!r} ... {t[-30:]!r} was accepted as a calendar", "root")
    try:
        Calendar("")
    except ValueError:
        pass
    rep.expect([c.serialize() for c in Calendar.parse_multiple(good + "\r\n" + good)] == [read(good).serialize()] * 2 and Calendar.parse_multiple("") == [], "several calendars", "root")
    ev, td = string_to_container("BEGIN:VEVENT\r\nEND:VEVENT"), string_to_container("BEGIN:VTODO\r\nEND:VTODO")
    for cls, c in ((Event, td), (Todo, ev), (Calendar, ev), (Timezone, td)):
        rep.step()
        try:
            cls.from_container(c)
            rep.fail(f"{cls.__name__} was read from {c.name}", "root")
        except ValueError:
            pass


def norm(e):
    return e.serialize()


_alone = {}


def alone(i):
    """what entry i is read as on its own (together with the timezone)"""
    if i not in _alone:
        cal = Calendar("BEGIN:VCALENDAR\nVERSION:2.0\nPRODID:p\n" + (ENTRIES[TZ_IDX] + "\n" if i == 6 else "") + ENTRIES[i] + "\nEND:VCALENDAR")
        _alone[i] = [[norm(x) for x in xs] for xs in (cal.events, cal.todos, cal.extra)]
    return _alone[i]


def run_seq(case, rep):
    seq = case[1]
    text = "BEGIN:VCALENDAR\nVERSION:2.0\nPRODID:p\n" + "".join(ENTRIES[i] + "\n" for i in seq) + "END:VCALENDAR"
    rep.step()
    rep.state(tuple(seq))
    ok = 6 not in seq or TZ_IDX in seq
    cal = read(text)
    rep.outcome("seq" if ok else "seq-rejected")
    if not rep.expect((cal is not None) == ok, lambda: f"entries {seq} {'accepted' if cal else 'rejected'}", "seq") or not ok:
        return
    for k, xs in enumerate((cal.events, cal.todos, cal.extra)):
        want = [y for i in seq if i != TZ_IDX for y in alone(i)[k]]
        rep.expect([norm(x) for x in xs] == want, lambda: f"entries {seq} were read as {[norm(x) for x in xs]} instead of {want}", "seq")

"""C15: properties, components and params the library doesn't know survive reading and writing; stripping them removes exactly them."""
import itertools

from ics import Calendar
from ics.contentline import Container, ContentLine
from mc import ref

PROPERTY = "C15"
BOUNDS = {
    "quick": "a document with all 13 kinds of components: at each of them every sequence of <=2 out of 14 unknown items at every pair of positions; unknown items at every two different "
    "components at once; every set of params (of 8) at each of ~60 known property occurrences (in the original order, reversed, moved to the front and to the end) and at every two occurrences within a component; stripping in all 15 ways; setting extras by hand",
    "thorough": "sequences of <=3 unknown items at every triple of positions, params at every two occurrences of the whole document",
}
ASSUMPTIONS = ["unknown items follow the known ones when written", "unused VTIMEZONE definitions are not kept (C18)", "params of recurrence properties of timezones aren't supported (rejected)"]

DOC = """BEGIN:VCALENDAR
VERSION:2.0
PRODID:p
SCALE:GREGORIAN
METHOD:PUBLISH
BEGIN:VTIMEZONE
TZID:My/Zone
TZURL:http://tz/
LAST-MODIFIED:20200101T000000Z
BEGIN:STANDARD
TZOFFSETFROM:+0200
TZOFFSETTO:+0100
DTSTART:20191027T030000
RRULE:FREQ=YEARLY;BYMONTH=10;BYDAY=-1SU
TZNAME:S
COMMENT:c
END:STANDARD
BEGIN:DAYLIGHT
TZOFFSETFROM:+0100
TZOFFSETTO:+0200
DTSTART:20190331T020000
RRULE:FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU
TZNAME:D
END:DAYLIGHT
END:VTIMEZONE
BEGIN:VEVENT
DTSTART;TZID=My/Zone:20200701T100000
DTEND;TZID=My/Zone:20200701T110000
SUMMARY:s
UID:u1
DESCRIPTION:d
LOCATION:l
URL:http://u/
STATUS:CONFIRMED
CREATED:20200101T000000Z
LAST-MODIFIED:20200101T000000Z
DTSTAMP:20200101T000000Z
ATTACH:http://a/1
ATTACH:http://a/2
ORGANIZER:mailto:o@x
GEO:1.500000;2.500000
ATTENDEE:mailto:a@x
CATEGORIES:c1,c2
CATEGORIES:c3
BEGIN:VALARM
ACTION:AUDIO
TRIGGER:-PT15M
REPEAT:2
DURATION:PT5M
ATTACH:http://a/3
END:VALARM
BEGIN:VALARM
ACTION:DISPLAY
TRIGGER;VALUE=DATE-TIME:20200701T090000Z
DESCRIPTION:d
END:VALARM
BEGIN:VALARM
ACTION:EMAIL
TRIGGER:PT0S
SUMMARY:s
DESCRIPTION:d
ATTENDEE:mailto:b@x
ATTACH:http://a/4
END:VALARM
END:VEVENT
BEGIN:VEVENT
DTSTART;VALUE=DATE:20200702
DURATION:P1D
UID:u2
DTSTAMP:20200101T000000Z
END:VEVENT
BEGIN:VTODO
DTSTART:20200701T100000Z
DUE:20200701T110000Z
SUMMARY:s
UID:u3
DESCRIPTION:d
STATUS:NEEDS-ACTION
DTSTAMP:20200101T000000Z
PERCENT:5
PRIORITY:3
COMPLETED:20200101T000000
BEGIN:VALARM
ACTION:X-CUSTOM
TRIGGER:-PT15M
END:VALARM
BEGIN:VALARM
ACTION:NONE
TRIGGER:-PT16M
END:VALARM
END:VTODO
END:VCALENDAR"""

UNKNOWN = [
    ["X-A:1"], ["X-A:2"], ["X-B;Y=\"a,b\",c;Z=:v\\,\\n;,"], ["RRULE:FREQ=DAILY;COUNT=3"], ["CLASS;LANGUAGE=de:PRIVATE"], ["X-EMPTY:"],
    ["BEGIN:X-COMP", "P:1", "END:X-COMP"], ["BEGIN:X-COMP", "BEGIN:SUB", "Q;R=s:t", "END:SUB", "P:2", "BEGIN:SUB", "END:SUB", "END:X-COMP"],
    ["BEGIN:VJOURNAL", "SUMMARY:j", "UID:j", "DTSTART:garbage", "END:VJOURNAL"], ["BEGIN:VFREEBUSY", "BEGIN:VEVENT", "DTSTART:x", "END:VEVENT", "END:VFREEBUSY"],
    ["VTIMEZONE:1"], ["x-lower;p=q:v"], ["X-LONG:" + "w\u20ac " * 60], ["EXDATE;TZID=No/Where:20200101T000000"],
]
# what is unknown within the other components must be kept as well
MISPLACED = {
    "VEVENT": ["BEGIN:VEVENT", "UID:in", "END:VEVENT"], "VTODO": ["BEGIN:VTIMEZONE", "TZID:My/Zone", "END:VTIMEZONE"], "VALARM": ["BEGIN:VALARM", "ACTION:AUDIO", "END:VALARM"],
    "VCALENDAR": ["BEGIN:VCALENDAR", "VERSION:2.0", "END:VCALENDAR"], "VTIMEZONE": ["BEGIN:VEVENT", "UID:x", "END:VEVENT"], "STANDARD": ["BEGIN:STANDARD", "X:1", "END:STANDARD"],
    "DAYLIGHT": ["SUMMARY:s"],
}
PARAMS = ["X-P=a", 'X-P="a,b",c', "LANGUAGE=de", 'ALTREP="cid:x;y:z"', "X-E=", "x-low=1", "X-P=a;X-Q=b,b", "X-N=a^nb^^"]


def base():
    return ref.parse("\r\n".join(DOC.split("\n")))[0]


def comps(c, path=()):
    """all components with their path"""
    yield path, c
    for i, x in enumerate(c.items):
        if isinstance(x, ref.C):
            yield from comps(x, path + (i,))


def at(c, path):
    for i in path:
        c = c.items[i]
    return c


def fmt_param(p):
    n, vals = p
    return f";{n}=" + ",".join('"%s"' % esc(v) if v == "" or set(v) & set(",;:") else esc(v) for v in vals)


def esc(v):
    return v.replace("^", "^^").replace("\n", "^n").replace('"', "^'")


def write(c):
    out = [f"BEGIN:{c.name}"]
    for x in c.items:
        if isinstance(x, ref.C):
            out += write(x)
        else:
            out.append(x[0] + "".join(map(fmt_param, x[1])) + ":" + x[2])
    return out + [f"END:{c.name}"]


def unk(i, name):
    if name in ("STANDARD", "DAYLIGHT") and i in (3, 13):
        i = 0  # recurrence properties are known there
    return ref.parse("\r\n".join(UNKNOWN[i] if i < len(UNKNOWN) else MISPLACED[name]))[0]


NCOMP = 11  # VCALENDAR, VTIMEZONE, STANDARD, DAYLIGHT, 2 VEVENT, VTODO, 5 VALARM -> checked in cases()


def nonrec(name, item):
    return not (name in ("STANDARD", "DAYLIGHT") and item[0] in ("DTSTART", "RRULE", "RDATE"))


def occurrences():
    out = []
    for path, c in comps(base()):
        for i, x in enumerate(c.items):
            if not isinstance(x, ref.C) and nonrec(c.name, x):
                out.append([list(path), i])
    return out


def cases(tier):
    paths = [list(p) for p, _ in comps(base())]
    yield ["plain"]
    n = len(UNKNOWN) + 1
    for p in paths:
        for i in range(n):
            yield ["extra", p, [i], 1, tier]
        for i in range(n):
            yield ["extra", p, [i], 2, tier]
        if tier == "thorough":
            for i, j in itertools.product(range(n), repeat=2):
                yield ["extra", p, [i, j], 3, tier]
    for p, q in itertools.combinations(paths, 2):
        yield ["twoextra", p, q]
    occ = occurrences()
    for o in occ:
        yield ["params", o]
    for a, b in itertools.combinations(occ, 2):
        if a[0] == b[0] or tier == "thorough":
            yield ["twoparams", a, b]
    for p in paths:
        yield ["strip", p]
        yield ["hand", p]


def locate(cal, path):
    """the library's object for the component at path"""
    c, obj = base(), cal
    for i in path:
        x = c.items[i]
        idx = [y for y in c.items[:i] if isinstance(y, ref.C) and (y.name == x.name or {y.name, x.name} == {"STANDARD", "DAYLIGHT"})]
        n = len(idx)
        if x.name == "VTIMEZONE":
            obj = cal.events[0].begin.tzinfo
        elif x.name in ("STANDARD", "DAYLIGHT"):
            obj = obj.observances[n]
        else:
            obj = {"VEVENT": "events", "VTODO": "todos", "VALARM": "alarms"}[x.name] and getattr(obj, {"VEVENT": "events", "VTODO": "todos", "VALARM": "alarms"}[x.name])[n]
        c = x
    return obj


def canon(c, extras_of=None):
    """known lines as a multiset in the order of the base document, extras in order; params as sets"""
    return c


def unordered(c):
    return (c.name, sorted((repr(unordered(x)) if isinstance(x, ref.C) else repr((x[0], sorted(x[1]), x[2]))) for x in c.items))


def split_items(c, n_extra, basec):
    """(known lines+comps, extras): what the writer put last"""
    if not n_extra:
        return c.items, []
    return c.items[: len(c.items) - n_extra], c.items[len(c.items) - n_extra :]


def rt(doc, rep, full=True):
    rep.step()
    text = "\r\n".join(write(doc))
    cal = Calendar(text)
    out_text = cal.serialize()
    if full:
        rep.expect(cal.serialize() == out_text, "writing twice differs", "pure")
    out = ref.parse(out_text)
    if not rep.expect(len(out) == 1, "wrote several components", "write"):
        return cal, None, out_text
    if full:
        rep.expect(Calendar(out_text).serialize() == out_text, lambda: f"not a fixpoint: {out_text!r}", "fixpoint")
    return cal, out[0], out_text


_base = {}


def base_out(rep):
    if "o" not in _base:
        _base["o"] = rt(base(), rep)[1]
    return _base["o"]


def outpath(out, doc, path):
    """the written component corresponding to doc's component at path (same name, same rank)"""
    for i in path:
        x = doc.items[i]
        rank = [y for y in doc.items if isinstance(y, ref.C) and y.name == x.name].index(x) if False else sum(1 for y in doc.items[:i] if isinstance(y, ref.C) and y.name == x.name)
        cand = out.subs(x.name)
        out = cand[rank]
        doc = x
    return out


def check_extras(doc, expected, rep, where, full=True):
    """expected: {path in base: [items]}; everything else is as written for the base document"""
    cal, out, text = rt(doc, rep, full)
    if out is None:
        return None
    bo = base_out(rep)

    def walk(b, o, want_b, path):
        ex = expected.get(tuple(path), [])
        n = len(ex)
        got = o.items[len(o.items) - n :] if n else []
        rest = o.items[: len(o.items) - n]
        rep.expect(got == ex, lambda: f"{where}: unknown items of {b.name} {path} were written as {got!r} instead of {ex!r}\n{text}", "extras")
        if not rep.expect(len(rest) == len(want_b.items), lambda: f"{where}: {b.name} {path} was written as {rest!r} and unknown {got!r}", "others"):
            return
        subs_b = {}
        for r, w in zip(rest, want_b.items):
            if isinstance(w, ref.C):
                if not rep.expect(isinstance(r, ref.C) and r.name == w.name, lambda: f"{where}: {r} instead of {w}", "others"):
                    continue
                k = subs_b[w.name] = subs_b.get(w.name, -1) + 1
                idx = [i for i, y in enumerate(b.items) if isinstance(y, ref.C) and y.name == w.name][k]
                walk(b.items[idx], r, w, path + [idx])
            else:
                rep.expect(r == w, lambda: f"{where}: {b.name} {path} wrote {r!r} instead of {w!r}", "others")

    walk(base(), out, bo, [])
    return cal, out, text


def insert(doc, path, placed):
    """placed: list of (position in the original items, item), kept in this order for equal positions"""
    c = at(doc, path)
    for pos, item in sorted(placed, key=lambda t: -t[0]):
        pass
    new = []
    for i in range(len(c.items) + 1):
        new += [it for pos, it in placed if pos == i]
        if i < len(c.items):
            new.append(c.items[i])
    c.items = new


def run_case(case, rep):
    rep.trace()
    what = case[0]
    if what == "plain":
        bo = base_out(rep)
        rep.expect(unordered(bo) == unordered(base()), lambda: f"the plain document was written as {bo}", "plain")
        return
    if what == "extra":
        _, path, pre, n, tier = case
        name = at(base(), path).name
        npos = len(at(base(), path).items) + 1
        u = len(UNKNOWN) + 1
        if n == 1:
            seqs = [pre]
            positions = [[p] for p in range(npos)]
        elif n == 2:
            seqs = [pre + [j] for j in (range(u) if tier == 'thorough' else (0, 1, 2, 6, 7, u - 1))]
            positions = [[0, 0], [0, npos - 1], [npos // 2, npos - 1]]
            if tier == "thorough":
                positions = [[a, b] for a in range(npos) for b in range(a, npos)]
        else:
            seqs = [pre + [k] for k in range(u)]
            positions = [[0, npos // 2, npos - 1], [0, 0, npos - 1], [npos - 1] * 3]
        for seq in seqs:
            items = [unk(i, name) for i in seq]
            for pos in positions:
                doc = base()
                insert(doc, path, list(zip(pos, items)))
                rep.state((tuple(path), tuple(seq), tuple(pos)))
                check_extras(doc, {tuple(path): items}, rep, f"{path} {seq} at {pos}", n == 1)
    elif what == "twoextra":
        _, p, q = case
        for i, j in [(0, 1), (1, 0), (0, 0), (6, 7), (2, len(UNKNOWN)), (len(UNKNOWN), 11)]:
            doc = base()
            a, b = unk(i, at(doc, p).name), unk(j, at(doc, q).name)
            ca, cb = at(doc, p), at(doc, q)
            ca.items.append(a)  # at the end, so that the paths stay valid
            cb.items.append(b)
            rep.state((tuple(p), tuple(q), i, j))
            check_extras(doc, {tuple(p): [a], tuple(q): [b]}, rep, f"{case} {i} {j}")
    elif what in ("params", "twoparams"):
        occ = case[1:]
        menus = itertools.product(range(len(PARAMS)), repeat=len(occ)) if what == "params" else [(0, 0), (0, 1), (1, 0), (2, 2), (6, 3), (4, 7)]
        for sel in menus:
            doc = base()
            want = {}
            for (path, i), s in zip(occ, sel):
                c = at(doc, path)
                n, ps, v = c.items[i]
                add = ref.line(f"A;{PARAMS[s]}:")[1]
                c.items[i] = (n, ps + add, v)
            rep.state((repr(occ), sel))
            rep.outcome("params")
            orders = ("", "rev", "first", "last") if what == "params" and sel[0] < 3 else ("", "rev") if what == "params" else ("",)
            for order in orders:
                d2 = doc.clone()
                for path, i in occ:
                    c = at(d2, path)
                    lines, subs = [x for x in c.items if not isinstance(x, ref.C)], [x for x in c.items if isinstance(x, ref.C)]
                    x = lines[i]
                    if order == "rev":
                        lines.reverse()
                    elif order:
                        lines.remove(x)
                        lines.insert(0 if order == "first" else len(lines), x)
                    if order:
                        c.items = lines + subs
                cal, out, text = rt(d2, rep)
                rep.expect(out is not None and unordered(out) == unordered(doc), lambda: f"params {[PARAMS[s] for s in sel]} of {[at(base(), p).items[i] for p, i in occ]} (order {order!r}) were lost or changed:\n{text}", "params")
    elif what == "strip":
        run_strip(case[1], rep)
    elif what == "hand":
        run_hand(case[1], rep)


def full_doc():
    """unknown items everywhere and a param at every property"""
    doc = base()
    for path, c in list(comps(doc)):
        for i, x in enumerate(c.items):
            if not isinstance(x, ref.C) and nonrec(c.name, x):
                c.items[i] = (x[0], x[1] + (("X-P", ("a", "b")),), x[2])
    for path, c in list(comps(doc)):
        c.items += [unk(0, c.name), unk(7, c.name), unk(0, c.name), unk(len(UNKNOWN), c.name)]
    return doc


def run_strip(path, rep):
    doc = full_doc()
    text = "\r\n".join(write(doc))
    for flags in itertools.product([None, False, True], repeat=3):
        for all_ in (False, True):
            kw = {k: v for k, v in zip(("extra_properties", "extra_params", "property_merging"), flags) if v is not None}
            props, params, merge = ((all_ if f is None else f) for f in flags)
            cal = Calendar(text)
            before = ref.parse(cal.serialize())[0]
            obj = locate(cal, path)
            rep.step()
            rep.outcome("strip" if props or params or merge else "strip-nothing")
            try:
                obj.strip_extras(all_, **kw)
            except ValueError:
                rep.expect(not (props or params or merge), f"strip_extras({all_}, {kw}) of {path} raised", "strip")
                continue
            rep.expect(props or params or merge, f"strip_extras({all_}, {kw}) did nothing and didn't tell", "strip")
            want = ref.parse(cal_text(before))[0]
            target = outpath(want, base(), path)
            known = {x[0] for x in at(base(), path).items if not isinstance(x, ref.C)}
            if props:
                target.items = target.items[:-4]
            if params:
                target.items = [x if isinstance(x, ref.C) or x[0] not in known else (x[0], tuple(p for p in x[1] if p[0] != "X-P"), x[2]) for x in target.items]
                # attendees keep their own params
                src = outpath(before, base(), path)
                if not props:
                    target.items[-4:] = src.items[-4:]
                target.items = [next(y for y in src.items if not isinstance(y, ref.C) and y[0] == x[0] and y[2] == x[2]) if not isinstance(x, ref.C) and x[0] in ("ATTENDEE", "ORGANIZER") else x for x in target.items]
            if merge or params:
                target.items = split_values(target.items)
            out = ref.parse(cal.serialize())[0]
            rep.state((tuple(path), flags, all_))
            rep.expect(unordered(out) == unordered(want), lambda: f"strip_extras({all_}, {kw}) of {path}: wrote {outpath(out, base(), path)} instead of {target}", "strip")


    # stripping twice, also with writing in between, is the same as stripping both at once
    flags = [f for f in itertools.product([False, True], repeat=3) if any(f)]
    names = ("extra_properties", "extra_params", "property_merging")
    for n in (2, 3):
        for seq in itertools.product(flags, repeat=n) if n == 2 else [(f, g, f) for f in flags for g in flags[:3]]:
            rep.step()
            rep.outcome("strip-again")
            cal, once = Calendar(text), Calendar(text)
            obj = locate(cal, path)
            try:
                for i, f in enumerate(seq):
                    obj.strip_extras(**dict(zip(names, f)))
                    if (i + len(path)) % 2:
                        cal.serialize()
            except Exception as e:
                rep.fail(f"strip_extras of {path} with {seq}: {e!r}", "strip-again")
                continue
            locate(once, path).strip_extras(**dict(zip(names, map(any, zip(*seq)))))
            rep.expect(cal.serialize() == once.serialize() and cal == once, lambda: f"strip_extras of {path} with {seq} gave {cal.serialize()!r} instead of {once.serialize()!r}", "strip-again")


def split_values(items):
    res = []
    for x in items:
        if not isinstance(x, ref.C) and x[0] == "CATEGORIES":
            res += [(x[0], x[1], v) for v in x[2].split(",")]
        else:
            res.append(x)
    return res


def cal_text(c):
    return "\r\n".join(write(c))


def run_hand(path, rep):
    """extras set by hand are written and can be changed again"""
    for i in range(len(UNKNOWN)):
        cal = Calendar("\r\n".join(write(base())))
        obj = locate(cal, path)
        item = unk(i, obj.NAME)
        rep.step()
        cont = to_lib(item)
        obj.extra.append(cont)
        want = base_out(rep)
        text = cal.serialize()
        out = ref.parse(text)[0]
        got = outpath(out, base(), path)
        rep.expect(got.items[-1] == item and got.items[:-1] == outpath(want, base(), path).items, lambda: f"{item} added to {path} was written as {got}", "hand")
        obj.extra.clear()
        rep.expect(ref.parse(cal.serialize())[0] == want, "removing the extras again", "hand")
        rep.state((tuple(path), i))


def to_lib(item):
    if isinstance(item, ref.C):
        return Container(item.name, [to_lib(x) for x in item.items])
    return ContentLine(item[0], {n: list(v) for n, v in item[1]}, item[2])

"""C17: multi-valued properties keep their values, order, grouping into lines and params, and params never end up at another value."""
import itertools
from urllib.parse import urlparse

from ics import Attendee, Calendar
from mc import ref

PROPERTY = "C17"
BOUNDS = {
    "quick": "CATEGORIES: every pair of lines with <=3 out of 3 values and 3 param sets each, every triple with <=2 values; ATTACH: every sequence of <=3 lines of 5 values x 3 param sets "
    "in events, todos and alarms; ATTENDEE: every sequence of <=3 of 10 lines; from 9 documents every history of <=3 of 16 operations on the list and its recorded params, writing after each",
    "thorough": "4 values, sequences of <=4 lines, histories of <=4 operations",
}
ASSUMPTIONS = ["a list which doesn't match the params read with it is rejected when writing, until the params are stripped", "values of one line with different params are rejected when writing"]

TXT = ["a", "b\\,c\\;", "", "\\\\\\n"]
TXTV = ["a", "b,c;", "", "\\\n"]
PS = ["", ";LANGUAGE=de", ';X-P="a,b",c']
ATT = [("", "http://a/b,c;d?x=1"), ("", "cid:x"), (";ENCODING=BASE64;VALUE=BINARY", "AP8="), (";VALUE=BINARY", ""), (";VALUE=URI", "http://q")]
ATTV = [urlparse("http://a/b,c;d?x=1"), urlparse("cid:x"), b"\x00\xff", b"", urlparse("http://q")]
APS = ["", ";FMTTYPE=a/b", ";X-Q=1,2"]
PERS = [
    "ATTENDEE:mailto:a@x", "ATTENDEE;CN=x:mailto:a@x", 'ATTENDEE;CN="a, b":mailto:b,c@x', "ATTENDEE;RSVP=TRUE;ROLE=CHAIR:mailto:a@x", 'ATTENDEE;MEMBER="mailto:g@x","mailto:h@x":mailto:a@x', "ATTENDEE;X-Z=1:http://p",
    "ATTENDEE;PARTSTAT=ACCEPTED:mailto:q@x", 'ATTENDEE;DELEGATED-TO="mailto:z@x":mailto:a@x', "ATTENDEE;CUTYPE=ROOM:mailto:a@x", "ATTENDEE;CN=x:mailto:a@x",
]


def persv(l):
    _, params, value = ref.line(l)
    return Attendee(urlparse(value), {n: list(v) for n, v in params})


def cat_lines(nv, maxlen):
    for n in range(1, maxlen + 1):
        for vs in itertools.product(range(nv), repeat=n):
            for p in range(len(PS)):
                yield (p, vs)


def cases(tier):
    th = tier == "thorough"
    for p in range(len(PS)):
        for n in (1, 2, 3):
            for vs in itertools.product(range(4 if th else 3), repeat=n):
                yield ["cat", [p, list(vs)], 4 if th else 3]
        for vs in ([0], [1], [0, 1], [1, 0]):
            yield ["cat3", [p, vs], th]
    for where in ("event", "todo", "alarm"):
        for i in range(len(ATT) * len(APS)):
            yield ["att", where, i, 3 if not th or where != "event" else 4]
    for where in ("event", "alarm"):
        for i in range(len(PERS)):
            yield ["pers", where, i, 4 if th else 3]
    for d in range(len(HIST)):
        for i in range(len(OPS)):
            yield ["hist", d, i, 4 if th else 3]


def doc(where, lines):
    body = "".join(l + "\r\n" for l in lines)
    if where == "alarm":
        body = f"BEGIN:VALARM\r\nACTION:EMAIL\r\nTRIGGER:PT0S\r\n{body}END:VALARM\r\n"
    name = "VTODO" if where == "todo" else "VEVENT"
    return f"BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:{name}\r\nUID:u\r\nDTSTAMP:20200101T000000Z\r\n{body}END:{name}\r\nEND:VCALENDAR"


def owner(cal, where):
    return {"event": lambda: cal.events[0], "todo": lambda: cal.todos[0], "alarm": lambda: cal.events[0].alarms[0]}[where]()


def written(text, where, name):
    c = ref.parse(text)[0].items[-1]
    if where == "alarm":
        c = c.subs("VALARM")[0]
    return c.props(name)


def pset(l):
    return (l[0], tuple(sorted(l[1])), l[2])


def check(where, name, attr, lines, values, rep):
    rep.step()
    rep.state((where, tuple(lines)))
    cal = Calendar(doc(where, lines))
    o = owner(cal, where)
    got = getattr(o, attr)
    rep.expect(got == values, lambda: f"{lines} were read as {got!r} instead of {values!r}", "values")
    rep.expect(len(o.extra) == 0, lambda: f"{lines} were partly unknown: {o.extra}", "values")
    text = cal.serialize()
    out = [pset(l) for l in written(text, where, name)]
    # binary values are always written with their encoding
    want = [pset(ref.line(l.replace(";VALUE=URI", "").replace(";ENCODING=BASE64", "").replace(";VALUE=BINARY", ";ENCODING=BASE64;VALUE=BINARY"))) for l in lines]
    rep.expect(out == want, lambda: f"{lines} were written as {out}", "lines")
    rep.expect(cal.serialize() == text and Calendar(text).serialize() == text, "written again differently", "fixpoint")


def catline(l):
    p, vs = l
    return "CATEGORIES" + PS[p] + ":" + ",".join(TXT[v] for v in vs)


def run_case(case, rep):
    rep.trace()
    what = case[0]
    if what == "cat":
        first = case[1]
        for second in [None] + list(cat_lines(case[2], 3)):
            ls = [first] + ([second] if second else [])
            check("event", "CATEGORIES", "categories", [catline(l) for l in ls], [TXTV[v] for l in ls for v in l[1]], rep)
            rep.outcome("categories")
    elif what == "cat3":
        opts = list(cat_lines(2, 2))
        for rest in itertools.product(opts, repeat=2):
            ls = [case[1], *rest]
            check("event", "CATEGORIES", "categories", [catline(l) for l in ls], [TXTV[v] for l in ls for v in l[1]], rep)
            if case[2]:
                for more in opts[:6]:
                    check("event", "CATEGORIES", "categories", [catline(l) for l in ls + [more]], [TXTV[v] for l in ls + [more] for v in l[1]], rep)
    elif what == "att":
        _, where, i, depth = case
        k = len(ATT) * len(APS)
        for n in range(depth):
            for tail in itertools.product(range(k), repeat=n):
                if n == 3 and (tail[0] + tail[1] + tail[2]) % 3 != i % 3:
                    continue
                sel = [divmod(x, len(APS)) for x in (i, *tail)]
                check(where, "ATTACH", "attach", ["ATTACH" + APS[p] + ATT[a][0] + ":" + ATT[a][1] for a, p in sel], [ATTV[a] for a, p in sel], rep)
                rep.outcome("attach")
    elif what == "pers":
        _, where, i, depth = case
        for n in range(depth):
            for tail in itertools.product(range(len(PERS)), repeat=n):
                ls = [PERS[x] for x in (i, *tail)]
                check(where, "ATTENDEE", "attendees", ls, [persv(l) for l in ls], rep)
                rep.outcome("attendee")
    else:
        run_hist(case, rep)


# documents: (where, name, attr, [(params, [texts], [values])], another value and its text)
U = [(t, urlparse(t)) for t in ("http://1", "http://2", "http://3")]
HIST = [
    ("event", "CATEGORIES", "categories", []),
    ("event", "CATEGORIES", "categories", [("", ["a"])]),
    ("event", "CATEGORIES", "categories", [("", ["a", "b"])]),
    ("event", "CATEGORIES", "categories", [(";X-P=1", ["a", "b"]), (";X-P=2", ["c"])]),
    ("event", "CATEGORIES", "categories", [(";X-P=1", ["a"]), ("", ["b", "c"]), (";X-P=2", ["d"])]),
    ("event", "ATTACH", "attach", [(";X-P=1", ["http://1"]), ("", ["http://2"])]),
    ("todo", "ATTACH", "attach", [(";X-P=1", ["http://1"]), (";X-P=1", ["http://2"])]),
    ("alarm", "ATTACH", "attach", [(";X-P=1", ["http://1"])]),
    ("alarm", "ATTACH", "attach", []),
]
OPS = ["append", "insert0", "pop", "pop0", "reverse", "assign-same", "assign-one", "assign-empty", "strip", "strip-merge", "strip-params", "clone", "param-first", "param-none", "param-all", "split-first"]


def run_hist(case, rep):
    _, d, first, depth = case
    where, name, attr, lines = HIST[d]
    for n in range(depth):
        for tail in itertools.product(range(len(OPS)), repeat=n):
            history(where, name, attr, lines, [OPS[i] for i in (first, *tail)], rep)


def history(where, name, attr, lines, ops, rep):
    conv = (lambda x: x) if attr == "categories" else urlparse
    cal = Calendar(doc(where, [name + p + ":" + ",".join(vs) for p, vs in lines]))
    o = owner(cal, where)
    vals = [v for _, vs in lines for v in vs]
    # model: per value its params and whether the next one is on the same line; None: nothing recorded
    rec = [(p, i + 1 < len(vs)) for p, vs in lines for i in range(len(vs))] or None
    fresh = iter("xyzwvut")
    for k, op in enumerate(ops):
        rep.step()
        lst = getattr(o, attr)
        if op == "append":
            v = "n:" + next(fresh)
            vals.append(v)
            lst.append(conv(v))
        elif op == "insert0":
            v = "n:" + next(fresh)
            vals.insert(0, v)
            lst.insert(0, conv(v))
        elif op == "pop":
            if vals:
                vals.pop()
                lst.pop()
        elif op == "pop0":
            if vals:
                vals.pop(0)
                lst.pop(0)
        elif op == "reverse":
            vals.reverse()
            lst.reverse()
        elif op == "assign-same":
            vals = ["n:" + v[-1] for v in vals]
            setattr(o, attr, [conv(v) for v in vals])
        elif op == "assign-one":
            vals = ["n:o"]
            setattr(o, attr, [conv("n:o")])
        elif op == "assign-empty":
            vals = []
            setattr(o, attr, [])
        elif op in ("strip", "strip-params"):
            o.strip_extras(**({"all_extras": True} if op == "strip" else {"extra_params": True}))
            rec = None
        elif op == "strip-merge":
            o.strip_extras(property_merging=True)
            rec = rec and [(p, False) for p, _ in rec]
        elif op in ("param-first", "param-none", "param-all", "split-first"):
            # the recorded params may be changed as well, but values on one line share them
            for i, p in enumerate(o.extra_params.get(attr.upper(), [])[: None if op == "param-all" else 1]):
                if op == "split-first":
                    p["__merge_next"] = ["FALSE"]
                    rec[i] = (rec[i][0], False)
                elif op == "param-none":
                    p.pop("X-P", None)
                    rec[i] = ("", rec[i][1])
                else:
                    p["X-P"] = ["8" if op == "param-all" else "9"]
                    rec[i] = (";X-P=8" if op == "param-all" else ";X-P=9", rec[i][1])
        elif op == "clone":
            o2 = o.clone()
            o.extra_params.clear()  # the clone doesn't notice
            if where == "alarm":
                cal.events[0].alarms[0] = o2
            elif where == "todo":
                cal.todos[0] = o2
            else:
                cal.events[0] = o2
            o = o2
        want = model_write(name, vals, rec)
        rep.state((where, name, repr(lines), tuple(vals), repr(rec)))
        try:
            text = cal.serialize()
        except ValueError:
            rep.outcome("mismatch")
            rep.expect(want is None, lambda: f"{lines} after {ops[:k+1]}: can't be written", "hist")
            continue
        rep.outcome("written")
        out = written(text, where, name)
        rep.expect(out == want, lambda: f"{lines} after {ops[:k+1]}: written as {out} instead of {want}", "hist")
        if out == want:
            back = getattr(owner(Calendar(text), where), attr)
            rep.expect(back == [conv(v) for v in vals], lambda: f"{lines} after {ops[:k+1]}: read as {back}", "hist")


def model_write(name, vals, rec):
    if rec is None:
        return [(name, (), v) for v in vals]
    if len(rec) != len(vals):
        return None
    out, cur, params = [], [], None
    for v, (p, more) in zip(vals, rec):
        if cur and p != params:
            return None
        params = p
        cur.append(v)
        if not more:
            out.append(ref.line(name + p + ":" + ",".join(cur)))
            cur = []
    return out

"""C25: the attributes of attendees and organizers are views of their params: set, read, deleted and written consistently, also after a round trip."""
import itertools
from datetime import datetime, timedelta, timezone
from urllib.parse import urlparse

from ics import Attendee, Calendar, EmailAlarm, Event, Organizer
from mc import ref

PROPERTY = "C25"
BOUNDS = {
    "quick": "all values of all attributes, by constructor, assignment and params; all histories of <=3 of 43 operations (set, unset, delete, change of params) on an attendee, with a second one existing all the time, "
    "<=2 operations on organizers; each state written and read again as attendee of events and alarms and as organizer; all lines with <=2 of 24 spellings of params; all lists of <=3 of 6 attendees",
    "thorough": "histories of <=4 operations, lines with <=3 params",
}
ASSUMPTIONS = ["addresses are read as parsed URLs, whatever they were given as", "params of single-valued attributes with several values are rejected on access"]
CASE_TIMEOUT = 400
STAMP = datetime(2020, 1, 1, tzinfo=timezone.utc)

TEXTS = ["Jo", "", "a,b", "x;y:z", 'q"uo"te', "^n^^'", "\u00fcn\u20ac", "two\nlines", " space ", "CHAIR", "\ttab", "=;,:"]
URIS = ["mailto:a@x.org", "http://a/b?c=d&e=f#g", "cid:x,y;z", "urn:x", "CN=x", "ldap://h/o=A,c=US???(cn=J)", ""]
ORG = {"sent_by": ("SENT-BY", "uri", None), "common_name": ("CN", "text", None), "directory": ("DIR", "uri", None)}
ATT = {
    **ORG, "user_type": ("CUTYPE", "text", "INDIVIDUAL"), "member": ("MEMBER", "uris", None), "role": ("ROLE", "text", "REQ-PARTICIPANT"), "status": ("PARTSTAT", "text", "NEEDS-ACTION"), "rsvp": ("RSVP", "bool", False),
    "delegated_to": ("DELEGATED-TO", "uris", None), "delegated_from": ("DELEGATED-FROM", "uris", None),
}
KIND = {"att": (Attendee, ATT), "org": (Organizer, ORG)}


def url(v):
    return urlparse(v)


def values(kind):
    """(value to set, params stored, value read)"""
    if kind == "text":
        return [(t, [t], t) for t in TEXTS]
    if kind == "uri":
        return [(u, [u], url(u)) for u in URIS] + [(url(u), [url(u).geturl()], url(u)) for u in URIS[:4]]
    if kind == "bool":
        return [(True, ["TRUE"], True), (False, ["FALSE"], False)]
    ls = [[u] for u in URIS if u] + [list(p) for p in itertools.permutations(URIS[:4], 2)] + [URIS[:4], URIS[3::-1], [URIS[0]] * 2, [URIS[1], URIS[0], URIS[1]]]
    out = [(l, l, [url(u) for u in l]) for l in ls] + [([url(u) for u in l], [url(u).geturl() for u in l], [url(u) for u in l]) for l in ls[:8]]
    return out + [((), None, None), ([], None, None), (tuple(URIS[:2]), URIS[:2], [url(u) for u in URIS[:2]]), ("iter", URIS[:3], [url(u) for u in URIS[:3]])]


def cases(tier):
    for k, (_, tab) in KIND.items():
        for a in tab:
            yield ["values", k, a]
    n = 4 if tier == "thorough" else 3
    for i in range(len(OPS)):
        yield ["hist", "att", i, n]
    for i in range(len(OPS)):
        yield ["hist", "org", i, 2]
    m = 3 if tier == "thorough" else 2
    for i in range(len(LINES)):
        yield ["lines", i, m]
    for i in range(6):
        yield ["lists", i]
    yield ["misc"]


def run_case(case, rep):
    rep.trace()
    globals()["run_" + case[0]](rep, *case[1:])


def typed(kind, vals, default):
    if vals is None or vals == []:
        return default
    if kind == "uris":
        return [url(v) for v in vals]
    if len(vals) > 1:
        return "ValueError"
    if kind == "uri":
        return url(vals[0])
    if kind == "bool":
        return {"TRUE": True, "FALSE": False}.get(vals[0].upper(), "ValueError")
    return vals[0]


def plain(params):
    return [(k, [str(x) for x in v]) for k, v in params.items()]


def check(rep, p, tab, model, where, order=True):
    """compare a person with the params it should have"""
    rep.step()
    got = plain(p.extra)
    rep.expect(got == model if order else sorted(got) == sorted(model), lambda: f"{where}: params {got} instead of {model}", "params")
    m = dict(model)
    for a, (name, kind, default) in tab.items():
        want = typed(kind, m.get(name), default)
        try:
            v = getattr(p, a)
        except ValueError:
            v = "ValueError"
        rep.expect(v == want and type(v) is type(want), lambda: f"{where}: {a} is {v!r} instead of {want!r}", "attribute")


def cycle(rep, p, tab, model, where):
    """write and read the person at all places"""
    email = p.email if not isinstance(p.email, str) else url(p.email)
    places = ["attendee", "alarm"] if tab is ATT else ["organizer"]
    for place in places:
        e = Event(uid="1", dtstamp=STAMP)
        if place == "attendee":
            e.attendees = [p]
        elif place == "organizer":
            e.organizer = p
        else:
            e.alarms = [EmailAlarm(trigger=timedelta(0), attendees=[p])]
        text = Calendar(events=[e]).serialize()
        doc = ref.parse(text)[0]
        ev = doc.subs("VEVENT")[0]
        line = (ev.subs("VALARM")[0] if place == "alarm" else ev).props("ORGANIZER" if place == "organizer" else "ATTENDEE")
        rep.step()
        rep.expect(len(line) == 1 and [(n, list(v)) for n, v in line[0][1]] == model and line[0][2] == email.geturl(), lambda: f"{where}: written as {line} instead of {model}", "written")
        back = Calendar(text).events[0]
        b = back.organizer if place == "organizer" else back.alarms[0].attendees[0] if place == "alarm" else back.attendees[0]
        rep.expect(type(b) is type(p) and b.email == email, lambda: f"{where}: read as {b!r}", "read")
        check(rep, b, tab, model, f"{where}, read again")
        # what was read can be changed and written
        again = Calendar(events=[back]).serialize()
        rep.expect(again == text, lambda: f"{where}: written again as {again!r}", "again")


def run_values(rep, k, a):
    cls, tab = KIND[k]
    name, kind, default = tab[a]
    for val, vals, got in [(None, None, default)] + values(kind):
        for how in ("init", "set", "reset", "params"):
            new = lambda: iter(URIS[:3]) if isinstance(val, str) and val == "iter" and kind == "uris" else val  # noqa: E731
            if how == "init":
                p = cls("mailto:p@x", **{a: new()})
            elif how == "set":
                p = cls(url("mailto:p@x"))
                setattr(p, a, new())
            elif how == "reset":
                p = cls("mailto:p@x", extra={"X-A": ["1"], name: ["TRUE"], "X-B": ["2", "3"]})
                setattr(p, a, new())
            else:
                p = cls("mailto:p@x", {name: list(vals)} if vals else {})
            model = [(name, list(vals))] if vals is not None else []
            if how == "reset":
                model = [("X-A", ["1"])] + model + [("X-B", ["2", "3"])]
            where = f"{k}.{a} = {val!r} ({how})"
            rep.state((k, a, str(val), how))
            check(rep, p, tab, model, where)
            if vals is not None or how != "params":
                v = getattr(p, a)
                want = got if vals is not None else default
                rep.expect(v == want, lambda: f"{where}: value is {v!r}", "attribute")
            cycle(rep, p, tab, model, where)
            try:
                delattr(p, a)
                delattr(p, a)  # deleting what isn't set is no error
            except AttributeError as e:
                rep.fail(f"{where}: deleting raised {e!r}", "delete")
            check(rep, p, tab, [m for m in model if m[0] != name], f"{where}, deleted")
    rep.outcome(kind)


# operations: (label, attribute or param, values stored or None)
OPS = []
for _a, (_n, _k, _d) in ATT.items():
    _vals = {"text": ["Jo", 'a"b,c;^n'], "uri": ["mailto:s@x", "cid:x,y"], "bool": [True, False], "uris": [["mailto:g@x"], ["mailto:g@x", "http://h,i;"], []]}[_k]
    OPS += [("set", _a, v) for v in _vals] + [("none", _a, None)]
    if _a in ("common_name", "member", "rsvp", "sent_by"):
        OPS.append(("del", _a, None))
OPS += [("param", "X-A", ["1", "b,c"]), ("param", "CN", ["x"]), ("param", "MEMBER", ["m1", "m2"]), ("clear", None, None), ("email", "mailto:new@x", None), ("replace", None, {"ROLE": ["CHAIR"], "X-A": ["2"]})]


def apply(op, p, model, tab):
    """perform the operation on the person and on the model (list of params in order)"""
    what, a, v = op
    m = dict(model)

    def put(name, vals):
        if vals is None:
            m.pop(name, None)
        else:
            m[name] = vals

    if what == "set":
        setattr(p, a, v)
        put(tab[a][0], {"bool": ["TRUE" if v is True else "FALSE"]}.get(tab[a][1], v if isinstance(v, list) else [v]) or None)
    elif what == "none":
        setattr(p, a, None)
        put(tab[a][0], None)
    elif what == "del":
        delattr(p, a)
        put(tab[a][0], None)
    elif what == "param":
        p.extra[a] = list(v)
        put(a, v)
    elif what == "clear":
        p.extra.clear()
        m = {}
    elif what == "replace":
        p.extra = {k: list(x) for k, x in v.items()}
        m = {k: list(x) for k, x in v.items()}
    elif what == "email":
        p.email = a
    return list(m.items())


def run_hist(rep, k, first, n):
    cls, tab = KIND[k]
    ops = [o for o in OPS if o[1] in tab or o[0] in ("param", "clear", "email", "replace")]
    if OPS[first] not in ops:
        return

    for rest in itertools.chain.from_iterable(itertools.product(ops, repeat=r) for r in range(n)):
        hist = [OPS[first], *rest]
        bystander = cls("mailto:other@x")
        clone_of = cls("mailto:other@x", extra={"X-A": ["1"]}, common_name="By")
        p, model = cls("mailto:p@x"), []
        for op in hist:
            model = apply(op, p, model, tab)
        rep.state((k, tuple(map(str, hist))))
        where = f"{k}: {hist}"
        check(rep, p, tab, model, where)
        rep.expect(bystander.extra == {} and clone_of.extra == {"X-A": ["1"], "CN": ["By"]} and bystander.email == "mailto:other@x", lambda: f"{where}: another one was changed: {bystander!r} {clone_of!r}", "other")
        q = cls(p.email, extra=dict(p.extra))
        rep.expect(p == q and not p != q and (p == bystander) == (p.email == bystander.email and not model), lambda: f"{where}: equality", "equal")
        if len(hist) < 3 or (len(hist) + sum(len(str(o)) for o in hist)) % 4 == 0:
            cycle(rep, p, tab, model, where)
    rep.outcome(k)


# spellings of params: (text, [(name, values)])
LINES = [
    ("CN=Jo", "CN", ["Jo"]), ('CN="Jo"', "CN", ["Jo"]), ("cn=jo", "CN", ["jo"]), ('Cn="a,b;c:d"', "CN", ["a,b;c:d"]), ("CN=^'q^'^n^^", "CN", ['"q"\n^']), ("CN=a,b", "CN", ["a", "b"]), ('CN=""', "CN", [""]),
    ("RSVP=TRUE", "RSVP", ["TRUE"]), ("rsvp=true", "RSVP", ["true"]), ('RSVP="FALSE"', "RSVP", ["FALSE"]), ("RSVP=maybe", "RSVP", ["maybe"]),
    ('SENT-BY="mailto:s@x"', "SENT-BY", ["mailto:s@x"]), ("SENT-BY=x", "SENT-BY", ["x"]), ('DIR="ldap://h/o=A,c=B"', "DIR", ["ldap://h/o=A,c=B"]),
    ('MEMBER="mailto:a@x"', "MEMBER", ["mailto:a@x"]), ('MEMBER="mailto:a@x","mailto:b,c@x",d', "MEMBER", ["mailto:a@x", "mailto:b,c@x", "d"]), ('delegated-to="mailto:a@x"', "DELEGATED-TO", ["mailto:a@x"]), ("DELEGATED-FROM=urn", "DELEGATED-FROM", ["urn"]),
    ("ROLE=CHAIR", "ROLE", ["CHAIR"]), ("PARTSTAT=x-mine", "PARTSTAT", ["x-mine"]), ("CUTYPE=ROOM", "CUTYPE", ["ROOM"]), ('X-P="1",2', "X-P", ["1", "2"]), ("x-q=\u20ac ", "X-Q", ["\u20ac "]), ("LANGUAGE=de", "LANGUAGE", ["de"]),
]


def run_lines(rep, i, n):
    for rest in itertools.chain.from_iterable(itertools.permutations(range(len(LINES)), r) for r in range(n)):
        ls = [LINES[i]] + [LINES[j] for j in rest]
        if len({l[1] for l in ls}) < len(ls):
            continue
        params = "".join(";" + l[0] for l in ls)
        model = [(l[1], l[2]) for l in ls]
        text = (
            f"BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20200101T000000Z\r\nORGANIZER{params}:mailto:p@x\r\nATTENDEE:mailto:q@x\r\nATTENDEE{params}:mailto:p@x\r\n"
            f"BEGIN:VALARM\r\nACTION:EMAIL\r\nTRIGGER:PT0S\r\nATTENDEE{params}:mailto:p@x\r\nEND:VALARM\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"
        )
        e = Calendar(text).events[0]
        rep.state(params)
        for p, tab in ((e.organizer, ORG), (e.attendees[1], ATT), (e.alarms[0].attendees[0], ATT)):
            check(rep, p, tab, model, f"{type(p).__name__}{params}")
            rep.expect(p.email == url("mailto:p@x"), lambda: f"{params}: {p.email}", "email")
        check(rep, e.attendees[0], ATT, [], f"attendee before {params}")
        doc = ref.parse(e.serialize())[0]
        for got in (doc.props("ORGANIZER")[0], doc.props("ATTENDEE")[1], doc.subs("VALARM")[0].props("ATTENDEE")[0]):
            rep.expect([(a, list(b)) for a, b in got[1]] == model, lambda: f"{params} is written as {got}", "written")
        # change one attribute of what was read
        e.attendees[1].common_name = "New"
        e.attendees[1].member = ["mailto:n@x"]
        m = dict(model)
        m["CN"], m["MEMBER"] = ["New"], ["mailto:n@x"]
        back = Calendar(events=[e]).serialize()
        check(rep, Calendar(back).events[0].attendees[1], ATT, list(m.items()), f"{params}, changed")
        check(rep, Calendar(back).events[0].organizer, ORG, model, f"organizer {params}, attendee changed")
        rep.expect([len(x) for x in (e.attendees, e.alarms[0].attendees)] == [2, 1], lambda: f"{params}: attendees", "count")
    rep.outcome("lines")


def run_lists(rep, first):
    mk = [
        lambda: Attendee("mailto:a@x"), lambda: Attendee("mailto:a@x", common_name="A"), lambda: Attendee(url("mailto:a@x"), rsvp=True, member=["mailto:g@x", "mailto:h@x"]), lambda: Attendee("http://b/,c", extra={"X-A": ["1", "2"]}),
        lambda: Attendee("mailto:a@x", common_name="B", role="CHAIR"), lambda: Attendee("x@y"),
    ]
    for rest in itertools.chain.from_iterable(itertools.product(range(6), repeat=r) for r in range(3)):
        idx = [first, *rest]
        people = [mk[i]() for i in idx]
        for how in ("event", "add", "alarm"):
            e = Event(uid="1", dtstamp=STAMP)
            if how == "event":
                e.attendees = people
            elif how == "add":
                for p in people:
                    e.add_attendee(p)
            else:
                a = EmailAlarm(trigger=timedelta(0))
                for p in people:
                    a.add_attendee(p)
                e.alarms.append(a)
            back = Calendar(Calendar(events=[e]).serialize()).events[0]
            got = back.alarms[0].attendees if how == "alarm" else back.attendees
            rep.step()
            rep.state((how, tuple(idx)))
            rep.expect([plain(p.extra) for p in got] == [plain(p.extra) for p in people] and [p.email.geturl() for p in got] == [p.email if isinstance(p.email, str) else p.email.geturl() for p in people], lambda: f"{how} {people} are read as {got}", "list")
            # later changes of what was read belong to the right one
            for i, p in enumerate(got):
                p.common_name = f"N{i}"
            again = Calendar(Calendar(events=[back]).serialize()).events[0]
            got = again.alarms[0].attendees if how == "alarm" else again.attendees
            rep.expect([p.common_name for p in got] == [f"N{i}" for i in range(len(people))], lambda: f"{how} {people}: changed names are read as {got}", "list")
    rep.outcome("lists")


def run_misc(rep):
    for cls in (Attendee, Organizer):
        for bad in ("x", 5, ["CN"], [("CN", ["a"])]):
            try:
                cls("mailto:x", extra=bad)
                rep.fail(f"{cls.__name__} accepts {bad!r} as params", "extra")
            except TypeError:
                pass
            rep.step()
    rep.expect(Attendee("mailto:x") != Organizer("mailto:x"), "attendee equals organizer", "equal")
    for cls, tab in ((Attendee, ATT), (Organizer, ORG)):
        for a, (name, kind, default) in tab.items():
            if kind != "uris":  # a param without any values means the default, too
                p = cls("mailto:x", extra={name: []})
                rep.expect(getattr(p, a) == default, lambda: f"{a} of a param without values is {getattr(p, a)!r}", "attribute")
                rep.step()
    e = Event(uid="1")
    for bad in (Organizer("mailto:x"), "mailto:x", None, 5):
        for o in (e, EmailAlarm()):
            try:
                o.add_attendee(bad)
                rep.fail(f"add_attendee accepts {bad!r}", "add")
            except TypeError:
                pass
            rep.expect(o.attendees == [], "rejected attendee was added", "add")
    rep.outcome("misc")

"""C29: components are read and written as their attributes declare: types, optional/list/union, metadata, order, nesting, custom converters."""
import itertools
from datetime import date, datetime, time, timedelta, timezone
from typing import Any, List, NamedTuple, Optional, Union
from urllib.parse import urlparse

import attr

import ics

ics.initialize_converters()
from ics import Component, Container, ContentLine, Geo
from ics.contentline import string_to_containers
from ics.converter.base import AttributeConverter
from ics.converter.component import ComponentMeta, ImmutableComponentMeta
from ics.types import URL, UTCOffset
from ics.valuetype.base import ValueConverter

PROPERTY = "C29"
BOUNDS = {
    "quick": "all components with one or two of 48 attribute declarations (12 types; plain, optional, list and union types; required, ignored, renamed, typed and prioritised by metadata), mutable and immutable, "
    "x up to 5 values of each attribute x 9 ways to write the text that is read; 3 levels of nested components with the same and with different declarations, all trees of <=5 components with every position of the properties; "
    "custom value and attribute converters and hooks; registered classes next to each other",
    "thorough": "three attributes out of 16 kinds of declarations, trees of <=6 components",
}
ASSUMPTIONS = [
    "attributes of one component have different property names; a list attribute's default is an empty list; single nested components are set; mutable components have a default for each attribute",
    "in a Union no type is a subclass of a later one (the first one that fits is used)",
]
CASE_TIMEOUT = 400
UTC = timezone.utc


class Color(NamedTuple):
    r: int
    g: int


class ColorConverter(ValueConverter[Color]):
    @property
    def ics_type(self):
        return "X-COLOR"

    @property
    def python_type(self):
        return Color

    def split_value_list(self, values):
        yield from values.split("/")

    def join_value_list(self, values):
        return "/".join(values)

    def parse(self, value, params={}, context={}):
        r, sep, g = value.partition(";")
        if not sep:
            raise ValueError(value)
        return Color(int(r), int(g))

    def serialize(self, value, params={}, context={}):
        return f"{value.r};{value.g}"


ColorConverter()

# python type: (name of the value type, [(value, params, text)])
TYPES = {
    str: ("TEXT", [("a", {}, "a"), ("b,c;d\n\\e", {}, "b\\,c\\;d\\n\\\\e"), ("", {}, "")]),
    int: ("INTEGER", [(0, {}, "0"), (-42, {}, "-42")]),
    float: ("FLOAT", [(0.0, {}, "0.0"), (-1.5, {}, "-1.5")]),
    bool: ("BOOLEAN", [(False, {}, "FALSE"), (True, {}, "TRUE")]),
    date: ("DATE", [(date(2020, 1, 2), {}, "20200102"), (date(1, 2, 3), {}, "00010203")]),
    datetime: ("DATE-TIME", [(datetime(2020, 1, 2, 3, 4, 5), {}, "20200102T030405"), (datetime(2020, 1, 2, tzinfo=UTC), {}, "20200102T000000Z")]),
    time: ("TIME", [(time(0), {}, "000000"), (time(1, 2, 3), {}, "010203")]),
    timedelta: ("DURATION", [(timedelta(0), {}, "PT0S"), (-timedelta(days=1, hours=2), {}, "-P1DT2H")]),
    UTCOffset: ("UTC-OFFSET", [(timedelta(0), {}, "+0000"), (-timedelta(hours=2, minutes=30), {}, "-0230")]),
    URL: ("URI", [(urlparse("http://a/b?c=d,e;f"), {}, "http://a/b?c=d,e;f"), (urlparse("cid:x"), {}, "cid:x")]),
    bytes: ("BINARY", [(b"", {"ENCODING": ["BASE64"]}, ""), (b"abc\xff", {"ENCODING": ["BASE64"]}, "YWJj/w==")]),
    Geo: (None, [(Geo(0.0, 0.0), {}, "0.000000;0.000000"), (Geo(1.5, -2.25), {}, "1.500000;-2.250000")]),
    Color: ("X-COLOR", [(Color(0, 0), {}, "0;0"), (Color(1, 2), {}, "1;2")]),
}
SPLIT = {Color: "/"}  # types whose lists aren't separated by commas


class Decl:
    def __init__(self, key, types, ann, many=False, meta=None, ics_name=None, ignored=False, required=False, prio=0, init=True, name=None, nodefault=False, default=None):
        self.key, self.types, self.ann, self.many, self.meta = key, types, ann, many, dict(meta or {})
        self.ics_name, self.ignored, self.required, self.prio, self.init, self.name, self.nodefault = ics_name, ignored, required, prio, init, name, nodefault
        self.default = default

    def attrib(self):
        if self.nodefault:
            return attr.ib(type=self.ann, metadata=self.meta)
        if self.many:
            return attr.ib(type=self.ann, factory=list, metadata=self.meta, init=self.init)
        return attr.ib(type=self.ann, default=self.default, metadata=self.meta, init=self.init)

    def prop(self, pos):
        return self.ics_name or ("A0", "BETA-GAMMA", "DELTA-EPS")[pos]

    def attr_name(self, pos):
        return self.name or ("_a0", "beta_gamma_", "delta_eps")[pos]

    def samples(self):
        """[(value, params, text)] of single values"""
        out = []
        for nr, t in enumerate(self.types):
            for v, p, s in TYPES[t][1]:
                out.append((v, {**p, **({"VALUE": [TYPES[t][0]]} if nr else {})}, s))
        return out

    def values(self):
        """[(value of the attribute, [(params, text)])] """
        s = self.samples()
        if not self.many:
            return ([(None, [])] if self.default is None else []) + [(v, [(p, t)]) for v, p, t in s]
        return [([], [])] + [([v], [(p, t)]) for v, p, t in s[-1:]] + [([s[0][0], s[1][0]], [s[0][1:], s[1][1:]]), ([s[-1][0], s[0][0], s[-1][0]], [s[-1][1:], s[0][1:], s[-1][1:]])]


def decls():
    D = []
    for t in TYPES:
        D.append(Decl("one-" + t.__name__, [t], t))
        if t is not Geo:
            D.append(Decl("list-" + t.__name__, [t], List[t], many=True))
    D += [
        Decl("opt-str", [str], Optional[str]), Decl("opt-union", [datetime, date], Union[None, datetime, date]), Decl("union-int-str", [int, str], Union[int, str]), Decl("union-uri-bin", [URL, bytes], Union[URL, bytes]),
        Decl("union-three", [timedelta, datetime, Color], Union[timedelta, datetime, Color]), Decl("list-union", [datetime, date], List[Union[datetime, date]], many=True), Decl("list-union2", [URL, bytes], List[Union[URL, bytes]], many=True),
        Decl("renamed", [str], Optional[str], meta={"ics_name": "X-NAME"}, ics_name="X-NAME"), Decl("renamed-list", [int], List[int], many=True, meta={"ics_name": "X-LIST"}, ics_name="X-LIST"),
        Decl("ignored", [str], Optional[str], meta={"ics_ignore": True}, ignored=True), Decl("noinit", [str], Optional[str], ignored=True, init=False), Decl("noinit-used", [int], Optional[int], meta={"ics_ignore": False}, init=False),
        Decl("typed", [int], Any, meta={"ics_type": Optional[int]}), Decl("typed-list", [date], list, many=True, meta={"ics_type": List[date]}), Decl("required", [str], Optional[str], meta={"ics_required": True}, required=True),
        Decl("required-list", [int], List[int], many=True, meta={"ics_required": True}, required=True), Decl("high", [int], Optional[int], meta={"ics_priority": 7}, prio=7), Decl("low", [str], Optional[str], meta={"ics_priority": -3}, prio=-3),
        Decl("default-int", [int], int, default=-42), Decl("default-str", [str], Optional[str], default="a"), Decl("default-false", [bool], bool, default=False),
        Decl("nodefault", [str], str, required=True, nodefault=True), Decl("nodefault-opt", [int], int, meta={"ics_required": False}, nodefault=True),
    ]
    return D


DECLS = decls()
BYKEY = {d.key: d for d in DECLS}
KINDS = ["one-str", "one-bool", "list-str", "list-int", "list-Color", "opt-union", "union-uri-bin", "list-union", "renamed", "ignored", "noinit-used", "default-int", "required", "required-list", "high", "low"]
assert set(KINDS) <= set(BYKEY)


def make(ds, frozen, name="X-COMP"):
    body = {"NAME": name}
    for pos in sorted(range(len(ds)), key=lambda i: not ds[i].nodefault):  # attributes without default come first in a class
        body[ds[pos].attr_name(pos)] = ds[pos].attrib()
    cls = attr.s(type("Comp", (Component,), body), frozen=frozen)
    ComponentMeta.BY_TYPE[cls] = (ImmutableComponentMeta if frozen else ComponentMeta)(cls)
    return cls


def forget(*classes):
    for c in classes:
        ComponentMeta.BY_TYPE.pop(c, None)
        Component.SUBTYPES.remove(c)


def cases(tier):
    for i in range(len(DECLS)):
        yield ["attrs", [i]]
    for i in range(len(DECLS)):
        yield ["pairs", i]
    if tier == "thorough":
        for t in itertools.permutations([i for i, d in enumerate(DECLS) if d.key in KINDS], 2):
            yield ["triples", list(t)]
    for k in range(4):
        yield ["nested", k, 6 if tier == "thorough" else 5]
    yield ["converters"]
    yield ["neighbours"]


def run_case(case, rep):
    rep.trace()
    globals()["run_" + case[0]](rep, *case[1:])


def run_pairs(rep, i):
    for j in range(len(DECLS)):
        if i != j:
            run_attrs(rep, [i, j])


def run_triples(rep, ij):
    for k in (i for i, d in enumerate(DECLS) if d.key in KINDS):
        if k not in ij:
            run_attrs(rep, ij + [k])


def cl(name, params, text):
    return ContentLine(name, dict(params), text)


def lines_of(cont):
    return [(c.name, {k: [str(x) for x in v] for k, v in c.params.items()}, c.value) if isinstance(c, ContentLine) else (c.name, lines_of(c)) for c in cont]


def run_attrs(rep, idx):
    ds = [DECLS[i] for i in idx]
    if len({d.prop(p) for p, d in enumerate(ds)}) < len(ds):
        return
    for frozen in (False, True):
        if frozen and any(not d.init for d in ds) or not frozen and any(d.nodefault for d in ds):
            continue
        cls = make(ds, frozen)
        try:
            check_class(rep, cls, ds, frozen)
        finally:
            forget(cls)


def init_name(d, pos):
    return d.attr_name(pos).lstrip("_")


def build(cls, ds, vals):
    kw = {init_name(d, p): (list(v) if d.many else v) for p, (d, (v, _)) in enumerate(zip(ds, vals)) if d.init}
    c = cls(**kw)
    for p, (d, (v, _)) in enumerate(zip(ds, vals)):
        if not d.init:
            setattr(c, d.attr_name(p), list(v) if d.many else v)
    return c


def same(a, b):
    return a == b and type(a) is type(b) and (not isinstance(a, list) or all(same(x, y) for x, y in zip(a, b)))


def attempt(f):
    try:
        return f()
    except ValueError:
        return ValueError


def check_class(rep, cls, ds, frozen):
    order = sorted(range(len(ds)), key=lambda i: not ds[i].nodefault)
    order = sorted(order, key=lambda i: -ds[i].prio)  # stable: declaration order within a priority
    what = f"{'immutable ' if frozen else ''}component with {[d.key for d in ds]}"
    extra = [ContentLine("X-UNKNOWN", {"X-P": ["1", "2"]}, "v,w"), Container("X-SUB", [ContentLine("A0", {}, "5")])]
    allvals = [d.values() for d in ds]
    if not any(d.nodefault for d in ds):  # without any properties
        rep.step()
        r = attempt(lambda: cls.from_container(Container("X-COMP", extra)))
        if any(d.required for d in ds):
            rep.expect(r is ValueError, lambda: f"{what}: read without required properties as {r!r}", "required")
        else:
            want = [[] if d.many else d.default for d in ds]
            rep.expect(r is not ValueError and all(same(getattr(r, d.attr_name(p)), v) for p, (d, v) in enumerate(zip(ds, want))) and r.extra == Container("X-COMP", extra), lambda: f"{what}: read without properties as {r!r}", "defaults")
            rep.expect(r is ValueError or r == attempt(lambda: cls.from_container(Container("X-COMP", extra))), f"{what}: read without properties isn't equal to itself", "defaults")
    if len(ds) > 2:
        allvals = [v[:1] + v[-2:] for v in allvals]
    for vals in itertools.product(*allvals):
        rep.step()
        comp = build(cls, ds, vals)
        want = [(ds[i].prop(i), {k: list(v) for k, v in p.items()}, t) for i in order if not ds[i].ignored for p, t in vals[i][1]]
        got = lines_of(comp.to_container())
        if not rep.expect(got == want, lambda: f"{what}: {[v for v, _ in vals]} written as {got} instead of {want}", "write"):
            continue
        missing = any(d.required and not v[1] for d, v in zip(ds, vals))
        model = [None if d.ignored and not d.many else [] if d.ignored else v for d, (v, _) in zip(ds, vals)]
        nothing = any(d.nodefault and v is None for d, v in zip(ds, model))
        if nothing:
            continue  # not required, but without a default: there is no object without it
        text = comp.serialize()
        src = [cl(*w) for w in want]
        last = {w[0]: w for w in want}
        variants = [("as written", list(string_to_containers(text))[0], want, model)]
        if src:
            variants.append(("reversed", Container("X-COMP", src[::-1]), None, [v[::-1] if isinstance(v, list) else v for v in model]))
            variants.append(("with unknown items", Container("X-COMP", [extra[0]] + src[:1] + [extra[1]] + src[1:]), want + lines_of(extra), model))
            withp = [cl(n, {**p, "X-P": ["q"]}, t) for n, p, t in want]
            variants.append(("with params", Container("X-COMP", withp), [(n, {**p, "X-P": ["q"]}, t) for n, p, t in want], model))
            full = []
            for n, p, t in want:  # the type is given explicitly
                d = next(d for pos, d in enumerate(ds) if d.prop(pos) == n)
                tn = TYPES[d.types[0]][0]
                full.append(cl(n, p if "VALUE" in p or tn is None else {"VALUE": [tn.lower()], **p}, t))
            variants.append(("with types", Container("X-COMP", full), want, model))
            merged, wm = [], []
            for i in order:
                if ds[i].ignored:
                    continue
                ps = vals[i][1]
                if ds[i].many and len(ps) > 1 and all(p == ps[0][0] for p, _ in ps):
                    sep = SPLIT.get(ds[i].types[0], ",")
                    if URL in ds[i].types and any("," in t for _, t in ps):
                        sep = None
                    ps = [(ps[0][0], sep.join(t for _, t in ps))] if sep else ps
                merged += [cl(ds[i].prop(i), p, t) for p, t in ps]
                wm += [(ds[i].prop(i), {k: list(v) for k, v in p.items()}, t) for p, t in ps]
            if not any(URL in d.types and d.many for d in ds):
                variants.append(("in one line", Container("X-COMP", merged), wm, model))
        if any(d.many and URL in d.types and any("," in t for _, t in v[1]) for d, v in zip(ds, vals)):
            continue  # commas aren't part of a URI in lists
        for how, cont, rewritten, m in variants:
            rep.step()
            before = lines_of(cont)
            r = attempt(lambda: cls.from_container(cont))
            if missing:
                rep.expect(r is ValueError, lambda: f"{what}: {before} lacks a required property, but was read as {r}", "required")
                rep.outcome("required-missing")
                continue
            if not rep.expect(r is not ValueError, lambda: f"{what}: {before} was rejected", "read"):
                continue
            rep.expect(type(r) is cls and all(same(getattr(r, d.attr_name(p)), v) for p, (d, v) in enumerate(zip(ds, m))), lambda: f"{what}: {before} read as {r!r} instead of {m}", "read")
            rep.expect(lines_of(cont) == before, f"{what}: reading {how} changed the container", "source")
            again = lines_of(r.to_container())
            if rewritten is None:
                groups = {n: [w for w in want if w[0] == n][::-1] for n in last}
                rewritten = [w for n in dict.fromkeys(w[0] for w in want) for w in groups[n]]
            rep.expect(again == rewritten, lambda: f"{what}: {before} ({how}) written again as {again} instead of {rewritten}", "rewrite")
            rep.expect(attempt(lambda: cls.from_container(cont)) == r, f"{what}: {before} read twice isn't equal", "again")
        # texts which are no such component
        bad = [("another name", Container("X-OTHER", src))]
        for i, d in enumerate(ds):
            mine = [c for c in src if c.name == d.prop(i)]
            if mine and not d.ignored:
                bad.append(("unknown type", Container("X-COMP", [cl(c.name, {**c.params, "VALUE": ["X-FOO"]}, c.value) if c is mine[-1] else c for c in src])))
                bad.append(("two types", Container("X-COMP", [cl(c.name, {**c.params, "VALUE": ["TEXT", "DATE"]}, c.value) if c is mine[-1] else c for c in src])))
                if not d.many:
                    bad.append(("duplicate", Container("X-COMP", src + [mine[0].clone()])))
                    bad.append(("duplicate", Container("X-COMP", [mine[0].clone()] + extra + src)))
        for how, cont in bad:
            rep.step()
            if any(d.types == [Geo] for d in ds) and "type" in how:
                continue
            r = attempt(lambda: cls.from_container(cont))
            rep.expect(r is ValueError, lambda: f"{what}: {lines_of(cont)} ({how}) was read as {r!r}", "reject")
            rep.outcome(how)
        # and nothing is left over from these
        if not missing:
            r = attempt(lambda: cls.from_container(list(string_to_containers(text))[0]))
            rep.expect(r is not ValueError and all(same(getattr(r, d.attr_name(p)), v) for p, (d, v) in enumerate(zip(ds, model))), lambda: f"{what}: {want} read as {r!r} after failures", "left-over")
        rep.state((idx_key(ds), frozen, str([v for v, _ in vals])))


def idx_key(ds):
    return tuple(d.key for d in ds)


# ----------------------------------------------------------------------------- nesting


def run_nested(rep, kind, n):
    """three levels of components; their attributes are declared alike (kind 0, 2) or differently"""
    T = [str, str, str] if kind in (0, 2) else [str, int, Color]
    val = {str: lambda i: f"v{i}", int: lambda i: i, Color: lambda i: Color(i, i)}
    txt = {str: lambda i: f"v{i}", int: lambda i: str(i), Color: lambda i: f"{i};{i}"}
    many = kind >= 2
    classes = []
    for level in (2, 1, 0):
        body = {"NAME": f"X-L{level}", "label": attr.ib(type=List[T[level]], factory=list) if many else attr.ib(type=Optional[T[level]], default=None)}
        if classes:
            body["kids"] = attr.ib(type=List[classes[-1]], factory=list)
        cls = attr.s(type(f"L{level}", (Component,), body))
        ComponentMeta.BY_TYPE[cls] = ComponentMeta(cls)
        classes.append(cls)
    leaf, mid, top = classes
    try:

        def trees(level, size):
            """shapes: list of child shapes"""
            if size == 1:
                yield ()
            if level == 2 or size < 2:
                return
            for parts in compositions(size - 1):
                for kids in itertools.product(*(list(trees(level + 1, p)) for p in parts)):
                    yield kids

        def compositions(k):
            if k == 0:
                yield ()
            for a in range(1, k + 1):
                for rest in compositions(k - a):
                    yield (a,) + rest

        for size in range(1, n + 1):
            for shape in trees(0, size):
                nodes = []

                def number(s, level):
                    i = len(nodes)
                    nodes.append((s, level))
                    return (i, level, [number(k, level + 1) for k in s])

                tree = number(shape, 0)
                # every node has its label at some place between its children, or none
                choices = [[None] + list(range(len(s) + 1)) for s, _ in nodes]
                for places in itertools.product(*choices):
                    rep.step()

                    def text(t):
                        i, level, kids = t
                        items = [text(k) for k in kids]
                        if places[i] is not None:
                            items[places[i] : places[i]] = [ContentLine("LABEL", {}, txt[T[level]](i))] + ([ContentLine("LABEL", {}, txt[T[level]](i + 10))] if many else [])
                        return Container(f"X-L{level}", items)

                    def obj(t):
                        i, level, kids = t
                        v = val[T[level]]
                        kw = {} if places[i] is None else {"label": [v(i), v(i + 10)] if many else v(i)}
                        if level < 2:
                            kw["kids"] = [obj(k) for k in kids]
                        return (top, mid, leaf)[level](**kw)

                    def plain(o):
                        return (type(o).__name__, o.label, [plain(k) for k in getattr(o, "kids", [])], len(o.extra))

                    cont, want = text(tree), plain(obj(tree))
                    try:
                        got = plain(top.from_container(cont))
                    except (ValueError, AssertionError) as e:
                        got = repr(e)
                    rep.expect(got == want, lambda: f"{cont} read as {got} instead of {want}", "nested-read")
                    back = top.from_container(list(string_to_containers(obj(tree).serialize()))[0]) if got == want else None
                    rep.expect(back is None or plain(back) == want, lambda: f"{want} written and read as {back}", "nested")
                    rep.state((kind, places, str(shape)))
        if kind:
            return
        # subclasses of the declared component are written as what they are
        sub = attr.s(type("Sub", (leaf,), {"NAME": "X-L2", "more": attr.ib(type=Optional[int], default=None)}))
        ComponentMeta.BY_TYPE[sub] = ComponentMeta(sub)
        try:
            for k in ([sub(label="a", more=5)], [leaf(label="b"), sub(more=0)], [sub(), leaf(), sub(label="c", more=1)]):
                rep.step()
                got = lines_of(mid(kids=k).to_container())
                want = [("X-L2", [("LABEL", {}, x.label)] * (x.label is not None) + [("MORE", {}, str(getattr(x, "more", None)))] * (getattr(x, "more", None) is not None)) for x in k]
                rep.expect(got == want, f"{k} written as {got} instead of {want}", "nested-sub")
        finally:
            forget(sub)
    finally:
        forget(*classes)


# ----------------------------------------------------------------------------- custom converters


def run_converters(rep):
    log = []

    @attr.s(frozen=True)
    class RangeConverter(AttributeConverter):
        """one attribute, two properties"""

        @property
        def filter_ics_names(self):
            return ["LOW", "HIGH"]

        def populate(self, component, item, context):
            lo, hi = getattr(component, self.attribute.name)
            if item.value == "pass":
                return False
            setattr(component, self.attribute.name, (int(item.value), hi) if item.name == "LOW" else (lo, int(item.value)))
            return True

        def post_populate(self, component, context):
            log.append(("populated", getattr(component, self.attribute.name), component.note))

        def serialize(self, component, output, context):
            for n, v in zip(("LOW", "HIGH"), getattr(component, self.attribute.name)):
                output.append(ContentLine(n, {}, str(v)))

        def post_serialize(self, component, output, context):
            log.append(("serialized", [c.name for c in output]))

    for prio in (-1, 0, 1):
        cls = attr.s(
            type(
                "Comp",
                (Component,),
                {"NAME": "X-COMP", "note": attr.ib(type=Optional[str], default=None), "span": attr.ib(default=(0, 0), metadata={"ics_converter": RangeConverter, "ics_type": tuple, "ics_priority": prio}), "high": attr.ib(type=Optional[int], default=None)},
            )
        )
        ComponentMeta.BY_TYPE[cls] = ComponentMeta(cls)
        try:
            for perm in itertools.permutations([("LOW", "1"), ("HIGH", "2"), ("NOTE", "n"), ("X-Y", "z"), ("LOW", "pass")]):
                for k in range(len(perm) + 1):
                    rep.step()
                    log.clear()
                    src = Container("X-COMP", [ContentLine(n, {}, v) for n, v in perm[:k]])
                    c = cls.from_container(src)
                    p = set(perm[:k])
                    # HIGH is offered to both of the converters which want it
                    want = ((1 if ("LOW", "1") in p else 0, 2 if ("HIGH", "2") in p else 0), "n" if ("NOTE", "n") in p else None, 2 if ("HIGH", "2") in p else None)
                    rest = [x for x in perm[:k] if x in (("X-Y", "z"), ("LOW", "pass"))]
                    got = (c.span, c.note, c.high)
                    rep.expect(got == want and [(x.name, x.value) for x in c.extra] == rest, lambda: f"{perm[:k]} read as {got} {c.extra} instead of {want} {rest}", "custom-read")
                    rep.expect(log == [("populated", want[0], want[1])], lambda: f"{perm[:k]}: hooks {log}", "hook")
                    log.clear()
                    names = [[("LOW", str(want[0][0])), ("HIGH", str(want[0][1]))], [("NOTE", "n")] * (want[1] is not None), [("HIGH", "2")] * (want[2] is not None)]
                    out = [(x.name, x.value) for x in c.to_container()]
                    full = (names[0] + names[1] + names[2] if prio > 0 else names[1] + names[0] + names[2] if prio == 0 else names[1] + names[2] + names[0]) + rest
                    rep.expect(out == full, lambda: f"written as {out} instead of {full}", "custom-write")
                    rep.expect(log == [("serialized", [n for n, _ in full])], lambda: f"hooks {log}", "hook")
        finally:
            forget(cls)
    # timespans come first unless another priority is given
    for prio, others in itertools.product((None, -1, 0, 1, 2, 20), repeat=2):
        rep.step()
        meta = lambda p: {} if p is None else {"ics_priority": p}
        cls = attr.s(
            type(
                "Timed", (Component,),
                {"NAME": "X-COMP", "note": attr.ib(type=Optional[str], default=None, metadata=meta(others)), "timespan": attr.ib(type=ics.EventTimespan, factory=ics.EventTimespan, metadata=meta(prio)), "num": attr.ib(type=Optional[int], default=None)},
            )
        )
        ComponentMeta.BY_TYPE[cls] = ComponentMeta(cls)
        try:
            c = cls(note="n", timespan=ics.EventTimespan(datetime(2020, 1, 1), datetime(2020, 1, 2)), num=1)
            prios = [("note", others or 0), ("timespan", 1000 if prio is None else prio), ("num", 0)]
            want = [n for n, _ in sorted(prios, key=lambda x: -x[1])]
            out = [x.name for x in c.to_container()]
            full = [l for n in want for l in {"note": ["NOTE"], "timespan": ["DTSTART", "DTEND"], "num": ["NUM"]}[n]]
            rep.state(("timed", prio, others))
            rep.expect(out == full, lambda: f"priorities {prio} of the timespan and {others} of NOTE: written in the order {out} instead of {full}", "timed-order")
            rep.expect(cls.from_container(c.to_container()) == c, lambda: f"{c} isn't read again", "timed-read")
        finally:
            forget(cls)
    # declarations that can't be converted are reported when the converters are made
    for ann in (None, object, complex, List[complex], Union[int, complex]):
        rep.step()
        cls = attr.s(type("Bad", (Component,), {"NAME": "X-BAD", "x": attr.ib(type=ann, default=None)}))
        try:
            ComponentMeta(cls)
            rep.fail(f"converters for an attribute of type {ann} were found", "no-converter")
        except ValueError:
            rep.outcome("no-converter")
        Component.SUBTYPES.remove(cls)


def run_neighbours(rep):
    """classes whose attributes have the same names don't influence each other, nor the library's own ones"""
    keys = ["one-str", "list-str", "one-int", "union-int-str", "list-int", "ignored", "required"]
    text = "BEGIN:X-COMP\r\nA0:1\r\nEND:X-COMP"
    want = {"one-str": "1", "list-str": ["1"], "one-int": 1, "union-int-str": 1, "list-int": [1], "ignored": None, "required": "1"}
    event = "BEGIN:VEVENT\r\nSUMMARY:s\r\nUID:1\r\nDTSTAMP:20200101T000000Z\r\nA0:1\r\nEND:VEVENT"
    for perm in itertools.permutations(keys, 3):
        cs = [make([BYKEY[k]], False) for k in perm]
        try:
            for seq in itertools.product(range(3), repeat=3):
                rep.step()
                for i in seq:
                    c = cs[i].from_container(list(string_to_containers(text))[0])
                    rep.expect(same(c._a0, want[perm[i]]), lambda: f"{perm[i]} next to {perm} read as {c._a0!r}", "neighbours")
                    out = c.serialize()
                    rep.expect(out == text, lambda: f"{perm[i]} written as {out!r}", "neighbours")
            e = ics.Event.from_container(list(string_to_containers(event))[0])
            rep.expect(e.summary == "s" and len(e.extra) == 1 and e.serialize() == event, lambda: f"event read as {e} and written as {e.serialize()!r}", "neighbours")
        finally:
            forget(*cs)

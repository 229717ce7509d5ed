"""C04: a container is a type-safe list; operations behave like list operations or fail without any effect."""
import itertools

from ics.contentline import Container, ContentLine

PROPERTY = "C04"
BOUNDS = {
    "quick": "breadth-first search of all states of <=4 items (4 kinds of items), every operation of a menu of ~250 applied in every state, "
    "plus every sequence of 2 operations without rebuilding; clones of all nested containers with <=4 items, every item of the clone changed",
    "thorough": "states of <=5 items, sequences of 3 operations (representative menu); nested containers with <=5 items",
}

# items are created fresh for each history; they are identified by token
TOKENS = ["a1", "a2", "b", "C", "c"]


class Env:
    def __init__(self):
        self.obj = {
            "a1": ContentLine("A", {}, "1"),
            "a2": ContentLine("A", {"X": ["y"]}, "2"),
            "b": ContentLine("B", {}, "1"),
            "C": Container("C", [ContentLine("A", {}, "1")]),
            "c": ContentLine("C", {}, ""),
            "str": "A:1",
            "none": None,
            "int": 5,
            "list": [ContentLine("A", {}, "1")],
        }
        self.tok = {id(v): k for k, v in self.obj.items()}

    def to(self, items):
        return [self.obj[i] for i in items]

    def back(self, items):
        out = []
        for i in items:
            if id(i) in self.tok:
                out.append(self.tok[id(i)])
            else:
                m = [k for k in TOKENS if self.obj[k] == i]
                out.append("=" + m[0] if m else repr(i))
        return out


NAMES = {"a1": "A", "a2": "A", "b": "B", "C": "C", "c": "C"}
VALID = set(TOKENS)
INVALID = ["str", "none", "int", "list"]
IDX = [-4, -3, -1, 0, 1, 2, 3, 7]
SLICES = [(None, None, None), (0, 1, None), (1, None, None), (None, -1, None), (1, 1, None), (2, 9, None), (None, None, 2), (None, None, -1), (-2, None, None)]
LISTS = [[], ["a1"], ["a2", "b"], ["C", "a1", "a1"], ["int"], ["a1", "str"], ["none", "a1"], ["a1", "b", "list"]]


def menu(full):
    ops = []
    items = TOKENS[:4] + INVALID if full else ["a1", "C", "str"]
    idx = IDX if full else [-1, 0, 2]
    slices = SLICES if full else [(0, 1, None), (1, None, None), (None, None, 2)]
    lists = LISTS if full else [["a2", "b"], ["a1", "str"]]
    for i in items:
        ops.append(("append", i))
        for k in idx:
            ops.append(("insert", k, i))
            ops.append(("setitem", k, i))
    for l in lists:
        for how in ("list", "gen", "tuple", "container") if full else ("list", "gen"):
            ops.append(("extend", l, how))
            ops.append(("iadd", l, how))
            for s in slices:
                ops.append(("setslice", s, l, how))
    for k in idx:
        ops += [("get", k), ("del", k), ("pop", k)]
    for s in slices:
        ops += [("getslice", s), ("delslice", s)]
    for n in ("A", "B", "C", "Z"):
        ops += [("getname", n), ("delname", n)]
    for i in TOKENS:
        ops += [("remove", i), ("index", i), ("count", i), ("contains", i)]
        # the same with an equal item, which is another object
        ops += [("remove", i, "eq"), ("index", i, "eq"), ("count", i, "eq"), ("contains", i, "eq")]
        ops += [("index", i, "eq", *r) for r in ((1,), (-1,), (0, 1), (1, 3), (-2, -1))]
    ops += [("pop",), ("reverse",), ("clear",), ("len",), ("iter",), ("reversed",), ("clone",), ("deepclone",), ("selfextend",), ("selfslice",)]
    ops += [("ctor", l) for l in lists] + [("cloneitems", l) for l in lists]
    return ops


def supply(objs, how):
    if how == "list":
        return objs
    if how == "gen":
        return (o for o in objs)
    if how == "tuple":
        return tuple(objs)
    return Container("TMP", objs)


def model(state, op):
    """-> (result, new_state) or ('error', set of exception names)"""
    s = list(state)
    k = op[0]
    bad = lambda l: any(i not in VALID for i in l)
    try:
        if k == "append":
            if op[1] not in VALID:
                return "error", {"TypeError"}
            s.append(op[1])
            return None, s
        if k == "insert":
            if op[2] not in VALID:
                return "error", {"TypeError"}
            s.insert(op[1], op[2])
            return None, s
        if k == "setitem":
            errs = set()
            if op[2] not in VALID:
                errs.add("TypeError")
            if not -len(s) <= op[1] < len(s):
                errs.add("IndexError")
            if errs:
                return "error", errs
            s[op[1]] = op[2]
            return None, s
        if k in ("extend", "iadd"):
            if bad(op[1]):
                return "error", {"TypeError"}
            s.extend(op[1])
            return None, s
        if k == "setslice":
            errs = set()
            if bad(op[2]):
                errs.add("TypeError")
            try:
                t = list(s)
                t[slice(*op[1])] = op[2]
            except ValueError:
                errs.add("ValueError")
            if errs:
                return "error", errs
            return None, t
        if k == "get":
            return s[op[1]], s
        if k == "del":
            del s[op[1]]
            return None, s
        if k == "pop":
            r = s.pop(*op[1:])
            return r, s
        if k == "getslice":
            return s[slice(*op[1])], s
        if k == "delslice":
            del s[slice(*op[1])]
            return None, s
        if k == "getname":
            return [i for i in s if NAMES[i] == op[1]], s
        if k == "delname":
            return None, [i for i in s if NAMES[i] != op[1]]
        if k == "remove":
            s.remove(op[1])
            return None, s
        if k == "index":
            return s.index(op[1], *op[3:]), s
        if k == "count":
            return s.count(op[1]), s
        if k == "contains":
            return op[1] in s, s
        if k == "reverse":
            return None, s[::-1]
        if k == "clear":
            return None, []
        if k == "len":
            return len(s), s
        if k in ("iter", "clone", "deepclone"):
            return list(s), s
        if k == "reversed":
            return s[::-1], s
        if k == "selfextend":
            return None, s + s
        if k == "selfslice":
            return None, s + s[1:]
        if k in ("ctor", "cloneitems"):
            if bad(op[1]):
                return "error", {"TypeError"}
            return list(op[1]), s
    except (IndexError, ValueError) as e:
        return "error", {type(e).__name__}
    raise AssertionError(op)


def item(op, o):
    return Env().obj[op[1]] if "eq" in op else o[op[1]]


def real(c, op, env):
    k = op[0]
    o = env.obj
    if k == "append":
        return c.append(o[op[1]])
    if k == "insert":
        return c.insert(op[1], o[op[2]])
    if k == "setitem":
        c[op[1]] = o[op[2]]
        return None
    if k == "extend":
        return c.extend(supply(env.to(op[1]), op[2]) if set(op[1]) <= VALID or op[2] != "container" else env.to(op[1]))
    if k == "iadd":
        v = supply(env.to(op[1]), op[2]) if set(op[1]) <= VALID or op[2] != "container" else env.to(op[1])
        before = c
        c += v
        assert c is before
        return None
    if k == "setslice":
        c[slice(*op[1])] = supply(env.to(op[2]), op[3]) if set(op[2]) <= VALID or op[3] != "container" else env.to(op[2])
        return None
    if k == "get":
        return c[op[1]]
    if k == "del":
        del c[op[1]]
        return None
    if k == "pop":
        return c.pop(*op[1:])
    if k == "getslice":
        r = c[slice(*op[1])]
        assert isinstance(r, Container) and r.name == c.name and r is not c
        r.append(o["b"])  # must be independent of the original
        r.pop()
        return r
    if k == "delslice":
        del c[slice(*op[1])]
        return None
    if k == "getname":
        return c[op[1]]
    if k == "delname":
        del c[op[1]]
        return None
    if k == "remove":
        return c.remove(item(op, o))
    if k == "index":
        return c.index(item(op, o), *op[3:])
    if k == "count":
        return c.count(item(op, o))
    if k == "contains":
        return item(op, o) in c
    if k == "reverse":
        return c.reverse()
    if k == "clear":
        return c.clear()
    if k == "len":
        return len(c)
    if k == "iter":
        return list(c)
    if k == "reversed":
        return list(reversed(c))
    if k in ("clone", "deepclone"):
        r = c.clone(deep=(k == "deepclone"))
        assert r is not c and r == c and r.name == c.name
        res = list(r)
        if k == "deepclone":
            assert all(a is not b and a == b for a, b in zip(r, c))
            res = list(c)
        r.append(o["b"])
        del r[0]
        return res
    if k == "selfextend":
        return c.extend(c)
    if k == "selfslice":
        return c.extend(c[1:])
    if k == "ctor":
        return list(Container("N", env.to(op[1])))
    if k == "cloneitems":
        return list(c.clone(env.to(op[1])))
    raise AssertionError(op)


def norm(r, env):
    if isinstance(r, (list, tuple, Container)) and not (isinstance(r, Container) and id(r) in env.tok):
        return env.back(r)
    if isinstance(r, (ContentLine, Container)):
        return env.back([r])[0]
    return r


def apply(c, state, op, env, rep, hist):
    res, new = model(state, op)
    try:
        got = norm(real(c, op, env), env)
        exc = None
    except Exception as e:
        got, exc = None, type(e).__name__
    rep.step()
    content = env.back(c)
    where = lambda: f"after {hist!r} in state {list(state)!r}, {op!r}"
    if isinstance(res, str) and res == "error":
        rep.outcome(f"{op[0]} rejected")
        if not rep.expect(exc in new, lambda: f"{where()} gave {got!r}/{exc} instead of raising one of {new}"):
            return None
        if not rep.expect(content == list(state), lambda: f"{where()} failed, but changed the content to {content!r}"):
            return None
        return list(state)
    rep.outcome(op[0])
    if not rep.expect(exc is None and got == res, lambda: f"{where()} gave {got!r}/{exc} instead of {res!r}"):
        return None
    if not rep.expect(content == new, lambda: f"{where()} resulted in {content!r} instead of {new!r}"):
        return None
    if not rep.expect(len(c) == len(new) and c.name == "N", lambda: f"{where()}: wrong len or name"):
        return None
    txt = c.serialize()
    inner = "".join(o.serialize(newline=True) if isinstance(o, ContentLine) else o.serialize(newline=True) for o in env.to(new))
    rep.expect(txt == "BEGIN:N\r\n" + inner + "END:N", lambda: f"{where()}: serialized as {txt!r}")
    return new


def cases(tier):
    n = 5 if tier == "thorough" else 4
    for size in range(n + 1):
        for st in itertools.product(TOKENS[:4], repeat=size):
            yield ["bfs", list(st)]
    for i in range(len(menu(tier == "thorough" and False))):
        yield ["seq", [i], 3 if tier == "thorough" else 2]
    for shape in shapes(5 if tier == "thorough" else 4):
        yield ["deep", shape]


def shapes(n):
    """all forests with at most n items: a line is [], a component is [..]; encoded as nested lists of "l" and lists"""
    def forests(k):
        if k == 0:
            yield []
            return
        for rest in forests(k - 1):
            yield ["l"] + rest
        for inner in range(k):
            for sub in forests(inner):
                for rest in forests(k - 1 - inner):
                    yield [sub] + rest

    for k in range(n + 1):
        yield from forests(k)


def run_deep(shape, rep):
    """clones of nested containers: equal, in the same order, and (the deep ones) sharing nothing that can be changed"""
    cnt = itertools.count()

    def build(sh):
        return [ContentLine("L", {"P": [str(next(cnt))]}, "v") if x == "l" else Container(f"N{next(cnt) % 3}", build(x)) for x in sh]

    def walk(items):
        for i in items:
            yield i
            if isinstance(i, Container):
                yield from walk(i)

    def change(item):
        if isinstance(item, Container):
            item.append(ContentLine("NEW", {}, ""))
        else:
            item.value = "changed"
            item.params["P"].append("x")
            item.params["Q"] = ["y"]

    a = Container("TOP", build(shape))
    text = a.serialize()
    size = len(list(walk(a)))
    for k in range(size + 1):
        for side in ("clone", "orig"):
            rep.step()
            cl = a.clone(deep=True)
            rep.expect(cl == a and cl.serialize() == text and len(list(walk(cl))) == size, lambda: f"the deep clone of {text!r} is {cl.serialize()!r}")
            rep.expect(not {id(i) for i in walk(cl)} & {id(i) for i in walk(a)}, lambda: f"the deep clone of {text!r} shares items with it")
            kept, changed = (a, cl) if side == "clone" else (cl, a.clone(deep=True))
            if side == "orig":  # changing the original: use another clone as the original, so that a stays intact
                cl2 = changed.clone(deep=True)
                kept, changed = cl2, changed
            change(changed if k == size else list(walk(changed))[k])
            rep.expect(kept.serialize() == text, lambda: f"changing item {k} of a deep clone of {text!r} changed the other one to {kept.serialize()!r}")
            rep.expect(changed.serialize() != text and changed != kept, lambda: f"a deep clone of {text!r} doesn't compare different after a change of item {k}")
    # a shallow clone has its own list, but the same items
    cl = a.clone()
    rep.expect(cl == a and all(x is y for x, y in zip(cl, a)) and len(cl) == len(a), lambda: f"the shallow clone of {text!r} is {cl.serialize()!r}")
    cl.append(ContentLine("NEW", {}, ""))
    rep.expect(a.serialize() == text, "a shallow clone shares the list of items")
    rep.state(("deep", text))
    rep.trace()


def run_case(case, rep):
    if case[0] == "deep":
        run_deep(case[1], rep)
    elif case[0] == "bfs":
        state = case[1]
        rep.state(tuple(state))
        env = Env()
        src = env.to(state)
        c = Container("N", src)
        src.append("garbage")
        rep.expect(env.back(c) == state, "a container shares the list it was created from")
        d = Container("N")
        d.extend(c)
        rep.expect(len(Container("N")) == 0, "new containers are not empty")
        for op in menu(True):
            env = Env()
            c = Container("N", env.to(state))
            new = apply(c, state, op, env, rep, [])
            if new is not None and len(new) <= len(state):
                rep.state(tuple(new))
            rep.trace()
    else:
        ops = menu(False)
        for rest in itertools.product(range(len(ops)), repeat=case[2] - 1):
            env = Env()
            start = ["a1", "C", "a2"]
            c = Container("N", env.to(start))
            state = list(start)
            hist = []
            for i in case[1] + list(rest):
                state = apply(c, state, ops[i], env, rep, hist)
                hist.append(ops[i])
                if state is None:
                    return
            rep.state(tuple(state))
            rep.trace()

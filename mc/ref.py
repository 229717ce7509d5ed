"""An independent minimal reader for well-formed iCalendar text, used as an oracle for what the library wrote."""


def unfold(text):
    out = []
    for l in text.split("\r\n"):
        if l[:1] in (" ", "\t") and out:
            out[-1] += l[1:]
        elif l:
            out.append(l)
    return out


def param_unescape(s):
    out, i = "", 0
    while i < len(s):
        if s[i] == "^" and s[i + 1 : i + 2] in ("n", "^", "'"):
            out += {"n": "\n", "^": "^", "'": '"'}[s[i + 1]]
            i += 2
        else:
            out += s[i]
            i += 1
    return out


def line(l):
    """(NAME, ((pname, (values)), ...), value)"""
    parts, cur, q, i = [], "", False, 0
    while i < len(l):
        c = l[i]
        if c == '"' and parts and "=" in cur:
            q = not q
        if c == ":" and not q:
            break
        if c == ";" and not q:
            parts.append(cur)
            cur = ""
        else:
            cur += c
        i += 1
    else:
        raise ValueError(f"no content line: {l!r}")
    parts.append(cur)
    params = []
    for p in parts[1:]:
        n, _, v = p.partition("=")
        vals, cur, q = [], "", False
        for c in v:
            if c == '"':
                q = not q
            elif c == "," and not q:
                vals.append(cur)
                cur = ""
            else:
                cur += c
        vals.append(cur)
        params.append((n.upper(), tuple(param_unescape(x) for x in vals)))
    return (parts[0].upper(), tuple(params), l[i + 1 :])


class C:
    """a component: name and items (lines as tuples, sub-components as C)"""

    def __init__(self, name, items=()):
        self.name = name
        self.items = list(items)

    def key(self):
        return (self.name, tuple(i.key() if isinstance(i, C) else i for i in self.items))

    def __eq__(self, o):
        return isinstance(o, C) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"<{self.name} {self.items}>"

    def clone(self):
        return C(self.name, [i.clone() if isinstance(i, C) else i for i in self.items])

    def subs(self, name):
        return [i for i in self.items if isinstance(i, C) and i.name == name]

    def props(self, name):
        return [i for i in self.items if not isinstance(i, C) and i[0] == name]


def parse(text):
    root = C("ROOT")
    stack = [root]
    for l in unfold(text):
        t = line(l)
        if t[0] == "BEGIN":
            c = C(t[2])
            stack[-1].items.append(c)
            stack.append(c)
        elif t[0] == "END":
            c = stack.pop()
            assert c.name == t[2] and stack, l
        else:
            stack[-1].items.append(t)
    assert len(stack) == 1
    return root.items

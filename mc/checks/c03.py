"""C03: BEGIN/END lines are turned into exactly the tree they denote, and badly nested ones are rejected."""
import itertools

from ics.contentline import Container, ContentLine, ParseError, Parser, string_to_container, string_to_containers
from ics.contentline.container import contentline_set_wrap
from ics.contentline.parser import ContentLineParser

PROPERTY = "C03"
BOUNDS = {
    "quick": "every sequence of <=6 lines over {BEGIN/END of two names, END in other case, BEGIN in other case, two properties}, pruned where an END "
    "closes nothing; every sequence of <=5 BEGIN/END lines over five names which are prefixes or suffixes of each other; all pairs of 23 names that differ only in blanks or other strippable characters in 5 contexts; every tree of <=5 nodes written under 5 widths and read back; chains of depth 1..200 and widths up to 300",
    "thorough": "as quick with sequences of <=7 lines (<=6 over the five names) and trees of <=7 nodes",
}
ASSUMPTIONS = ["an END line outside of any container is outside the claim", "names are non-empty"]

TOK = ["BEGIN:A", "BEGIN:B", "END:A", "END:B", "P:1", "end:a", "begin:A", "BEGIN:a", "Q;X=1:BEGIN:A"]


# names which are prefixes or suffixes of each other, or contain other characters
NAMETOK = [k + n for n in ("A", "AB", "BA", "A-B", "1") for k in ("BEGIN:", "END:")] + ["END:", "END:ab"]


# names that differ only in blanks or other characters which might be stripped
VARIANTS = ["A", "A ", " A", "A\t", "\tA", "A  ", " ", "A-", "-A", "A.", '"A"', "A;", "A:", ":A", "A,", "AA", "A0", "0A", "A\\", "A\x0b", "A\u00a0", "a", "a "]


def cases(tier):
    n = 7 if tier == "thorough" else 6
    yield ["seq", [], 2]
    for pre in itertools.product(range(len(TOK)), repeat=2 if n == 6 else 3):
        yield ["seq", list(pre), n - len(pre)]
    for pre in itertools.product(range(len(NAMETOK)), repeat=2):
        yield ["names", list(pre), 4 if tier == "thorough" else 3]
    yield ["variants"]
    for size in range(0, 8 if tier == "thorough" else 6):
        for i, _ in enumerate(trees(size)):
            if i % 50 == 0:
                yield ["tree", size, i]
    for depth in list(range(1, 40)) + [60, 100, 200]:
        yield ["deep", depth]
    for width in (1, 2, 3, 10, 100, 300):
        yield ["wide", width]


def step(stack, tok):
    """reference stack machine; stack[0] is the list of top-level items; returns False if rejected"""
    name, _, value = tok.partition(":")
    name = name.upper()
    if name == "BEGIN":
        node = (value, [])
        stack[-1][1].append(node)
        stack.append(node)
    elif name == "END":
        if stack[-1][0].upper() != value.upper():
            return False
        stack.pop()
    else:
        stack[-1][1].append(tok)
    return True


def ref_tree(seq):
    """('ok', items) | ('reject',) | ('skip',) for an END outside of any container"""
    root = ("", [])
    stack = [root]
    for t in seq:
        if t.upper().startswith("END:") and len(stack) == 1:
            return ("skip",)
        if not step(stack, t):
            return ("reject",)
    if len(stack) != 1:
        return ("reject",)
    return ("ok", freeze(root[1]))


def freeze(items):
    return tuple(i if isinstance(i, str) else (i[0].upper(), freeze(i[1])) for i in items)


def view(items):
    out = []
    for i in items:
        if isinstance(i, Container):
            out.append((i.name, view(i)))
        else:
            out.append(i.name + "".join(f";{k}={','.join(v)}" for k, v in i.params.items()) + ":" + i.value)
    return tuple(out)


def trees(n):
    """all ordered forests with n nodes; leaves are either a property or an empty container"""
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):  # size of first tree
        for kids in trees(first - 1):
            for rest in trees(n - first):
                yield (("B" if len(kids) % 2 else "A", kids),) + rest
                if first == 1:
                    yield ("P:1",) + rest


def build(forest, line=ContentLine("P", {}, "1")):
    out = []
    for t in forest:
        if isinstance(t, str):
            out.append(line.clone())
        else:
            out.append(Container(t[0], build(t[1], line)))
    return out


def one(seq, rep):
    want = ref_tree(seq)
    if want[0] == "skip":
        rep.outcome("stray END")
        return
    text = "\r\n".join(seq)
    rep.state((tuple(seq), want))
    sources = [
        lambda: string_to_containers(text),
        lambda: Parser.lines_to_containers(list(seq)),
        lambda: Parser.contentlines_to_containers([ContentLineParser().parse(l) for l in seq]),
    ]
    for src in sources:
        try:
            got = ("ok", view(list(src())))
        except ParseError:
            got = ("reject",)
        rep.step()
        rep.outcome(want[0])
        if not rep.expect(got == want, lambda: f"{seq!r} is read as {got!r} instead of {want!r}"):
            return
    if want[0] == "ok":
        items = list(string_to_containers(text))
        text2 = "".join(
            i.serialize(newline=True) if isinstance(i, Container) else i.serialize() + "\r\n" for i in items
        )
        again = list(string_to_containers(text2))
        rep.step()
        rep.expect(again == items and view(again) == want[1], lambda: f"{seq!r} changes when written and read: {text2!r}")
    rep.trace()


def tree_roundtrip(forest, rep):
    root = Container("ROOT", build(forest))
    want = view([root])
    rep.state(want)
    for w in (75, 0, 10, 2, None):
        for nl in (False, True):
            if w is None:
                txt = root.serialize(newline=nl, wrap=None)
            else:
                with contentline_set_wrap(w):
                    txt = root.serialize(newline=nl)
                    rep.expect("".join(root.serialize_iter(newline=nl)) == txt, "serialize_iter differs")
            got = string_to_container(txt)
            rep.step(2)
            if not rep.expect(
                got == root and view([got]) == want, lambda: f"{want!r} written as {txt!r} is read as {view([got])!r}"
            ):
                return
    # every property is wrapped as it is on its own, wherever it is
    line = ContentLine("P", {"X": ["y"]}, "long value " * 12)
    root = Container("ROOT", build(forest, line))
    for w in (75, 20, None):
        if w is None:
            txt, alone = root.serialize(newline=True, wrap=None), line.serialize(newline=True, wrap=None)
        else:
            with contentline_set_wrap(w):
                txt, alone = root.serialize(newline=True), "".join(line.serialize_iter(newline=True))
        rep.step()
        want = ref_text([("ROOT", forest)], alone)
        rep.expect(txt == want, lambda: f"{forest!r} with long lines is written as {txt!r} instead of {want!r} at width {w}")
    rep.trace()


def ref_text(forest, line):
    return "".join(line if isinstance(t, str) else f"BEGIN:{t[0]}\r\n{ref_text(t[1], line)}END:{t[0]}\r\n" for t in forest)


def run_case(case, rep):
    kind = case[0]
    if kind == "seq":
        pre = [TOK[i] for i in case[1]]
        for n in range(case[2] + 1):
            for suf in itertools.product(TOK, repeat=n):
                one(pre + list(suf), rep)
    elif kind == "names":
        pre = [NAMETOK[i] for i in case[1]]
        for n in range(case[2] + 1):
            for suf in itertools.product(NAMETOK, repeat=n):
                one(pre + list(suf), rep)
    elif kind == "variants":
        for a, b in itertools.product(VARIANTS, repeat=2):
            for seq in (["BEGIN:" + a, "END:" + b], ["BEGIN:" + a, "P:1", "end:" + b], ["BEGIN:B", "BEGIN:" + a, "END:" + b, "END:B"], ["BEGIN:" + a, "BEGIN:" + b, "END:" + b, "END:" + a], ["BEGIN:" + a, "BEGIN:" + b, "END:" + a, "END:" + b]):
                one(seq, rep)
    elif kind == "tree":
        for i, f in enumerate(trees(case[1])):
            if case[2] <= i < case[2] + 50:
                tree_roundtrip(f, rep)
    elif kind == "deep":
        f = ("P:1",)
        for i in range(case[1]):
            f = ("P:1", ("AB"[i % 2], f), "P:1")
        tree_roundtrip(f, rep)
        seq = ["BEGIN:A"] * case[1] + ["P:1"] + ["END:A"] * case[1]
        one(seq, rep)
        one(seq[:-1], rep)
        one(seq[1:-2] + ["END:B"], rep)
    elif kind == "wide":
        f = tuple(("A", ("P:1",)) if i % 3 else "P:1" for i in range(case[1]))
        tree_roundtrip(f, rep)
        one(["BEGIN:A", "P:1", "END:A"] * case[1], rep)

"""C01: content lines survive writing and reading, whatever they contain and however they are wrapped."""
import itertools
import re

from ics.contentline import ContentLine, Parser, ParseError, QuotedParamValue, string_to_containers
from ics.contentline.container import contentline_set_wrap

PROPERTY = "C01"
BOUNDS = {
    "quick": "all lines with <=2 params x <=2 values over the listed alphabets, every pair of ASCII characters and every triple of 14 structural ones in param values and values, every code point below U+2100 in value and param, "
    "all value lengths 0..170 x 7 shapes x 9 widths, lengths around powers of 2 and 10 up to 100000 of values, param values, numbers of params and values, every physical line of <=6 symbols over 7 structural symbols",
    "thorough": "as quick with <=3 params/values, every non-surrogate BMP code point, lengths 0..400, widths 2..90, physical lines of <=7 symbols",
}
ASSUMPTIONS = [
    "wrap widths are at least 2; names are non-empty; params have at least one value; values contain no CR/LF (and param values no CR)",
]

PV = ["a", "", "A b", "x:y", "x;y", "x,y", 'q"q', "^", "^n", "a\nb", "^'^^", "\xfc\u20ac\U0001f600", "\t", " l", "t ", "=", "-" * 40 + " " + "z" * 60]
PV_SMALL = ["a", "", "x:y", 'q"', "^", "\n", ","]
VALUES = ["v", "", " ", " lead", "trail ", "a;b:c,d", '"', '"q"', "=", "\\", "\\n", "\t", "\x85\u2028\x0b\x0c\x1c", "^n", "x" * 80,
          ("word " * 40), " " * 120, "-" * 100, "\u20ac" * 100, "a\tb" * 40, "END:X", "BEGIN:Y"]
NAMES = ["A", "X-LONG-NAME-0123456789"]
WIDTHS = [75, None, 2, 3, 10, 40, 74, 76, 0]


def value_shape(kind, n):
    if kind == 0:
        return "x" * n
    if kind == 1:
        return ("ab " * n)[:n]
    if kind == 2:
        return ("abcdefg-" * n)[:n]
    if kind == 3:
        return " " * n
    if kind == 4:
        return "x" * (n // 2) + " " * (n - n // 2)
    if kind == 5:
        return ("\u20ac\U0001f600 " * n)[:n]
    if kind == 6:
        return ("\t," * n)[:n]


def cases(tier):
    th = tier == "thorough"
    # 1. lines with params, all widths
    for name in NAMES:
        for v in range(len(VALUES)):
            yield ["line", name, [], v]
            for p in range(len(PV)):
                for q in (0, 1):
                    yield ["line", name, [["P", [[p, q]]]], v]
    k = range(len(PV_SMALL))
    for n in (2, 3) if th else (2,):
        for combo in itertools.product(k, repeat=n):
            for qs in itertools.product((0, 1), repeat=n):
                ps = [[PV.index(PV_SMALL[c]) if PV_SMALL[c] in PV else -c - 1, q] for c, q in zip(combo, qs)]
                yield ["line", "A", [["P", ps]], 0]  # n values in one param
                yield ["line", "A", [["P%d" % i, [x]] for i, x in enumerate(ps)], 5]  # n params
                if n == 2:
                    yield ["line", "A", [["x-lower", [ps[0]]], ["P", ps]], 0]
    yield ["line", "A", [["P%d" % i, [[i, 0], [i, 1]]] for i in range(len(PV))], 5]
    # 2. every code point
    top = 0x10000 if th else 0x2100
    for start in range(0, top, 64):
        yield ["cp", start, 64]
    for start in (0x1F600, 0x10FFC0, 0x20000):
        yield ["cp", start, 64]
    # every pair of ASCII characters, every triple of structural ones
    for c in range(9, 127):
        if c == 9 or c >= 32:
            yield ["pair", chr(c)]
    for a, b in itertools.product(TRI, repeat=2):
        yield ["tri", a + b, 2 if th else 1]
    # 3. lengths against widths
    for n in range(0, 400 if th else 170):
        yield ["len", n, th]
    for n in (500, 997, 998, 999, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 10000, 16384, 32768, 65535, 65536, 65537, 70000, 100000) + ((200000, 1 << 18, 1 << 20) if th else ()):
        yield ["long", n]
    # 4. reading arbitrary physical lines
    for pre in itertools.product(ALPH, repeat=2):
        yield ["read", "".join(pre), 5 if th else 4]


TRI = ',;:"^=\\\t \nnA-\''
ALPH = 'A;:=,"^'


def mk(case):
    _, name, params, v = case
    ps = {}
    for pname, vals in params:
        out = []
        for idx, q in vals:
            txt = PV[idx] if idx >= 0 else PV_SMALL[-idx - 1]
            out.append(QuotedParamValue(txt) if q else txt)
        ps[pname] = out
    return ContentLine(name, ps, VALUES[v])


def view(cl):
    return (cl.name, [(k, [str(x) for x in vs]) for k, vs in cl.params.items()], cl.value)


def roundtrip(cl, rep, widths, newlines=(False, True)):
    want = view(cl)
    rep.state(want)
    unwrapped = cl.serialize(wrap=None)
    for w in widths:
        for nl in newlines:
            if w is None:
                text = cl.serialize(newline=nl, wrap=None)
            else:
                with contentline_set_wrap(w):
                    text = cl.serialize(newline=nl)
                    it = "".join(cl.serialize_iter(newline=nl))
                phys = text.split("\r\n")
                if not nl:
                    rep.expect(it == text, lambda: f"serialize {text!r} and serialize_iter {it!r} differ")
                    joined = phys[0] + "".join(p[1:] for p in phys[1:])
                    rep.expect(
                        all(p[:1] in " " for p in phys[1:]) and joined == unwrapped,
                        lambda: f"wrapping at {w} changed the line: {phys!r} instead of {unwrapped!r}",
                    )
                if w > 0:
                    bad = [p for p in it.split("\r\n") if len(p) > w]
                    rep.expect(not bad, lambda: f"physical line longer than {w}: {bad[0]!r}")
            got = list(string_to_containers(text))
            rep.step(2)
            ok = len(got) == 1 and isinstance(got[0], ContentLine) and view(got[0]) == want and got[0] == cl
            if not rep.expect(ok, lambda: f"{want!r} written as {text!r} is read as {got!r}"):
                return
    rep.trace()


def strings(s, rep):
    """s as param value between other params, as param value in a list and as value"""
    v = s.replace("\n", "n")
    roundtrip(ContentLine("N", {"P": [s], "Q": ["q", "a" + s + "b", s], "R": ["r"]}, v + "a" + v), rep, (75, None, 4), (False,))


NAME = "[A-Za-z0-9-]+"
PVAL = '(?:"[^"]*"|[^",:;]+)'  # an empty unquoted value is not accepted by the parser
RFC_LINE = re.compile(f"({NAME})((?:;{NAME}={PVAL}(?:,{PVAL})*)*):(.*)", re.S)


class Malformed(Exception):
    pass


def ref_unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "^":
            nxt = s[i + 1 : i + 2]
            if nxt not in ("n", "^", "'"):
                raise Malformed()
            out.append({"n": "\n", "^": "^", "'": '"'}[nxt])
            i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def ref_read(s):
    m = RFC_LINE.fullmatch(s)
    if not m:
        return None
    params = {}
    for pm in re.finditer(f";({NAME})=({PVAL}(?:,{PVAL})*)", m.group(2)):
        params[pm.group(1)] = [ref_unescape(v[1:-1] if v[0] == '"' else v) for v in re.findall(PVAL, pm.group(2))]
    return (m.group(1).upper(), list(params.items()), m.group(3))


def read(txt, rep):
    rep.state(txt)
    try:
        want = ref_read(txt)
        bad = False
    except Malformed:
        want, bad = None, True
    try:
        got = list(Parser.lines_to_contentlines([txt]))
    except ParseError:
        rep.step()
        rep.outcome("rejected")
        rep.expect(want is None, lambda: f"valid line {txt!r} was rejected")
        return
    rep.step()
    rep.expect(not bad, lambda: f"line {txt!r} with invalid escapes was accepted as {got!r}")
    if want is not None:
        rep.outcome("valid")
        rep.expect(view(got[0]) == want, lambda: f"{txt!r} is read as {view(got[0])!r} instead of {want!r}")
    else:
        rep.outcome("lenient")
    again = list(string_to_containers(got[0].serialize()))
    rep.step()
    rep.expect(again == got, lambda: f"{txt!r} is read as {got!r}, but when written again as {again!r}")


def run_case(case, rep):
    kind = case[0]
    if kind == "line":
        roundtrip(mk(case), rep, WIDTHS)
    elif kind == "cp":
        for cp in range(case[1], case[1] + case[2]):
            c = chr(cp)
            if cp == 13 or 0xD800 <= cp < 0xE000:
                continue
            for pv in (c, "a" + c, c + "b" * 80):
                roundtrip(ContentLine("N", {"P": [pv, "z" + c + "z"], "Q": [QuotedParamValue(pv)]}, "v"), rep, (75, None), (False,))
            if cp != 10:
                for v in (c, "a" + c + "b", "x" * 73 + c + "y", c * 90):
                    roundtrip(ContentLine("N", {}, v), rep, (75, None), (False,))
    elif kind == "pair":
        for c in ["\t", "\n"] + [chr(c) for c in range(32, 127)]:
            strings(case[1] + c, rep)
    elif kind == "tri":
        for suf in itertools.product(TRI, repeat=case[2]):
            strings(case[1] + "".join(suf), rep)
    elif kind == "len":
        n = case[1]
        widths = list(range(2, 90)) if case[2] else [2, 3, 5, 20, 73, 74, 75, 76, 77]
        for shape in range(7):
            roundtrip(ContentLine("NAME", {}, value_shape(shape, n)), rep, widths)
        roundtrip(ContentLine("N", {"P": ["p" * n, "q;" * (n // 2)]}, "v"), rep, widths)
    elif kind == "long":
        n = case[1]
        for shape in range(7):
            roundtrip(ContentLine("NAME", {}, value_shape(shape, n)), rep, (75, None, 0, 1000), (False,))
        roundtrip(ContentLine("N", {"P": ["p" * n, "q;" * (n // 2)], "Q": [str(i) for i in range(n // 8)]}, "v"), rep, (75, None), (False,))
        roundtrip(ContentLine("N" * n, {"Q%d" % i: ["v"] for i in range(n // 8)}, "v"), rep, (75, None), (False,))
    elif kind == "read":
        for n in range(case[2] + 1):
            for suf in itertools.product(ALPH, repeat=n):
                read(case[1] + "".join(suf), rep)
        rep.trace()

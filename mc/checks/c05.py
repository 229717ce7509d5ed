"""C05: TEXT escaping is lossless, one value per list item, and never leaks separators or newlines."""
import itertools

from ics.valuetype.text import TextConverter

PROPERTY = "C05"
BOUNDS = {
    "quick": "every string of <=5 symbols over 10 structural symbols, every code point alone and in context, every list of <=3 values of <=2 symbols "
    "over 5 symbols (incl. empty values), every serialized input of <=5 symbols",
    "thorough": "strings/inputs of <=6 symbols and lists of <=4 values",
}
ALPH = ["\\", ";", ",", "\n", "\r", "n", "N", "a", '"', ":"]
RAW = ["\\", ";", ",", "n", "N", "r", "a", "\n"]
SMALL = ["\\", ",", ";", "n", "\n"]


def ref_unescape(s):
    out, i = [], 0
    table = {"\\": "\\", ";": ";", ",": ",", "n": "\n", "N": "\n", "r": "\r", "R": "\r"}
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1 : i + 2] not in table or i + 1 >= len(s):
                return None
            out.append(table[s[i + 1]])
            i += 2
        elif s[i] in ";,\n\r":
            return None
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def ref_split(s):
    """split at unescaped commas; None if the text ends within an escape sequence"""
    out, cur, i = [], "", 0
    while i < len(s):
        if s[i] == "\\":
            if i + 1 >= len(s):
                return None
            cur += s[i : i + 2]
            i += 2
        elif s[i] == ",":
            out.append(cur)
            cur = ""
            i += 1
        else:
            cur += s[i]
            i += 1
    return out + [cur]


def cases(tier):
    th = tier == "thorough"
    for pre in itertools.product(ALPH, repeat=2):
        yield ["str", "".join(pre), 4 if th else 3]
    for start in range(0, 0x10000, 1024):
        yield ["cp", start, 1024]
    yield ["cp", 0x1F600, 128]
    yield ["cp", 0x10FF80, 128]
    for pre in itertools.product(RAW, repeat=2):
        yield ["raw", "".join(pre), 4 if th else 3]
    vals = small_values()
    for i in range(len(vals)):
        yield ["list", i, 4 if th else 3]
    for n in (2, 10, 100, 1000):
        yield ["long", n]


def small_values():
    return ["".join(c) for n in range(3) for c in itertools.product(SMALL, repeat=n)]


def check_str(s, rep):
    rep.state(s)
    e = TextConverter.serialize(s)
    rep.step(2)
    ok = rep.expect(TextConverter.parse(e) == s, lambda: f"{s!r} is written as {e!r} and read as {TextConverter.parse(e)!r}")
    ok &= rep.expect(not set(e) & set("\r\n"), lambda: f"raw newline in {e!r}")
    ok &= rep.expect(ref_unescape(e) == s, lambda: f"{e!r} is no valid TEXT representation of {s!r}")
    ok &= rep.expect(list(TextConverter.split_value_list(e)) == [e], lambda: f"{e!r} isn't a single list item")
    rep.trace()
    return ok


def run_case(case, rep):
    kind = case[0]
    if kind == "str":
        for n in range(case[2] + 1):
            for suf in itertools.product(ALPH, repeat=n):
                check_str(case[1] + "".join(suf), rep)
        if case[1] == "\\\\":
            for c in ["", *ALPH]:
                check_str(c, rep)
    elif kind == "cp":
        for cp in range(case[1], min(case[1] + case[2], 0x110000)):
            c = chr(cp)
            if not check_str(c, rep):
                return
            check_str("a" + c + ",", rep)
            check_str("\\" + c, rep)
    elif kind == "raw":
        for n in range(case[2] + 1):
            for suf in itertools.product(RAW, repeat=n):
                s = case[1] + "".join(suf)
                rep.state(("raw", s))
                want = ref_unescape(s)
                try:
                    got = TextConverter.parse(s)
                except ValueError:
                    got = None
                rep.step()
                rep.outcome("rejected" if want is None else "accepted")
                rep.expect(got == want, lambda: f"TEXT {s!r} is read as {got!r} instead of {want!r}")
                ws = ref_split(s)
                if ws is not None and "\n" not in s:
                    gs = list(TextConverter.split_value_list(s))
                    rep.step()
                    rep.expect(gs == ws, lambda: f"list {s!r} is split into {gs!r} instead of {ws!r}")
                rep.trace()
    elif kind == "list":
        vals = small_values()
        pool = vals if case[2] == 3 else [v for v in vals if len(v) < 2 or v[0] in "\\,"]
        for n in range(case[2]):
            for rest in itertools.product(pool, repeat=n):
                lst = [vals[case[1]], *rest]
                rep.state(tuple(lst))
                txt = TextConverter.join_value_list(map(TextConverter.serialize, lst))
                got = [TextConverter.parse(v) for v in TextConverter.split_value_list(txt)]
                rep.step(2)
                if not rep.expect(got == lst, lambda: f"list {lst!r} is written as {txt!r} and read as {got!r}"):
                    return
                rep.trace()
    elif kind == "long":
        n = case[1]
        for c in ALPH:
            check_str(c * n, rep)
            lst = [c * (i % 3) for i in range(n)]
            txt = TextConverter.join_value_list(map(TextConverter.serialize, lst))
            got = [TextConverter.parse(v) for v in TextConverter.split_value_list(txt)]
            rep.step(2)
            rep.expect(got == lst, lambda: f"list of {n} x {c!r} changes")
            rep.trace()

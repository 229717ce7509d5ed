"""C02: the physical layout of a file (folds, newline flavour, blank lines, chunking) never changes its content."""
import io
import itertools
import re

from ics import Calendar
from ics.contentline import ContentLine, ParseError, lines_to_containers, string_to_containers

PROPERTY = "C02"
BOUNDS = {
    "quick": "every fold pattern (position subset x space/tab) of 4 short logical lines, x 3 newline flavours per line x blank-line placements of "
    "documents with <=3 physical lines mixing all flavours; every text of <=7 symbols over {X : space tab CR LF} against a character-level reference reader; "
    "every text of <=5 symbols over {X : space LF s} for 10 special symbols s; calendars with 125 combinations of folded and blank lines supplied in 23 ways; "
    "folds at every position of long lines; 7 ways of supplying the lines",
    "thorough": "as quick with texts of <=9 symbols and 3-line documents with up to two folds each",
}
ASSUMPTIONS = ["blank physical lines carry no content and may appear anywhere, also between the parts of a folded line"]

NLS = ["\r\n", "\n", "\r"]
LOGICAL = ["A:b c", "AB;C=d:e", "A: \t x", "X:\x85\u2028\x0b\x0c\x1e"]
ALPH = "X: \t\r\n"
SPECIAL = "\x0b\x0c\x1c\x1e\x85\xa0\u2028\u2029\ufeff\0"  # taken for line ends or white space by some Python functions, but ordinary symbols here
CAL_PARTS = [["X-A:1"], ["X-B:2", " 3"], ["", "X-C:4", "", "\t5", "  6"], ["X-D:", " "], ["X-E:\x85\u2028\x0b", "", " \x0c"]]


def ref_physical(text):
    """split at CRLF, LF and CR"""
    out, cur, i = [], "", 0
    while i < len(text):
        if text[i] in "\r\n":
            out.append(cur)
            cur = ""
            if text[i] == "\r" and text[i + 1 : i + 2] == "\n":
                i += 1
        else:
            cur += text[i]
        i += 1
    out.append(cur)
    return out


def ref_logical(phys):
    """[(line_nr, text)] or None if the first line is a continuation"""
    out = []
    for nr, p in enumerate(phys):
        if p == "":
            continue
        if p[0] in " \t":
            if not out:
                return None
            out[-1][1] += p[1:]
        else:
            out.append([nr, p])
    return [tuple(x) for x in out]


def ref_line(txt):
    name, sep, value = txt.partition(":")
    return (name.upper(), value) if sep else None


def cases(tier):
    th = tier == "thorough"
    for li, line in enumerate(LOGICAL):
        n = len(line)
        for mask in range(3 ** (n if n < 7 else 6) if th else 2 ** n):
            yield ["fold", li, mask, 3 if th else 2]
    yield ["long"]
    n = 3
    for parts in itertools.product(range(5), repeat=n):
        yield ["doc", list(parts), th]
    for sp in range(len(SPECIAL)):
        for pre in itertools.product(range(5), repeat=2):
            yield ["special", sp, list(pre), 4 if th else 3]
    for pre in itertools.product(range(len(CAL_PARTS)), repeat=2):
        yield ["cal", list(pre)]
    for pre in itertools.product(range(6), repeat=3):
        yield ["text", list(pre), 6 if th else 4]


def check(text, want, rep):
    """want: [(nr, logical text)] or None for malformed; compares all ways of supplying the text"""
    rep.state(text)
    expect = None
    if want is not None:
        expect = []
        for nr, t in want:
            if ";" in t.split(":")[0]:  # the one line with a param
                m = re.fullmatch("AB;C=d:(.*)", t, re.S)
                expect.append(("AB", {"C": ["d"]}, m.group(1), nr) if m else None)
            else:
                r = ref_line(t)
                expect.append((r[0], {}, r[1], nr) if r else None)
        if any(e is None for e in expect) or any(e[0] in ("BEGIN", "END") for e in expect):
            expect = None
    phys = ref_physical(text)
    sources = [
        ("text", lambda: string_to_containers(text)),
        ("list of lines", lambda: lines_to_containers(list(phys))),
        ("iterator of lines with CRLF", lambda: lines_to_containers(p + "\r\n" for p in phys)),
        ("list of lines with LF", lambda: lines_to_containers([p + "\n" for p in phys])),
        ("tuple of lines with CR", lambda: lines_to_containers(tuple(p + "\r" for p in phys))),
        ("file", lambda: lines_to_containers(io.StringIO("\n".join(phys) + "\n", newline="\n"))),
        ("dos file", lambda: lines_to_containers(io.StringIO("\r\n".join(phys), newline="\r\n"))),
    ]
    for how, src in sources:
        try:
            got = [(c.name, dict(c.params), c.value, c.line_nr) for c in src()]
        except ParseError:
            got = None
        rep.step()
        rep.outcome("rejected" if expect is None else f"{len(expect)} lines")
        if not rep.expect(got == expect, lambda: f"{text!r} supplied as {how} is read as {got!r} instead of {expect!r}"):
            break
    rep.trace()


def run_calendar(parts, rep):
    """a calendar reads the same content and line numbers, however it is supplied"""
    a, b = ([*CAL_PARTS[i]] for i in parts)
    for third in CAL_PARTS:
        phys = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:p", *a, "BEGIN:VEVENT", "", "UID:u", "DTSTAMP:20200101T000000Z", *b, "END:VEVENT", *third, "END:VCA", " LENDAR"]
        logical = ref_logical(phys)
        want, in_event = [[], []], 0
        for nr, t in logical:
            if t in ("BEGIN:VEVENT", "END:VEVENT"):
                in_event = 1 - in_event
            elif t.startswith("X-"):
                want[in_event].append((*ref_line(t), nr))
        sources = [(repr(nl), lambda nl=nl: Calendar(nl.join(phys))) for nl in NLS]
        sources += [(repr(nl) + " at the end, too", lambda nl=nl: Calendar(nl.join(phys) + nl)) for nl in NLS]
        sources += [("parse_multiple " + repr(nl), lambda nl=nl: one(Calendar.parse_multiple(nl.join(phys)))) for nl in NLS]
        sources += [("keyword", lambda: Calendar(imports="\n".join(phys))), ("container", lambda: Calendar(one(lines_to_containers(phys)))), ("from_container", lambda: Calendar.from_container(one(lines_to_containers(phys))))]
        for nl in NLS + [""]:
            sources.append((f"list of lines with {nl!r}", lambda nl=nl: Calendar([p + nl for p in phys])))
            sources.append((f"iterator of lines with {nl!r}", lambda nl=nl: Calendar(p + nl for p in phys)))
            if nl:
                sources.append((f"file with {nl!r}", lambda nl=nl: Calendar(io.StringIO(nl.join(phys), newline=nl))))
        for how, src in sources:
            rep.step()
            c = src()
            got = [[(l.name, l.value, l.line_nr) for l in x.extra if l.name.startswith("X-")] for x in (c, one(c.events))]
            rep.expect(got == want, lambda: f"calendar {phys!r} supplied as {how} has {got!r} instead of {want!r}", "calendar")
        rep.state(("cal", tuple(phys)))
        for i in range(len(phys)):
            for nl in NLS:
                bad = phys[:i] + [phys[i] + nl + "X-Z:1"] + phys[i + 1 :]
                rep.step()
                try:
                    Calendar(bad)
                    rep.fail(f"unsplit lines {bad!r} were accepted", "calendar-unsplit")
                except ParseError:
                    rep.outcome("rejected")
    rep.trace()


def one(xs):
    xs = list(xs)
    if len(xs) != 1:
        raise AssertionError(f"{len(xs)} instead of one")
    return xs[0]


def run_case(case, rep):
    kind = case[0]
    if kind == "fold":
        line, mask, base = LOGICAL[case[1]], case[2], case[3]
        folds = []
        for pos in range(1, len(line) + 1):
            mask, d = divmod(mask, base)
            if d:
                folds.append((pos, " " if d == 1 else "\t"))
        variants = [folds, [(p, "\t" if (p % 2) else " ") for p, _ in folds]]
        for fv in variants:
            for nl in NLS:
                text, last = "", 0
                for pos, ch in fv:
                    text += line[last:pos] + nl + ch
                    last = pos
                text += line[last:]
                for pre, post in (("", ""), ("", nl), (nl, nl + nl), ("A:1\n", "\r\nB:2")):
                    doc = pre + text + post
                    want = ref_logical(ref_physical(doc))
                    if pre.startswith("A"):
                        rep.expect([t for _, t in want] == ["A:1", line, "B:2"], "reference model broken", key="ref")
                    else:
                        rep.expect([t for _, t in want] == [line], "reference model broken", key="ref")
                    check(doc, want, rep)
    elif kind == "long":
        line = "NAME:" + "".join(chr(97 + i % 26) if i % 7 else " " for i in range(160))
        for p1 in range(1, len(line), 3):
            for p2 in (None, p1 + 1, p1 + 40, p1 + 75):
                text = line[:p1] + "\r\n " + (line[p1:] if p2 is None else line[p1:p2] + "\n\t" + line[p2:])
                rep.expect(ref_logical(ref_physical(text)) == [(0, line)], "reference model broken", key="ref")
                check(text, [(0, line)], rep)
        each = line[0] + "".join("\r\n " + c for c in line[1:])
        check(each, [(0, line)], rep)
        many = "".join(f"L{i}:{i}\r\n {i}\n\n" for i in range(300))
        check(many, ref_logical(ref_physical(many)), rep)
    elif kind == "doc":
        parts = [["A:1"], ["B:2", " 3"], ["", "C:4", "\t", " 5"], ["D:6", "", " 7", ""], ["E: ", "  ", " \t"]]
        phys = [p for i in case[1] for p in parts[i]]
        if len(phys) > (9 if case[2] else 6):
            nlcombos = itertools.product(NLS, repeat=3)
            nlcombos = [(c * len(phys))[: len(phys)] for c in nlcombos]
        else:
            nlcombos = itertools.product(NLS, repeat=len(phys))
        for nls in nlcombos:
            text = "".join(p + nl for p, nl in zip(phys, nls))
            check(text, ref_logical(ref_physical(text)), rep)
    elif kind == "cal":
        run_calendar(case[1], rep)
    elif kind == "special":
        alph = "X: \n" + SPECIAL[case[1]]
        pre = "".join(alph[i] for i in case[2])
        for n in range(case[3] + 1):
            for suf in itertools.product(alph, repeat=n):
                text = pre + "".join(suf)
                check(text, ref_logical(ref_physical(text)), rep)
    elif kind == "text":
        pre = "".join(ALPH[i] for i in case[1])
        for n in range(case[2] + 1):
            for suf in itertools.product(ALPH, repeat=n):
                text = pre + "".join(suf)
                want = ref_logical(ref_physical(text))
                check(text, want, rep)
        if case[1] == [0, 0, 0]:  # lists whose items still contain newlines are rejected
            for bad in (["A:1\nB:2"], ["A:1", "B:\r\nC:3"], ["A:b\rc\r\n"]):
                try:
                    got = list(lines_to_containers(bad))
                    rep.fail(f"unsplit lines {bad!r} were accepted as {got!r}")
                except ParseError:
                    rep.step()
            for txt in ("", "\r\n", "\n\n\r"):
                rep.expect(list(string_to_containers(txt)) == [], f"{txt!r} yields content")

"""C28: every text is either read or rejected with a ValueError; what is read can be written, is read again as an equal calendar, and a small change of the text has an effect on what it belongs to only."""
import itertools
import re
from datetime import date, datetime, timezone
from urllib.parse import urlparse

from ics import Calendar
from ics.contentline import ParseError
from ics.event import deterministic_event_data
from mc import ref
from mc.docs import DOC, UNKNOWN_DOC

PROPERTY = "C28"
BOUNDS = {
    "quick": "each of 100 content lines with everything known to the library, in a minimal calendar: all texts at edit distance 1 (delete, insert and replace by 24 structural symbols and line breaks, swap, case) "
    "and all values of <=2 of 14 symbols for each property, each number and word replaced by 30 other ones, the values of all other properties, times repeated or skipped by DST, ~70 params added; two full calendars of ~90 lines: all deletions, duplications and swaps of lines, duplications and moves of blocks, all truncations, all splices of the two",
    "thorough": "edits of the lines at distance 2 (5 symbols, second edit at the first one or next to it), values of <=3 symbols, moves of lines, pairs of line deletions and duplications",
}
ASSUMPTIONS = ["AssertionErrors for properties where a component is expected or vice versa count as rejections", "times in zones only dateutil knows can be read, but not be written", "COMPLETED and TRIGGER aren't given in a zone at a time repeated by DST (they have to be in UTC)"]
CASE_TIMEOUT = 600
SYMS = [":", ";", ",", "=", '"', "\\", "^", "\r\n", "\r\n ", "\n", "\r", " ", "\t", "0", "9", "-", "+", "T", "Z", "P", "X", "\u20ac", "\x00", "\x0b"]
SYMS2 = [":", ";", ",", '"', "\\"]
VALSYMS = ["0", "1", "-", "P", "T", "D", "Z", ":", ",", ";", "\\", "A", " ", "="]
STD = "BEGIN:STANDARD\nTZOFFSETFROM:+0100\nTZOFFSETTO:+0100\nDTSTART:19700101T000000\nEND:STANDARD"
REQ = {
    "VCALENDAR": ["VERSION:2.0", "PRODID:p"], "VTIMEZONE": ["TZID:My/Zone", STD], "STANDARD": ["TZOFFSETFROM:+0100", "TZOFFSETTO:+0100", "DTSTART:20191027T030000"], "DAYLIGHT": ["TZOFFSETFROM:+0100", "TZOFFSETTO:+0200", "DTSTART:20190331T020000"],
    "VEVENT": ["UID:u", "DTSTAMP:20200101T000000Z"], "VTODO": ["UID:u", "DTSTAMP:20200101T000000Z"], "VALARM": ["TRIGGER:PT0S"],
}
REJECT = (ValueError, AssertionError, ParseError)


def name_of(l):
    return l.replace(";", ":").split(":")[0].upper()


def contexts():
    """[(lines before, line, lines after)] for every content line of the documents"""
    out, seen = [], set()
    for doc in (DOC, UNKNOWN_DOC):
        stack, actions = [], []
        lines = doc.split("\n")
        for i, l in enumerate(lines):
            if l.startswith("BEGIN:"):
                stack.append(l[6:])
                if l == "BEGIN:VALARM":
                    a = next(x for x in lines[i:] if name_of(x) == "ACTION")
                continue
            if l.startswith("END:"):
                stack.pop()
                continue
            path = tuple(stack)
            if (path, l) in seen:
                continue
            seen.add((path, l))
            before, after = [], []
            for depth, comp in enumerate(path):
                before.append("BEGIN:" + comp)
                req = list(REQ.get(comp, []))
                if comp == "VALARM":
                    req.append(a)
                inner = depth == len(path) - 1
                n = name_of(l)
                if inner:
                    if n in ("DTEND", "DURATION") and comp == "VEVENT" or n == "DURATION" and comp == "VTODO":
                        req.append("DTSTART;VALUE=DATE:20200702" if l == "DURATION:P1D" else "DTSTART;TZID=My/Zone:20200701T093000" if "My/" in l else "DTSTART;TZID=Europe/Berlin:20200701T080000" if "TZID" in l else "DTSTART:20200701T080000")
                    req = [r for r in req if name_of(r) != n]
                if comp == "VCALENDAR" and ("My/Zone" in l):
                    req.append("BEGIN:VTIMEZONE\nTZID:My/Zone\n" + STD + "\nEND:VTIMEZONE") if path[1:2] != ("VTIMEZONE",) else None
                before += "\n".join(req).split("\n") if req else []
            after = ["END:" + c for c in reversed(path)]
            if "VTIMEZONE" in path:
                after.insert(-1, "BEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20200101T000000Z\r\nDTSTART;TZID=My/Zone:20200701T100000\r\nEND:VEVENT")
            out.append(("\r\n".join(before) + "\r\n", l, "\r\n" + "\r\n".join(after) + "\r\n"))
    return out


CTX = contexts()


def edits(l, syms):
    """all texts at edit distance 1, with the position of the edit"""
    for i in range(len(l) + 1):
        for s in syms:
            yield i, l[:i] + s + l[i:]
        if i < len(l):
            yield i, l[:i] + l[i + 1 :]
            for s in syms:
                if s != l[i]:
                    yield i, l[:i] + s + l[i + 1 :]
            if l[i].swapcase() != l[i]:
                yield i, l[:i] + l[i].swapcase() + l[i + 1 :]
            if i + 1 < len(l) and l[i] != l[i + 1]:
                yield i, l[:i] + l[i + 1] + l[i] + l[i + 2 :]
    yield 0, l.lower()
    yield 0, l.upper()


def odd_url(text):
    """URLs which the standard library doesn't reproduce, like http:://x"""
    for l in ref.unfold(re.sub("\r\n?|\n", "\r\n", text)):
        if l.upper().startswith(("URL", "TZURL", "ATTACH", "ORGANIZER", "ATTENDEE")):
            v = l.split(":", 1)[-1]
            for x in (v, v.split(":", 1)[-1], v.split('"')[-1].split(":", 1)[-1]):
                u = urlparse(x)
                if urlparse(u.geturl()) != u:
                    return True
    return False


def lossy(text):
    return odd_url(text) or re.search(r"(?i)(TRIGGER|COMPLETED)[^\r\n]*(%s)" % "|".join(DST), text) is not None or re.search(r"(?i)GEO[^\r\n]*\.\d*[\r\n]*\d{7}|GEO[^\r\n]*[eE]", text.replace("\r\n ", "")) is not None


def flat(text):
    """[(path, line)] of everything outside of timezones"""
    out = []

    def rec(items, path):
        for i in items:
            if isinstance(i, ref.C):
                if i.name != "VTIMEZONE":
                    rec(i.items, path + (i.name,))
            else:
                out.append((path, (i[0], tuple(sorted(i[1])), i[2])))

    rec(ref.parse(text), ())
    return out


def use(cal):
    """everything the library computes from what was read"""
    repr(cal), str(cal)
    times = []
    for e in cal.events + cal.todos:
        t = e.timespan
        times += [t.begin_time, t.get_effective_end()]
        repr(e), str(e), e.duration, e.begin, e.all_day, t.get_effective_duration(), t.has_explicit_end(), t.is_floating()
        for a in e.alarms:
            repr(a), a.action, a.trigger
            times.append(a.trigger if isinstance(a.trigger, datetime) else None)
        for p in getattr(e, "attendees", []):
            for name in ("common_name", "role", "rsvp", "member", "user_type"):
                try:
                    getattr(p, name)
                except ValueError:
                    pass  # malformed parameters are rejected when they are used
    for t in times:
        if isinstance(t, datetime) and 1 < t.year < 9999:
            t.utcoffset(), t.dst(), t.tzname(), t.astimezone(timezone.utc), t.isoformat()
    if all(t is None or 1 < t.year < 9999 for t in times):
        len(list(cal.timeline)), sorted(cal.events), sorted(cal.todos), list(cal.timeline.on(date(2020, 7, 1)))
        [e == f for e in cal.events for f in cal.events + cal.todos]


def judge(text, rep, what):
    """None if rejected, the written text otherwise"""
    rep.step()
    try:
        cal = Calendar(text)
    except REJECT as e:
        rep.outcome(type(e).__name__)
        try:
            again = Calendar(text)
        except REJECT as e2:
            rep.expect(type(e) is type(e2), lambda: f"{what()}: rejected with {e!r}, then with {e2!r}", key="again")
        else:
            rep.fail(f"{what()}: rejected with {e!r}, but accepted a second time", key="again")
        return None
    except Exception as e:
        rep.fail(f"{what()}: reading raises {type(e).__name__}: {str(e)[:300]}", key="exc")
        return None
    rep.outcome("read")
    try:
        use(cal)
    except REJECT as e:
        rep.fail(f"{what()}: read, but using it raises {e!r}", key="unusable")
    except Exception as e:
        rep.fail(f"{what()}: read, but using it raises {e!r}", key="unusable")
    try:
        out = cal.serialize()
    except ValueError as e:
        if "can't produce Timezone" in str(e) or "no vTimezone.ics file" in str(e):
            rep.outcome("dateutil zone")
            return None
        rep.fail(f"{what()}: read, but can't be written: {e!r}", key="unwritable")
        return None
    except Exception as e:
        rep.fail(f"{what()}: read, but can't be written: {e!r}", key="unwritable")
        return None
    try:
        back = Calendar(out)
        out2 = back.serialize()
    except Exception as e:
        rep.fail(f"{what()}: what was written can't be read or written again ({e!r}):\n{out}", key="unreadable")
        return None
    rep.step(3)
    rep.expect(back == cal or lossy(text), lambda: f"{what()}: not equal after writing and reading:\n{out}", key="unequal")
    rep.expect(out2 == out or odd_url(text), lambda: f"{what()}: the text changes when it is written again:\n{out}\n{out2}", key="unstable")
    return out


def base(i, cache={}):
    if i not in cache:
        b, l, a = CTX[i]
        cal = Calendar(b + l + a)
        cache[i] = flat(cal.serialize())
    return cache[i]


def locality(i, l, out, rep):
    """whatever the line is changed to, nothing else changes"""
    b, l0, a = CTX[i]
    names = {name_of(l0)} | {name_of(x) for x in l.replace("\r", "\n").split("\n") if x[:1] not in (" ", "\t")}
    if l[:1] in (" ", "\t") or names & {"BEGIN", "END"} or any(n[:5] == "BEGIN" or n[:3] == "END" for n in names) or "\n" in l or "\r" in l:
        return
    if name_of(l0) == "TZID":
        return
    want = [x for x in base(i) if x[1][0] not in names]
    got = [x for x in flat(out) if x[1][0] not in names]
    # DTSTART & co. share their value type
    rep.expect(got == want, lambda: f"{l0!r} changed to {l!r} has an effect on other lines: {[x for x in got if x not in want]} instead of {[x for x in want if x not in got]}", key="locality")
    rep.step()


def lines_of(d):
    return (DOC if d == 0 else UNKNOWN_DOC).split("\n")


def blocks(lines):
    """[(start, end)] of all components"""
    out, st = [], []
    for i, l in enumerate(lines):
        if l.startswith("BEGIN:"):
            st.append(i)
        elif l.startswith("END:"):
            out.append((st.pop(), i + 1))
    return sorted(out)


def line_edits(lines, i, th):
    n = len(lines)
    yield lines[:i] + lines[i + 1 :]
    for j in range(n + 1):
        yield lines[:j] + [lines[i]] + lines[j:]
        if th and j not in (i, i + 1):
            rest = lines[:i] + lines[i + 1 :]
            k = j if j < i else j - 1
            yield rest[:k] + [lines[i]] + rest[k:]
    for j in range(i + 1, n):
        x = list(lines)
        x[i], x[j] = x[j], x[i]
        yield x
    if th:
        for j in range(i + 1, n):
            x = [l for k, l in enumerate(lines) if k not in (i, j)]
            yield x
            yield lines[:i] + lines[i + 1 : j] + [lines[j]] + lines[j:]
            yield lines[:i] + [lines[i]] + lines[i:j] + lines[j + 1 :]


def join(lines):
    return "\r\n".join(lines) + "\r\n"


def cases(tier):
    th = tier == "thorough"
    for i in range(len(CTX)):
        yield ["edit1", i]
    for i in range(len(CTX)):
        yield ["value", i, 3 if th else 2]
    for i in range(len(CTX)):
        yield ["tokens", i]
        yield ["values", i]
        yield ["params", i]
    if th:
        for i in range(len(CTX)):
            for p in range(0, len(CTX[i][1]) + 1, 6):
                yield ["edit2", i, p]
    for d in (0, 1):
        n = len(lines_of(d))
        for i in range(n):
            yield ["lines", d, i, th]
        for i in range(len(blocks(lines_of(d)))):
            yield ["blocks", d, i]
        yield ["truncate", d]
        for i in range(0, n + 1, 4):
            yield ["splice", d, i]


NUMBERS = ["", "0", "00", "000000000000000", *("9" * n for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 19, 20, 25, 310, 5000)), "1" * 8, "\uff11", "\u00b2", "\u0663", "1.5", "1e9", "1e999", "1_0", "0x1", "-1", "+1", " 1", "1 "]
WORDS = ["", "nan", "inf", "-inf", "1e999", "TRUE", "None", "BEGIN", "\ufeff", "\ud800", "\U0010ffff", "\u0130", "\u00df", "\u2028", "\x85", "\x1f", "%s", "{}", "/", "..", "../../../etc/passwd", "x" * 100, "x" * 1000, "\\n", "\\,", "^n", "^'", "^^"]


def tokens(l):
    """each number replaced by other numbers, each word by other words"""
    for m in re.finditer(r"\d+", l):
        for t in NUMBERS:
            yield l[: m.start()] + t + l[m.end() :]
        yield l[: m.start()] + m[0] * 2 + l[m.end() :]
    for m in re.finditer(r"[A-Za-z]+|[^A-Za-z0-9]+", l):
        for t in WORDS:
            yield l[: m.start()] + t + l[m.end() :]
        yield l[: m.start()] + m[0] * 2 + l[m.end() :]


def head_of(l):
    v = ref.line(l)[2]
    return l[: len(l) - len(v)], v


VALUES = list(dict.fromkeys(head_of(l)[1] for _, l, _ in CTX))
# times which are skipped or repeated
DST = ["20200329T023000", "20201025T023000", "20200308T020000", "20201101T013000"]
PARAMS = list(dict.fromkeys(p for _, l, _ in CTX for p in re.findall(r';[A-Za-z-]+=(?:"[^"]*"|[^";:,]*)(?:,(?:"[^"]*"|[^";:,]*))*', head_of(l)[0]))) + [
    ";VALUE=" + v for v in ("TEXT", "DATE", "DATE-TIME", "TIME", "PERIOD", "DURATION", "URI", "CAL-ADDRESS", "BINARY", "BOOLEAN", "INTEGER", "FLOAT", "RECUR", "UTC-OFFSET", "date", "X", "RAWTEXT", "X-GEO", '""', "DATE,TEXT")
] + [";TZID=" + z for z in ("UTC", "Europe/Berlin", "Europe/Berlin,UTC", "My/Zone", "", '"a:b"', "nowhere", "..", "/", "W. Europe Standard Time", "CET", "EST5EDT", "posixrules", "tzlocal()", "UTC+3", "\u20ac")] + [";X=", ";X=1,1", ";X", ";=", ';X="', ";ENCODING=BASE64", ";ENCODING=8BIT;VALUE=BINARY", ";ENCODING=BASE64;VALUE=BINARY", ";__merge_next=TRUE", ";__MERGE_NEXT=FALSE"]


def run_case(case, rep):
    with deterministic_event_data():
        run_case_(case, rep)


def run_case_(case, rep):
    kind = case[0]
    if kind in ("edit1", "edit2", "value", "tokens", "values", "params"):
        i = case[1]
        b, l0, a = CTX[i]
        base(i)
        if kind == "edit1":
            todo = {l: None for _, l in edits(l0, SYMS)}
        elif kind == "tokens":
            todo = dict.fromkeys(tokens(l0))
        elif kind == "values":
            todo = dict.fromkeys(head_of(l0)[0] + v for v in VALUES + DST)
            todo.update(dict.fromkeys(re.split("[;:]", l0)[0] + p + ":" + v for v in DST for p in (";TZID=Europe/Berlin", ";TZID=America/New_York", ";VALUE=DATE-TIME;TZID=Europe/Berlin")))
        elif kind == "params":
            h, v = head_of(l0)
            todo = dict.fromkeys(x for p in PARAMS for x in (h[:-1] + p + ":" + v, re.split("[;:]", h)[0] + p + ":" + v))
        elif kind == "edit2":
            todo = {}
            for p, l in edits(l0, SYMS2):
                if case[2] <= p < case[2] + 6:
                    for q, m in edits(l, SYMS2):
                        if 0 <= q - p <= 1:
                            todo[m] = None
        else:
            head = l0[: len(l0) - len(ref.line(l0)[2])]
            todo = {head + "".join(v): None for n in range(case[2] + 1) for v in itertools.product(VALSYMS, repeat=n)}
        for l in todo:
            out = judge(b + l + a, rep, lambda: f"{l0!r} changed to {l!r}")
            if out is not None:
                locality(i, l, out, rep)
            rep.state((i, l))
        rep.trace(len(todo))
        return
    lines = lines_of(case[1])
    if kind == "lines":
        for x in line_edits(lines, case[2], case[3]):
            judge(join(x), rep, lambda: f"lines moved, duplicated or removed:\n{join(x)}")
            rep.state(x)
            rep.trace()
    elif kind == "blocks":
        bl = blocks(lines)
        s, e = bl[case[2]]
        for j in [k for k in range(len(lines) + 1)]:
            for x in (lines[:j] + lines[s:e] + lines[j:],) + ((lines[:j] + lines[s:e] + lines[j:s] + lines[e:], ) if j < s else (lines[:s] + lines[e:j] + lines[s:e] + lines[j:], ) if j > e else ()):
                judge(join(x), rep, lambda: f"block {s}:{e} moved or copied to {j}:\n{join(x)}")
                rep.state(x)
                rep.trace()
        judge(join(lines[:s] + lines[e:]), rep, lambda: f"block {s}:{e} removed")
        judge(join(lines[:s] + lines[s + 1 : e - 1] + lines[e:]), rep, lambda: f"BEGIN and END of block {s}:{e} removed")
    elif kind == "truncate":
        text = join(lines)
        for n in range(len(text)):
            judge(text[:n], rep, lambda: f"truncated to {n} characters")
            judge(text[n:], rep, lambda: f"first {n} characters missing")
            rep.state((case[1], n))
        rep.trace()
    elif kind == "splice":
        other = lines_of(1 - case[1])
        for k in range(case[2], min(case[2] + 4, len(lines) + 1)):
            for j in range(len(other) + 1):
                x = lines[:k] + other[j:]
                judge(join(x), rep, lambda: f"splice of {k} lines of document {case[1]} and the lines of the other one from {j}:\n{join(x)}")
                rep.state((case[1], k, j))
                rep.trace()

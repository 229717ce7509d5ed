"""C06: durations, UTC offsets and the other simple value types survive writing and reading; malformed ones are rejected."""
import itertools
import re
from datetime import timedelta

import ics

ics.initialize_converters()
from ics import Geo
from ics.valuetype.datetime import DurationConverter, UTCOffsetConverter
from ics.valuetype.generic import BinaryConverter, BooleanConverter, FloatConverter, IntegerConverter, URIConverter
from ics.valuetype.special import GeoConverter

PROPERTY = "C06"
BOUNDS = {
    "quick": "every duration of whole seconds within +-50000 s and day/boundary combinations, every UTC offset of whole minutes within +-24h and of whole "
    "seconds within +-1h, all duration texts of <=5 symbols over 11 symbols and all combinations of components with 12 values, all byte strings of length <=2, "
    "all ints within +-20000, a geo grid, all booleans spellings",
    "thorough": "durations within +-400000 s, every UTC offset of whole seconds, duration texts of <=6 symbols",
}
ASSUMPTIONS = ["durations and offsets are whole seconds; coordinates have at most six decimals; sub-second parts are dropped by the format"]

DALPH = "PTDWHMS10-+"
RFC_DUR = re.compile(r"([+-]?)P(?:(\d+)W|(?:(\d+)D)?(?:T(?=\d)(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?)")


def ref_duration(s):
    """value of RFC 5545 conforming durations, None for anything else"""
    m = RFC_DUR.fullmatch(s)
    if not m or s.lstrip("+-") == "P":
        return None
    sign, w, d, h, mi, sec = m.groups()
    v = timedelta(weeks=int(w or 0), days=int(d or 0), hours=int(h or 0), minutes=int(mi or 0), seconds=int(sec or 0))
    return -v if sign == "-" else v


def cases(tier):
    th = tier == "thorough"
    top = 400000 if th else 50000
    for s in range(0, top, 2500):
        yield ["dur", s, 2500]
    yield ["durdays"]
    for pre in itertools.product(DALPH, repeat=2):
        yield ["durtxt", "".join(pre), 4 if th else 3]
    for sign in ("", "+", "-"):
        yield ["durforms", sign]
    for h in range(24):
        yield ["offset", h, th]
    yield ["offtxt"]
    for b in range(0, 256, 32):
        yield ["bin", b]
    for i in range(-20000, 20000, 5000):
        yield ["int", i]
    yield ["float"]
    yield ["bool"]
    for i in range(-90, 91, 10):
        yield ["geo", i]
    yield ["uri"]


def rt(conv, v, rep, also=None):
    t = conv.serialize(v)
    back = conv.parse(t)
    rep.step(2)
    rep.state((conv.__class__.__name__, repr(v)))
    rep.trace()
    ok = rep.expect(back == v and type(back) == type(v), lambda: f"{v!r} is written as {t!r} and read as {back!r}")
    if also is not None and ok:
        r = also(t)
        ok = rep.expect(r == v, lambda: f"{v!r} is written as {t!r}, which denotes {r!r}")
    return ok


def reject(conv, txt, rep):
    rep.step()
    try:
        got = conv.parse(txt)
    except ValueError:
        rep.outcome("rejected")
        return
    rep.fail(f"{conv}: malformed {txt!r} is read as {got!r}")


def run_case(case, rep):
    kind = case[0]
    if kind == "dur":
        for s in range(case[1], case[1] + case[2]):
            for v in (timedelta(seconds=s), timedelta(seconds=-s)):
                if not rt(DurationConverter, v, rep, ref_duration):
                    return
    elif kind == "durdays":
        for d in [0, 1, 2, 6, 7, 8, 14, 30, 70, 364, 365, 366, 10000, 99999]:
            for s in [0, 1, 59, 60, 61, 3599, 3600, 3601, 7200, 43200, 86399]:
                for sign in (1, -1):
                    rt(DurationConverter, sign * timedelta(days=d, seconds=s), rep, ref_duration)
        for d in range(0, 3000):
            rt(DurationConverter, timedelta(days=d), rep, ref_duration)
            rt(DurationConverter, -timedelta(days=d, hours=1), rep, ref_duration)
    elif kind == "durtxt":
        for n in range(case[2] + 1):
            for suf in itertools.product(DALPH, repeat=n):
                s = case[1] + "".join(suf)
                rep.state(s)
                want = ref_duration(s)
                try:
                    got = DurationConverter.parse(s)
                except ValueError:
                    got = None
                rep.step()
                rep.trace()
                if want is not None:
                    rep.outcome("valid")
                    rep.expect(got == want, lambda: f"duration {s!r} is read as {got!r} instead of {want!r}")
                else:
                    rep.outcome("malformed rejected" if got is None else "malformed accepted")
                    lead = s.lstrip("+-")[:1]
                    if lead != "P" or (s[-1] in "01-+"):
                        rep.expect(got is None, lambda: f"malformed duration {s!r} is read as {got!r}")
    elif kind == "durforms":
        nums = ["0", "1", "9", "23", "24", "48", "59", "60", "100", "1440", "3600", "86400"]
        opt = [None] + nums
        for sign in case[1:]:
            for w in nums:
                s = f"{sign}P{w}W"
                rep.step()
                rep.expect(DurationConverter.parse(s) == ref_duration(s), lambda: f"{s!r} misread")
            for d, h, m, sec in itertools.product(opt, repeat=4):
                t = "".join(x + u for x, u in ((h, "H"), (m, "M"), (sec, "S")) if x)
                s = sign + "P" + (d + "D" if d else "") + ("T" + t if t else "")
                if s.endswith("P"):
                    continue
                want = ref_duration(s)
                rep.state(s)
                rep.step()
                rep.trace()
                got = DurationConverter.parse(s)
                rep.expect(want is not None and got == want, lambda: f"{s!r} is read as {got!r} instead of {want!r}")
        for s in ("", "P1", "-P", "1D", "PT1D1", "P1X", "P1DT1", "PD", "PT1H2H", "P1D2D", "P1W2W", "P--1D", "P-1D", "p1d", " P1D", "P1D ", "PT1.5S"):
            if s == "-P":
                continue
            reject(DurationConverter, s, rep)
    elif kind == "offset":
        h = case[1]
        secs = range(h * 3600, (h + 1) * 3600) if case[2] or h == 0 else sorted({*range(h * 3600, (h + 1) * 3600, 60), h * 3600 + 1, h * 3600 + 3599})

        def ref(t):
            m = re.fullmatch(r"([+-])(\d\d)(\d\d)(\d\d)?", t)
            v = timedelta(hours=int(m[2]), minutes=int(m[3]), seconds=int(m[4] or 0))
            return -v if m[1] == "-" else v

        for s in secs:
            for v in (timedelta(seconds=s), -timedelta(seconds=s)):
                if not rt(UTCOffsetConverter, v, rep, ref):
                    return
    elif kind == "offtxt":
        for hh, mm in itertools.product(range(0, 24), range(0, 60, 7)):
            for ss in (None, 0, 1, 59):
                for sign in "+-":
                    t = f"{sign}{hh:02}{mm:02}" + ("" if ss is None else f"{ss:02}")
                    v = timedelta(hours=hh, minutes=mm, seconds=ss or 0)
                    got = UTCOffsetConverter.parse(t)
                    rep.step()
                    rep.trace()
                    rep.expect(got == (-v if sign == "-" else v), lambda: f"offset {t!r} is read as {got!r}")
        for bad in ("", "+", "+1", "+01", "+010", "+01000", "+0100000", "*0100", "+01:00", "Z", "+0a00", " +0100", "+0100 ", "--0100"):
            reject(UTCOffsetConverter, bad, rep)
    elif kind == "bin":
        for a in range(case[1], case[1] + 32):
            rt(BinaryConverter, bytes([a]), rep)
            for b in range(256):
                if not rt(BinaryConverter, bytes([a, b]), rep):
                    return
            rt(BinaryConverter, bytes([a, 0, 255 - a]), rep)
        for n in range(0, 300):
            rt(BinaryConverter, bytes(range(256)) * 2 if n == 299 else bytes((i * 7 + case[1]) % 256 for i in range(n)), rep)
    elif kind == "int":
        for i in range(case[1], case[1] + 5000):
            if not rt(IntegerConverter, i, rep):
                return
        for i in (2**31 - 1, -(2**31), 2**63, 10**20):
            rt(IntegerConverter, i, rep)
        for bad in ("", "a", "1.5", "1,2", "--1"):
            reject(IntegerConverter, bad, rep)
    elif kind == "float":
        for a in range(-1000, 1001):
            for d in (1, 3, 7, 10, 1000, 0.001, 1e-7, 1e20):
                rt(FloatConverter, a / d, rep)
        for bad in ("", "a", "1,2"):
            reject(FloatConverter, bad, rep)
    elif kind == "bool":
        for v in (True, False):
            rt(BooleanConverter, v, rep)
        for word, v in (("true", True), ("false", False)):
            for ups in itertools.product((0, 1), repeat=len(word)):
                t = "".join(c.upper() if u else c for c, u in zip(word, ups))
                rep.step()
                rep.trace()
                rep.expect(BooleanConverter.parse(t) is v, lambda: f"boolean {t!r} is read as {not v}")
        for bad in ("", "2", "TRUEE", "maybe", "null"):
            reject(BooleanConverter, bad, rep)
    elif kind == "geo":
        for lat6 in [case[1] * 1000000 + k for k in (0, 1, -1, 123456, -654321, 500000, 999999)]:
            for lon6 in [l * 1000000 + k for l in range(-180, 181, 15) for k in (0, 1, -1, 123456, -999999)]:
                if not rt(GeoConverter, Geo(lat6 / 1000000, lon6 / 1000000), rep):
                    return
        for bad in ("", "1", "1,2", "a;b", "1;", ";1"):
            reject(GeoConverter, bad, rep)
    elif kind == "uri":
        hosts = ["example.org", "u:p@example.org:8080", "[::1]"]
        for scheme, host, path, q, frag in itertools.product(
            ("http", "https", "ftp", "x-custom"), hosts, ("", "/", "/a/b.ics", "/a,b;c=d", "/%20%2C", "/\xfc"), ("", "?a=b", "?a=b&c=d,e", "?x=;"), ("", "#f", "#a,b")
        ):
            t = f"{scheme}://{host}{path}{q}{frag}"
            v = URIConverter.parse(t)
            back = URIConverter.serialize(v)
            rep.state(t)
            rep.step(2)
            rep.trace()
            rep.expect(back == t, lambda: f"URI {t!r} is read and written as {back!r}")
            items = list(URIConverter.split_value_list(t))
            rep.expect(items == [t], lambda: f"URI {t!r} is split into {items!r}")
        for t in ("mailto:a@b.c", "urn:x:y,z;a", "tel:+1-2", "CID:part3@example.org", "relative/path", "data:text/plain;base64,QUJD"):
            back = URIConverter.serialize(URIConverter.parse(t))
            rep.step(2)
            rep.expect(back == t or t.lower() == back.lower(), lambda: f"URI {t!r} is read and written as {back!r}")
            rep.expect(URIConverter.serialize(t) == t, "URI given as text changes")

"""C20: threads and interleaved lazy readers working on different objects don't influence each other, also when the library is used for the first time.

The schedules are enumerated with a controlled scheduler: two threads of the real code run under sys.settrace, exactly one holds the baton,
and the baton is handed over exactly at the scheduled line events of the library code.
"""
import functools
import itertools
import os
import pickle
import sys
import threading
from datetime import datetime, timedelta, timezone

import ics
from ics import Calendar, Event, Timezone, Todo
from ics.contentline import ContentLine, Parser, lines_to_containers, string_to_container, string_to_containers
from ics.contentline.container import contentline_set_wrap
from ics.event import deterministic_event_data
from mc import core, ref

PROPERTY = "C20"
BOUNDS = {
    "quick": "13 operations x 19 operations (the 4 largest: 6..9 operations): the first one is stopped at the first execution of every line of the library it executes, the second one runs completely; all pairs of 3 small "
    "operations with two preemptions; first use of the library by two threads, stopped at every line executed during the initialization; all interleavings of 2 lazy readers or writers",
    "thorough": "all pairs of 19 operations, first 4 executions of each line, two preemptions of 9 operations, first use with 5 pairs of operations",
}
ASSUMPTIONS = ["threads are switched between lines (CPython may switch within a line)", "a thread which makes no progress for 50 ms is considered blocked by the other one, which is then continued"]
CASE_TIMEOUT = 300
IDLE = 5
SRC = os.path.realpath(os.path.join(core.REPO, "src", "ics")) + os.sep


# ---------------------------------------------------------------------------------------------
# scheduler


class Run:
    """two threads; thread t is stopped at its event numbers in stops[t] (None: events are counted only) and hands over to the other one;
    only the first `select` executions of each line are events"""

    def __init__(self, fns, stops, select):
        self.fns, self.stops, self.select = fns, stops, select
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [threading.Event(), threading.Event()]
        self.res = [None, None]
        self.n = [0, 0]
        self.stopped = ["", ""]
        self.blocked = False

    def where(self, t):
        f = sys._current_frames().get(self.threads[t].ident)
        return f and (id(f), f.f_lasti)

    def hand_over(self, t):
        o = 1 - t
        if self.done[o].is_set():
            return
        self.sem[o].release()
        # the other one may wait for something this one holds, then it makes no progress
        idle, last = 0, None
        while not self.sem[t].acquire(timeout=0.02):
            now = self.where(o)
            idle = idle + 1 if now == last else 0
            last = now
            if idle >= IDLE:
                self.blocked = True
                return

    def body(self, t):
        seen = {}
        todo = max(self.stops[t], default=-1) if self.stops[t] is not None else sys.maxsize

        def local(frame, event, arg):
            if event == "line":
                key = (frame.f_code.co_filename, frame.f_lineno)
                seen[key] = c = seen.get(key, 0) + 1
                if c <= self.select:
                    i = self.n[t]
                    self.n[t] += 1
                    if i >= todo:
                        sys.settrace(None)
                    if self.stops[t] and i in self.stops[t]:
                        self.stopped[t] = f"{key[0][len(SRC):]}:{key[1]}"
                        self.hand_over(t)
            return local

        cache = {}

        def glob(frame, event, arg):
            f = frame.f_code.co_filename
            r = cache.get(f)
            if r is None:
                r = cache[f] = os.path.realpath(f).startswith(SRC)
            return local if r else None

        self.sem[t].acquire(timeout=20)
        if todo >= 0:
            sys.settrace(glob)
        try:
            r = ("ok", self.fns[t]())
        except Exception as e:
            r = ("exc", type(e).__name__, str(e)[:300] if isinstance(e, AssertionError) else "")
        finally:
            sys.settrace(None)
        self.res[t] = r
        self.done[t].set()
        self.sem[1 - t].release()

    def go(self):
        self.threads = ts = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in (0, 1)]
        for t in ts:
            t.start()
        self.sem[0].release()
        for d in self.done:
            if not d.wait(40):
                raise AssertionError(f"deadlock: {self.res}")
        for t in ts:
            t.join()
        return self.res


def alone(fn, select):
    """result and number of events of the operation in a thread of its own"""
    r = Run([fn, lambda: None], [None, ()], select)
    r.go()
    return r.res[0], r.n[0]


# ---------------------------------------------------------------------------------------------
# operations, all on their own objects unless stated otherwise

VT = "BEGIN:VTIMEZONE\r\nTZID:My/Zone\r\nBEGIN:STANDARD\r\nTZOFFSETFROM:{o}\r\nTZOFFSETTO:{o}\r\nDTSTART:20000101T000000\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\n"
CAL = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:{p}\r\n" + VT + "BEGIN:VEVENT\r\nUID:{p}\r\nDTSTAMP:20200101T000000Z\r\nDTSTART;TZID=My/Zone;X-P={p}:20200701T100000\r\nCATEGORIES:{p},2\r\nX-U:{p}\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"


def op_lines(p):
    """content lines with params"""
    txt = f"{p}A;P{p}=a{p},\"q;{p}\";Q=x:v{p}\r\nBEGIN:{p}C\r\nIN{p}:1\r\n f{p}\r\nEND:{p}C\r\n"
    got = list(string_to_containers(txt))
    assert got[0].name == f"{p}A" and got[0].params == {f"P{p}": [f"a{p}", f"q;{p}"], "Q": ["x"]} and got[0].value == f"v{p}", got
    assert got[1].name == f"{p}C" and [x.value for x in got[1]] == [f"1f{p}"], got
    return [x.serialize() for x in got] + [x.line_nr for x in got]


def op_tiny(p):
    (got,) = string_to_containers(f"{p}A;P=b{p}:c")
    assert got.name == f"{p}A" and got.params == {"P": [f"b{p}"]} and got.value == "c", got
    return True


def op_bad(p):
    try:
        list(string_to_containers(f"{p}A:1\r\n{p}B;X=\"a:2"))
    except Exception as e:
        return type(e).__name__, getattr(e, "line_nr", None), getattr(e, "col", None), getattr(e, "line", None)


def op_cal(p, off):
    cal = Calendar(CAL.format(p=p, o=off))
    (e,) = cal.events
    h = timedelta(hours=int(off[:3]))
    assert e.begin.utcoffset() == h and e.uid == p and e.categories == [p, "2"] and cal.prodid == p, cal.serialize()
    assert [x.value for x in e.extra] == [p] and e.extra_params["BEGIN"] == {"X-P": [p]}, e.extra_params
    return cal.serialize()


def op_wrap(p, w):
    with contentline_set_wrap(w):
        out = ContentLine(p, value="x y " * 30).serialize()
    assert (not w and "\r\n" not in out) or max(len(l) for l in out.split("\r\n")) == w, (w, out)
    return out


def op_nowrap(p):
    out = ContentLine(p, value="x y " * 30).serialize()
    assert max(len(l) for l in out.split("\r\n")) in (74, 75), out
    return out


def op_det(p):
    with deterministic_event_data(uid=p, dtstamp=datetime(2000, 1, int(p), tzinfo=timezone.utc)):
        e = Event(begin=datetime(2020, 1, 1, 10))
        t = Todo()
    assert e.uid == t.uid == p and e.dtstamp.day == t.dtstamp.day == int(p), (e.uid, t.uid)
    return e.serialize() + t.serialize()


def op_new(p):
    e, t = Event(), Todo()
    assert e.uid != t.uid and len(e.uid) > 10 and abs(e.dtstamp - datetime.now(timezone.utc)) < timedelta(days=1), (e.uid, t.uid, e.dtstamp)
    return True


def op_alter(p):
    e = Event(summary=p, begin=datetime(2020, 1, 1, 10), uid=p, dtstamp=datetime(2020, 1, 1, tzinfo=timezone.utc))
    e.duration = timedelta(hours=int(p))
    e.begin = datetime(2020, 1, 2, 10)
    e.make_all_day()
    e.status = "tentative"
    f = e.clone()
    f.summary = "f"
    try:
        e.status = p
    except ValueError:
        pass
    else:
        raise AssertionError(e.status)
    assert e.status == "TENTATIVE" and e.duration == timedelta(days=1) and e.summary == p, e
    return e.serialize() + f.serialize()


SHARED_TZ = None


def shared_tz():
    global SHARED_TZ
    if SHARED_TZ is None:
        SHARED_TZ = Timezone.from_container(string_to_container(
            "BEGIN:VTIMEZONE\r\nTZID:S\r\nBEGIN:STANDARD\r\nTZOFFSETFROM:+0200\r\nTZOFFSETTO:+0100\r\nDTSTART:20191027T030000\r\nEND:STANDARD\r\n"
            "BEGIN:DAYLIGHT\r\nTZOFFSETFROM:+0100\r\nTZOFFSETTO:+0200\r\nDTSTART:20190331T020000\r\nEND:DAYLIGHT\r\nEND:VTIMEZONE"
        ))
    return SHARED_TZ


def op_tz(p):
    """queries to a timezone shared by the threads"""
    tz = shared_tz()
    out = []
    for day, h in ((datetime(2019, 7, 1), 2), (datetime(2019, 12, 1), 1)) if p == "1" else ((datetime(2020, 1, 1), 1), (datetime(2019, 6, 1), 2)):
        dt = (day + timedelta(minutes=int(p))).replace(tzinfo=tz)
        assert dt.utcoffset() == timedelta(hours=h) and dt.dst() == timedelta(hours=h - 1), (dt.utcoffset(), day)
        assert dt.astimezone(timezone.utc).astimezone(tz) == dt
    for fold in (0, 1):
        out.append(datetime(2019, 10, 27, 2, 30, tzinfo=tz, fold=fold).utcoffset())
    assert out == [timedelta(hours=2), timedelta(hours=1)], out
    return out


_shared_cal = None


def shared_cal():
    global _shared_cal
    if _shared_cal is None:
        _shared_cal = Calendar(CAL.format(p="S", o="+0300"))
    return _shared_cal


def op_shared_write(p):
    """a calendar which is only read, by several threads"""
    return shared_cal().serialize()


def op_shared_timeline(p):
    cal = shared_cal()
    assert [e.uid for e in cal.timeline] == ["S"]
    e = cal.events[0]
    return (str(e), repr(e) == repr(e), [x.uid for x in cal.timeline.overlapping(datetime(2020, 6, 30, tzinfo=timezone.utc), datetime(2020, 7, 2, tzinfo=timezone.utc))], cal == cal.clone())


_shared_cl = ContentLine("X", {"P": ["a,b", "c"]}, "v " * 50)


def op_shared_line(p):
    return _shared_cl.serialize() + _shared_cl.clone().serialize()


OPS = {
    "lines1": lambda: op_lines("1"), "lines2": lambda: op_lines("2"), "tiny1": lambda: op_tiny("1"), "tiny2": lambda: op_tiny("2"), "bad": lambda: op_bad("3"), "cal1": lambda: op_cal("1", "+0100"), "cal2": lambda: op_cal("2", "-0500"),
    "wrap20": lambda: op_wrap("X", 20), "wrap0": lambda: op_wrap("Y", 0), "nowrap": lambda: op_nowrap("Z"), "det1": lambda: op_det("1"), "det2": lambda: op_det("2"), "new": lambda: op_new("1"),
    "alter": lambda: op_alter("3"), "tz1": lambda: op_tz("1"), "tz2": lambda: op_tz("2"), "swrite": lambda: op_shared_write("1"), "stl": lambda: op_shared_timeline("1"), "sline": lambda: op_shared_line("1"),
}
# operations which are stopped (the others only differ from one of them in their values), and what is run meanwhile
STOPPED = ["lines1", "bad", "cal1", "wrap20", "wrap0", "nowrap", "det1", "new", "alter", "tz1", "swrite", "stl", "sline"]
SOME = ["cal2", "lines2", "nowrap", "wrap20", "tz2", "det2", "swrite", "alter", "new"]
LARGE = {"cal1": SOME[:6], "alter": SOME, "det1": SOME, "swrite": SOME}
TINY = ["wrap20", "wrap0", "nowrap", "tiny1"]
FIRST = [("cal1", "cal2"), ("det1", "alter"), ("cal1", "alter"), ("tz1", "cal2"), ("alter", "det2")]


def fresh_first(a, b, stops, select):
    """run the two operations in a forked process in which the converters weren't initialized yet"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            sys.dont_write_bytecode = not sys.pycache_prefix  # compiling might look like waiting
            run = Run([OPS[a], OPS[b]], stops, select)
            res = run.go()
            with os.fdopen(w, "wb") as f:
                pickle.dump((res, run.n, run.blocked), f)
        except BaseException as e:
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ([("crash",), ("crash",)], [0, 0], False)


CHUNK = 40


def cases(tier):
    th = tier == "thorough"
    # these need a process in which the converters weren't initialized yet, so they come first
    for i, (a, b) in enumerate(FIRST[: 5 if th else 1]):
        for k in range(24):
            yield ["first", a, b, k, 24]
    for k in range(3 if not th else 8):
        yield ["lazy", k]
    for a in OPS if th else STOPPED:
        for b in OPS if th else LARGE.get(a, OPS):
            yield ["one", a, b, 4 if th else 1]
    small = TINY + ["tiny2", "sline", "tz1", "tz2", "bad"] if th else TINY
    for a in small:
        for b in small if th else TINY[:3] + ["tiny2"]:
            if th or a.startswith("tiny") == b.startswith("tiny"):
                yield ["two", a, b]


_alone = {}


def reference(name, select):
    """the first execution may do more (e.g. fill caches), so it isn't counted"""
    key = (name, select)
    if key not in _alone:
        alone(OPS[name], select)
        _alone[key] = alone(OPS[name], select)
    return _alone[key]


def judge(rep, a, b, res, want, how):
    for n, r, x in zip((a, b), res, want):
        rep.expect(r == x, lambda: f"{n} in thread {[a, b]} {how} gives {r}, alone {x}", "interference")
        if r and r[0] == "ok":
            rep.outcome("as alone")


def run_case(case, rep):
    what = case[0]
    if what == "lazy":
        return run_lazy(case[1], rep)
    _, a, b = case[:3]
    if what == "first":
        return run_first(a, b, case[3], case[4], rep)
    ra, rb = reference(a, 1), reference(b, 1)
    for n, r in ((a, ra), (b, rb)):
        if not rep.expect(r[0][0] == "ok", lambda: f"{n} alone: {r}", "alone"):
            return
    if what == "one":
        sel = case[3]
        (va, na), (vb, _) = reference(a, sel), reference(b, sel)
        for i in range(na):
            run = Run([OPS[a], OPS[b]], [{i}, ()], sel)
            res = run.go()
            rep.trace()
            rep.step(sum(run.n))
            judge(rep, a, b, res, (va, vb), f"stopped at {run.stopped[0]}")
            rep.state((a, b, i))
            if run.blocked:
                rep.outcome("blocked")
            if len(rep.violations) > 10:
                return
    else:
        (va, na), (vb, nb) = ra, rb
        # the first thread is stopped at i, the second one at j, then the first and the second one complete
        for i in range(na):
            for j in range(nb):
                run = Run([OPS[a], OPS[b]], [{i}, {j}], 1)
                res = run.go()
                rep.trace()
                rep.step(sum(run.n))
                judge(rep, a, b, res, (va, vb), f"stopped at {run.stopped}")
                rep.state((a, b, i, j))
            if len(rep.violations) > 10:
                return


def run_first(a, b, k, n, rep):
    want, na, _ = fresh_first(a, b, [None, ()], 1)
    if not rep.expect(all(r[0] == "ok" for r in want), lambda: f"first use of the library by {a}, then {b}: {want}", "first"):
        return
    for i in range(k, na[0], n):
        res, _, blocked = fresh_first(a, b, [{i}, ()], 1)
        rep.trace()
        rep.step(sum(na))
        rep.state(("first", a, b, i))
        rep.outcome("first use" + (", second thread has to wait" if blocked else ""))
        rep.expect(res == want, lambda: f"first use of the library by {a} and {b} in two threads, the first one stopped at its {i}th line: {res}", "first-use")


def interleavings(n, m):
    for pos in itertools.combinations(range(n + m), n):
        yield [0 if i in pos else 1 for i in range(n + m)]


def run_lazy(k, rep):
    """interleaved consumption of lazy readers and writers"""
    def lines(p):
        return [f"{p}A;Q={p}:1{p}", f"{p}B:2{p}\r\n", f" more{p}", f"BEGIN:{p}C", f"{p}D;R=\"{p};\":x", f"END:{p}C", f"{p}E:5"]

    def texts(p):
        return "\r\n".join(l.rstrip("\r\n") for l in lines(p))

    cont = {p: string_to_container(f"BEGIN:{p}C\r\n{p}D;R=\"{p};\":" + "xyz " * 25 + f"\r\nBEGIN:{p}F\r\nG:1\r\nEND:{p}F\r\nEND:{p}C") for p in "PQ"}
    makers = [
        lambda p: string_to_containers(texts(p)), lambda p: lines_to_containers(lines(p)), lambda p: lines_to_containers(iter(lines(p))), lambda p: Parser.lines_to_contentlines(Parser.unfold_lines(lines(p))),
        lambda p: Parser.unfold_lines(Parser.string_to_lines(texts(p))), lambda p: cont[p].serialize_iter(newline=True), lambda p: iter(Calendar(CAL.format(p=p, o="+0100"))), lambda p: iter(cont[p]),
    ]
    pairs = [(m, n) for m in makers for n in makers]
    for m, n in pairs[k :: 3]:
        want = [list(map(str, m("P"))), list(map(str, n("Q")))]
        ls = [len(w) for w in want]
        if sum(ls) > 16:
            # prefixes up to 6 steps of each, then the rest
            orders = list(interleavings(min(ls[0], 6), min(ls[1], 6)))
        else:
            orders = list(interleavings(*ls))
        for o in orders:
            its = [m("P"), n("Q")]
            got = [[], []]
            for t in o:
                got[t].append(str(next(its[t])))
            for t in (0, 1):
                got[t] += map(str, its[t])
            rep.trace()
            rep.step(len(o))
            rep.expect(got == want, lambda: f"lazy readers consumed in the order {o}: {got} instead of {want}", "lazy")
        rep.state((k, makers.index(m), makers.index(n)))
        rep.outcome("lazy", )

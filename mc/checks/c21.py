"""C21: deterministic_event_data and contentline_set_wrap have an effect exactly while they are active, for exactly the code they enclose, and reliably end."""
import asyncio
import contextvars
import itertools
import threading
from datetime import datetime, timedelta, timezone

from ics import Event, Todo
from ics.contentline import Container, ContentLine
from ics.contentline.container import contentline_set_wrap
from ics.event import deterministic_event_data

PROPERTY = "C21"
BOUNDS = {
    "quick": "all properly nested histories of <=5 of 10 operations (enter 5 managers with different arguments, leave normally, leave by one of 3 exceptions, create entries and write lines in the same thread, in a new "
    "thread, in a copied context), observed after every step; as decorators, generators, managers used several times; asyncio tasks: all interleavings of 2 tasks with <=4 steps",
    "thorough": "histories of <=7 operations, tasks with <=6 steps",
}
ASSUMPTIONS = ["new threads start with the defaults", "managers are left in the reverse order of entering them"]
CASE_TIMEOUT = 300

U = timezone.utc
D1, D2 = datetime(1999, 5, 5, tzinfo=U), datetime(2010, 6, 7, 8, tzinfo=timezone(timedelta(hours=2)))
DEF = ("deterministic_uid@example.org", datetime(2000, 1, 1, 12, tzinfo=U))
# name, constructor, (uid, dtstamp) or width set by it
MANAGERS = {
    "d": (lambda: deterministic_event_data(), ("data", DEF)),
    "e": (lambda: deterministic_event_data("u1", D1), ("data", ("u1", D1))),
    "f": (lambda: deterministic_event_data(dtstamp=D2, uid="u2"), ("data", ("u2", D2))),
    "w": (lambda: contentline_set_wrap(20), ("wrap", 20)),
    "x": (lambda: contentline_set_wrap(33), ("wrap", 33)),
    "0": (lambda: contentline_set_wrap(0), ("wrap", None)),
    "n": (lambda: contentline_set_wrap(None), ("wrap", None)),
    "m": (lambda: contentline_set_wrap(-5), ("wrap", None)),
}
QUICK = "defw0"


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


LEAVE = {")": None, "!": Boom, "b": BaseBoom, "g": GeneratorExit, "k": ValueError}
TEXT = "abcdefgh " * 30


def observe():
    """(uid, dtstamp) of new entries (None if they aren't deterministic), line width (None: not wrapped)"""
    e, t, e2 = Event(), Todo(begin=datetime(2020, 1, 1)), Event(begin=datetime(2020, 1, 1))
    now = datetime.now(U)
    if e.uid != e2.uid and e.uid != t.uid and all(abs(x.dtstamp - now) < timedelta(minutes=10) for x in (e, t, e2)):
        data = None
    elif e.uid == t.uid == e2.uid and e.dtstamp == t.dtstamp == e2.dtstamp:
        data = (e.uid, e.dtstamp)
    else:
        data = ("mixed", [(x.uid, x.dtstamp) for x in (e, t, e2)])
    # explicit values are never replaced
    x = Event(uid="mine", dtstamp=datetime(2001, 1, 1, tzinfo=U))
    y = x.clone()
    if (x.uid, x.dtstamp, y.uid, y.dtstamp) != ("mine", datetime(2001, 1, 1, tzinfo=U)) * 2:
        data = ("explicit", x.uid, x.dtstamp)
    c = Container("C", [ContentLine("X", value=TEXT), Container("D", [ContentLine("Y", value=TEXT)])])
    lens = [max(map(len, o.split("\r\n"))) for o in (c.serialize(), c[1].serialize(), c[0].serialize(), "".join(c.serialize_iter()))]
    if len(set(lens)) != 1:
        width = ("mixed", lens)
    else:
        width = lens[0] if lens[0] < len(TEXT) else None
    if ContentLine("X", value=TEXT).serialize(wrap=None) != "X:" + TEXT:
        width = "explicit wrap=None is ignored"
    return data, width


def model(stack):
    data = next((v for k, v in stack[::-1] if k == "data"), None)
    width = next((v for k, v in stack[::-1] if k == "wrap"), 75)
    return data, width


def fits(got, want):
    (d, w), (dm, wm) = got, want
    # lines are broken at word boundaries if possible
    return d == dm and (w == wm or wm is not None and isinstance(w, int) and wm - 9 < w <= wm)


def cases(tier):
    th = tier == "thorough"
    keys = QUICK if not th else "defwx0nm"
    yield ["decorators"]
    yield ["reuse"]
    for k in keys:
        yield ["nest", k, 7 if th else 5]
    for k in MANAGERS:
        for l in LEAVE:
            yield ["single", k, l]
    for a, b in itertools.product(MANAGERS, repeat=2):
        yield ["tasks", a, b, 3 if th else 2]
        yield ["threads", a, b]
        yield ["generator", a, b]


def run_case(case, rep):
    rep.trace()
    {"nest": run_nest, "single": run_single, "decorators": run_deco, "reuse": run_reuse, "tasks": run_tasks, "threads": run_threads, "generator": run_generator}[case[0]](case, rep)


def in_thread(fn):
    out = []
    t = threading.Thread(target=lambda: out.append(fn()))
    t.start()
    t.join()
    return out[0]


def check(rep, got, want, hist):
    rep.step()
    rep.state((tuple(hist), str(want)))
    rep.outcome("active" if want != (None, 75) else "inactive")
    rep.expect(fits(got, want), lambda: f"after {hist}: new entries and line width are {got} instead of {want}", "scope")


def run_nest(case, rep):
    """depth-first over all properly nested histories; the managers are entered and left on the real call stack by with statements"""
    _, first, depth = case
    keys = QUICK if depth <= 5 else "defwx0"

    def explore(hist, stack, n, must):
        """within the innermost with block: choose what comes next; n operations are left"""
        check(rep, observe(), model(stack), hist)
        if n <= 0:
            return
        for k in must or keys:
            mk, eff = MANAGERS[k]
            for l in (")", "!", "b") if len(hist) < 2 else (")!" if n > 1 else ")"):
                exc = LEAVE[l]
                h = hist + [k]
                try:
                    with mk() as val:
                        explore(h, stack + [eff], n - 2, None)
                        if exc:
                            raise exc("x")
                except (Boom, BaseBoom) as e:
                    rep.expect(exc is type(e), lambda: f"{h}: {e!r} escaped", "exception")
                else:
                    rep.expect(exc is None, lambda: f"exception was swallowed after {h}", "exception")
                check(rep, observe(), model(stack), h + [l])
                if n >= 4 and l == ")":
                    # a second manager after the first one was left
                    for k2 in keys:
                        with MANAGERS[k2][0]():
                            check(rep, observe(), model(stack + [MANAGERS[k2][1]]), h + [l, k2])
                        check(rep, observe(), model(stack), h + [l, k2, ")"])

    ctx = contextvars.copy_context()
    ctx.run(explore, [], [], depth + 1, first)


def run_single(case, rep):
    _, k, l = case
    mk, eff = MANAGERS[k]
    exc = LEAVE[l]
    before = observe()
    check(rep, before, (None, 75), [])
    m = mk()
    check(rep, observe(), (None, 75), [k, "not entered yet"])
    try:
        with m:
            check(rep, observe(), model([eff]), [k])
            check(rep, contextvars.copy_context().run(observe), model([eff]), [k, "copied context"])
            check(rep, in_thread(observe), (None, 75), [k, "new thread"])
            ctx = contextvars.copy_context()
            if exc:
                raise exc()
    except BaseException as e:
        rep.expect(exc and type(e) is exc, lambda: f"leaving {k} by {exc} raised {e!r}", "exception")
    else:
        rep.expect(exc is None, lambda: f"leaving {k} by {exc} swallowed the exception", "exception")
    check(rep, observe(), (None, 75), [k, l])
    check(rep, ctx.run(observe), model([eff]), [k, l, "context copied before"])
    check(rep, in_thread(observe), (None, 75), [k, l, "new thread"])
    for _ in range(2):
        with mk():
            check(rep, observe(), model([eff]), [k, l, k])
        check(rep, observe(), (None, 75), [k, l, k, ")"])


def run_deco(case, rep):
    for (k, (mk, eff)), (k2, (mk2, eff2)) in itertools.product(MANAGERS.items(), repeat=2):
        @mk()
        @mk2()
        def f(n, fail=False):
            check(rep, observe(), model([eff, eff2]), [k, k2, "decorated"])
            if n:
                f(n - 1)
            if fail:
                raise Boom()
            return 42

        for _ in range(2):
            rep.expect(f(1) == 42, lambda: "decorated function returned something else", "decorator")
            check(rep, observe(), (None, 75), [k, k2, "after decorated function"])
            try:
                f(0, True)
                rep.fail("exception of the decorated function is lost", "decorator")
            except Boom:
                pass
            check(rep, observe(), (None, 75), [k, k2, "after failed decorated function"])


def run_reuse(case, rep):
    """entries created within keep their data afterwards; data of existing ones isn't changed"""
    out = Event()
    uid, stamp = out.uid, out.dtstamp
    for k in "def":
        mk, (_, (u, d)) = MANAGERS[k]
        with mk():
            e, t = Event(), Todo()
            c = out.clone()
            rep.expect((out.uid, out.dtstamp, c.uid, c.dtstamp) == (uid, stamp) * 2, lambda: f"existing event was changed to {out.uid} {out.dtstamp}", "existing")
        rep.step()
        for x in (e, t, e.clone(), t.clone()):
            rep.expect((x.uid, x.dtstamp) == (u, d) and x.dtstamp.utcoffset() == timedelta(0), lambda: f"entry created within {k} has {x.uid} {x.dtstamp}", "kept")
            y = type(x).from_container(x.to_container())
            rep.expect((y.uid, y.dtstamp) == (u, d), lambda: f"entry created within {k} is read back with {y.uid} {y.dtstamp}", "kept")
            with deterministic_event_data("other", D1):
                y = type(x).from_container(x.to_container())
                rep.expect((y.uid, y.dtstamp) == (u, d), lambda: f"entry with {u} {d} is read as {y.uid} {y.dtstamp} within another manager", "kept")
    line = ContentLine("X", value=TEXT)
    outs = []
    for w in range(5, 120):
        with contentline_set_wrap(w):
            o = line.serialize()
        rep.step()
        rep.state(w)
        rep.expect(max(map(len, o.split("\r\n"))) <= w and o.replace("\r\n ", "") == "X:" + TEXT, lambda: f"width {w}: {o}", "width")


def run_tasks(case, rep):
    """two tasks of an event loop, all interleavings of their steps; tasks don't see the managers of each other"""
    _, a, b, n = case
    steps = n + 1
    for order in itertools.combinations(range(2 * steps), steps):
        sched = [0 if i in order else 1 for i in range(2 * steps)]
        for outer in (None, "e", "w"):
            base = [MANAGERS[outer][1]] if outer else []

            async def task(k, turn, me, log):
                mk, eff = MANAGERS[k]
                await turn(me)
                with mk():
                    for _ in range(n - 1):
                        log.append((observe(), model(base + [eff]), me))
                        await turn(me)
                    log.append((observe(), model(base + [eff]), me))
                log.append((observe(), model(base), me))
                await turn(me)

            async def main():
                log, evs, pos = [], [asyncio.Event() for _ in sched], [0]

                cnt = [0, 0]

                async def turn(me):
                    # wait for the slot of this step
                    slots = [i for i, t in enumerate(sched) if t == me]
                    s = slots[cnt[me]]
                    cnt[me] += 1
                    if s > 0:
                        await evs[s - 1].wait()
                    asyncio.get_running_loop().call_soon(evs[s].set)

                ts = [asyncio.create_task(task(k, turn, me, log)) for me, k in enumerate((a, b))]
                await asyncio.gather(*ts)
                return log

            def go():
                if outer:
                    with MANAGERS[outer][0]():
                        return asyncio.run(main())
                return asyncio.run(main())

            log = go()
            rep.state((a, b, tuple(sched), outer))
            for got, want, me in log:
                check(rep, got, want, [a, b, f"tasks {sched} in {outer}", me])
            check(rep, observe(), (None, 75), [a, b, "after tasks"])


def run_threads(case, rep):
    """two threads with lock step; all interleavings of enter, observe, leave"""
    _, a, b = case
    for order in itertools.combinations(range(6), 3):
        sched = [0 if i in order else 1 for i in range(6)]
        sems = [threading.Semaphore(0), threading.Semaphore(0)]
        main = threading.Semaphore(0)
        log = []

        def body(me, k):
            mk, eff = MANAGERS[k]
            sems[me].acquire()
            with mk():
                main.release()
                sems[me].acquire()
                log.append((observe(), model([eff]), me))
                main.release()
                sems[me].acquire()
            log.append((observe(), (None, 75), me))
            main.release()

        ts = [threading.Thread(target=body, args=x) for x in enumerate((a, b))]
        [t.start() for t in ts]
        for i, t in enumerate(sched):
            sems[t].release()
            main.acquire(timeout=30)
            check(rep, observe(), (None, 75), [a, b, f"threads {sched}", i])
        [t.join() for t in ts]
        for got, want, me in log:
            check(rep, got, want, [a, b, f"threads {sched}", me])


def run_generator(case, rep):
    """a generator which uses a manager between its yields, and one which is closed or collected within"""
    _, a, b = case
    (mk, eff), (mk2, eff2) = MANAGERS[a], MANAGERS[b]

    def gen():
        with mk():
            one = observe()
        yield one
        with mk2():
            with mk():
                two = observe()
            three = observe()
        yield two
        yield three

    for ctxs in itertools.product((None, "e", "w"), repeat=3):
        g = gen()
        for i, c in enumerate(ctxs):
            base = [MANAGERS[c][1]] if c else []
            want = [model(base + [eff]), model(base + [eff2, eff]), None][i]
            if c:
                with MANAGERS[c][0]():
                    got = next(g)
                    check(rep, observe(), model(base), [a, b, "generator", i, c])
            else:
                got = next(g)
            if want:
                check(rep, got, want, [a, b, "in generator", i, c])
            check(rep, observe(), (None, 75), [a, b, "after generator", i, c])

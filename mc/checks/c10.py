"""C10: the interval relations are those of half-open intervals of absolute time, for every mix of representations."""
import itertools
from datetime import timedelta

from mc.spans import LOCALS, Span, fall_spans, instant, set_local, wall, zone

PROPERTY = "C10"
BOUNDS = {
    "quick": "every ordered pair over all intervals with ends on 5 points (incl. empty, open-ended and missing ones) x 4 zone kinds x all-day/timed, in varying "
    "representations and kinds (event, todo, timespans), 7 relations, 2 local timezones; every pair of 28 intervals with ends which differ by seconds to hours; every pair of ~130 intervals around the end of DST (both times of a repeated hour, 5 tzinfo objects); every interval x instant",
    "thorough": "7 points, all combinations of kinds, 4 local timezones",
}
ASSUMPTIONS = ["'includes' means: begins no later and ends strictly later", "no times skipped by a DST change; ends are added and compared by the wall clock of one zone"]


def palette(tier, local_idx):
    th = tier == "thorough"
    pts = [0, 6, 12, 24, 30] if not th else [0, 2, 6, 12, 24, 30, 48]
    zs = [None, "utc", "ber", "ny"]
    out = []
    n = 0
    for z in zs:
        for b, e in itertools.combinations_with_replacement(pts, 2):
            if not th and z in ("ber", "ny") and (b + e) % 24 == 6:
                continue
            out.append(Span(b, e, ["end", "duration"][n % 2], z))
            n += 1
    for b, e in itertools.combinations([0, 24, 48], 2):
        out.append(Span(b, e, ["end", "duration"][n % 2], None, True))
        n += 1
    for z in (None, "ber"):
        out.append(Span(6, None, "none", z))
        out.append(Span(None, 12, "end", z))
    out.append(Span(24, None, "none", None, True))
    out.append(Span(None, None, "none"))
    return out


KINDS = ["event", "todo", "span", "espan", "tspan"]


def kinds_for(s):
    return [k for k in KINDS if not (s.b is None and s.e is not None and k in ("event", "espan"))]


# times which differ by seconds, minutes and hours only
FINE = [Span(b, e, "end" if n % 2 else "duration", [None, "utc", "ny"][n % 3]) for n, (b, e) in enumerate(itertools.combinations_with_replacement([0, 1 / 3600, 2 / 3600, 59 / 3600, 1 / 60, 1, 24], 2))]

# around the end of DST
FALL = fall_spans()


def cases(tier):
    locs = LOCALS if tier == "thorough" else LOCALS[:2]
    for li, loc in enumerate(locs):
        pal = palette(tier, li)
        for i in range(len(pal)):
            yield ["pairs", tier, loc, i]
            yield ["instants", tier, loc, i]
    for loc in locs:
        for i in range(len(FINE)):
            yield ["fine", tier, loc, i]
        for i in range(len(FALL)):
            yield ["fall", tier, loc, i]


def ref(name, f, s):
    (fb, fe), (sb, se) = f, s
    need = {"starts_within": (fb, sb, se), "ends_within": (fe, sb, se), "due_within": (fe, sb, se)}.get(name, (fb, fe, sb, se))
    if any(x is None for x in need):
        return "ValueError"
    return {
        "starts_within": lambda: sb <= fb < se,
        "ends_within": lambda: sb <= fe < se,
        "due_within": lambda: sb <= fe < se,
        # a common instant; the begin of an empty interval counts as its only instant when compared with a non-empty one
        "intersects": lambda: max(fb, sb) < min(fe, se) or (fb == fe and sb <= fb < se) or (sb == se and fb <= sb < fe),
        "includes": lambda: fb <= sb and se < fe,
        "contains": lambda: fb <= sb and se < fe,
        "is_included_in": lambda: sb <= fb and fe < se,
    }[name]()


def call(f, *args):
    try:
        return f(*args)
    except ValueError:
        return "ValueError"


def run_case(case, rep):
    what, tier, loc = case[:3]
    set_local(loc)
    try:
        rep.trace()
        pal = palette(tier, 0)
        if what == "pairs":
            i = case[3]
            f = pal[i]
            for j, s in enumerate(pal):
                fks, sks = kinds_for(f), kinds_for(s)
                combos = list(itertools.product(fks, sks)) if tier == "thorough" and (i + j) % 4 == 0 else [
                    (fks[(i + j) % len(fks)], sks[(i + 2 * j) % len(sks)]), (fks[j % len(fks)], sks[i % len(sks)])]
                for fk, sk in combos:
                    if fk.endswith("span") and not sk.endswith("span"):
                        sk = sk[0] + "span" if sk[0] + "span" in sks else "span"  # timespans are only related to timespans
                    pair(f, fk, s, sk, loc, rep)
        elif what in ("fine", "fall"):
            pal = FINE if what == "fine" else FALL
            f = pal[case[3]]
            for j, s in enumerate(pal):
                fk, sk = KINDS[(case[3] + j) % 5], KINDS[j % 5]
                if fk.endswith("span") and not sk.endswith("span"):
                    sk = "span"
                pair(f, fk, s, sk, loc, rep)
        else:
            for s in [pal[case[3]]]:
                for k in kinds_for(s)[:: 1 if tier == "thorough" else 2]:
                    obj = s.build(k)
                    b, e = s.instants(k, loc)
                    for h in (-1, 0, 1, 6, 11, 12, 13, 24, 29, 30, 47, 48):
                        for z in (None, "utc", "ber", "ny"):
                            w = wall(h)
                            t = instant(w, z, loc)
                            exp = "ValueError" if b is None or e is None else b <= t < e
                            rep.step()
                            rep.state((s.token(), k, h, z, loc))
                            got = call(obj.includes, w.replace(tzinfo=zone(z)))
                            rep.outcome(f"instant-{got}")
                            rep.expect(got == exp, lambda: f"[TZ={loc}] {obj} includes {w} {z}: {got}, expected {exp}", "instant")
                            if k.endswith("span"):
                                got = call(lambda: w.replace(tzinfo=zone(z)) in obj)
                                rep.expect(got == exp, lambda: f"[TZ={loc}] {w} {z} in {obj}: {got}, expected {exp}", "instant")
    finally:
        set_local("UTC")


def pair(f, fk, s, sk, loc, rep):
    fo, so = f.build(fk), s.build(sk)
    fi, si = f.instants(fk, loc), s.instants(sk, loc)
    rels = ["starts_within", "ends_within", "intersects", "includes", "is_included_in"]
    if fk.endswith("span") and sk.endswith("span"):
        rels.append("contains")
    if fk == "todo":
        rels.append("due_within")
    before = (str(fo), str(so))
    for r in rels:
        rep.step()
        exp = ref(r, fi, si)
        got = call(getattr(fo, r), so) if r != "contains" else call(lambda: so in fo)
        rep.outcome(f"{r}-{got}")
        rep.expect(got == exp and (got == "ValueError" or isinstance(got, bool)), lambda: f"[TZ={loc}] {fo} {r} {so}: {got!r}, expected {exp!r}", "relation")
    rep.state((f.token(), fk, s.token(), sk, loc))
    rep.expect(before == (str(fo), str(so)), lambda: f"comparing changed {before} to {fo}, {so}", "pure")

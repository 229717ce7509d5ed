#!/usr/bin/env python3
"""seedtest.py [ID ...] [--no-tests] [--check Cnn,..]: confirm planted bugs in a scratch copy of /repo and run their checks against it.

For every /verif/seeded/ID: the patch applies, changes only non-test sources, the stable tests pass with it, demo.sh exits 0 without and
nonzero with it; then the check of its property is run against the scratch copy (VERIF_REPO), which must exit 1."""
import argparse, json, os, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET

ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--no-check", action="store_true")
ap.add_argument("--check", default="")
a = ap.parse_args()
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = a.ids or sorted(os.listdir(root + "/seeded"))


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def demo(src, copy):
    d = tempfile.mkdtemp(prefix="demo.")
    try:
        for f in os.listdir(src):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(src, f), d)
        return run(["bash", d + "/demo.sh"], cwd=copy, timeout=300)
    finally:
        shutil.rmtree(d)


bad = 0
for i in ids:
    src = os.path.join(root, "seeded", i)
    meta = json.load(open(src + "/meta.json"))
    work = tempfile.mkdtemp(prefix="seedw.")
    copy = work + "/repo"
    msg = []
    try:
        run(["cp", "-a", "/repo", copy])
        r = demo(src, copy)
        if r.returncode:
            msg.append("DEMO FAILS UNPATCHED " + (r.stdout + r.stderr)[-400:])
        r = run(["git", "apply", src + "/patch.diff"], cwd=copy)
        if r.returncode:
            msg.append("DOES NOT APPLY " + r.stderr)
        r = demo(src, copy)
        if r.returncode == 0:
            msg.append("DEMO PASSES PATCHED")
        env = dict(os.environ, PYTHONPATH=copy + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONDEVMODE="1", TZ="UTC", HYPOTHESIS_STORAGE_DIRECTORY=work + "/hyp")
        if not a.no_tests:
            r = run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --hypothesis-profile=ci --timeout=300 --continue-on-collection-errors --basetemp=%s/tmp -o junit_family=xunit2 --junitxml=%s/j.xml" % (work, work), shell=True, cwd=copy, env=env)
            failed = [t.get("classname") + "::" + t.get("name") for t in ET.parse(work + "/j.xml").iter("testcase") if any(c.tag in ("failure", "error") for c in t)]
            failed = [f for f in failed if "test_version_matches" not in f]
            if failed:
                msg.append("TESTS FAIL %s" % failed[:6])
        res = []
        if not a.no_check:
            for c in a.check.split(",") if a.check else [meta["property"]]:
                r = run(["./check", c], cwd=root, env=dict(os.environ, VERIF_REPO=copy, VERIF_TIER="quick"))
                ok = r.returncode == 1 and f"VIOLATION property={c} " in r.stdout
                res.append(f"{c}:{'caught' if ok else 'MISSED rc=%s' % r.returncode}")
                bad += not ok
                if not ok and r.returncode:
                    res.append(r.stdout[-300:] + r.stderr[-600:])
        bad += bool(msg)
        print(i, "ok" if not msg else "BAD", *msg, "|", *res, flush=True)
    finally:
        shutil.rmtree(work)
sys.exit(bool(bad))

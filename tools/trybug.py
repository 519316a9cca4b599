"""usage: trybug.py NAME [--notests]   confirm a seeded bug in /tmp copy: patch applies, tests pass, demo 0 / nonzero, check verdict"""
import json, os, subprocess as sp, sys, shutil, tempfile
name = sys.argv[1]; d = "/verif/seeded/" + name
meta = json.load(open(d + "/meta.json")); pid = meta["property"]
w = tempfile.mkdtemp(prefix="seed_", dir="/tmp"); r = w + "/repo"
sp.run(["cp", "-a", "/repo", r], check=True)
try:
    env = dict(os.environ)
    run = lambda c, **k: sp.run(c, shell=True, capture_output=True, text=True, **k)
    demo = lambda: run("PYTHONPATH=%s bash %s/demo.sh" % (r, d), cwd=r)
    a = demo()
    ap = run("git -C %s apply %s/patch.diff" % (r, d))
    b = demo()
    print(name, pid, "apply", ap.returncode, ap.stderr[:200], "| demo clean", a.returncode, a.stderr[-300:] if a.returncode else "", "| demo bug", b.returncode, b.stdout[-200:], b.stderr[-200:])
    if "--notests" not in sys.argv:
        sp.run(["cp", "-a", r + "/tests", r + "/pyproject.toml", w], check=True)
        run("/opt/venv/bin/python -m pytest -q --no-cov -p no:cacheprovider --rootdir %s --timeout=300 -m 'not vcr' -o junit_family=xunit2 --junitxml=%s/junit.xml tests" % (w, w),
            cwd=w, env=dict(env, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
        run("/usr/bin/python3 /opt/vp/results.py %s/o.json junit:%s/junit.xml" % (w, w))
        o = json.load(open(w + "/o.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        ps = set(o["passed"]) if "passed" in o else {k for k, v in o.items() if v == "passed"}
        miss = [t for t in base if t not in ps]
        print("   tests: %d stable missing %s" % (len(miss), miss[:3]))
    c = run("VERIF_REPO=%s python3-vt /verif/check.py %s" % (r, pid), cwd="/verif")
    v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
    print("   check rc", c.returncode, v, c.stdout.strip().splitlines()[-1:] if not v else "")
finally:
    shutil.rmtree(w)

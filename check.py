#!/usr/bin/env python3
"""usage: python3-vt check.py C01   (VERIF_TIER=quick|thorough, VERIF_SEED=n)

1. runtime-contract stage: executable contracts evaluated on the real code (harness/).
2. deductive stage: obligations generated from /repo's current source, discharged by z3/cvc5.
Writes evidence/<id>.json; exit 0 / exit 1 with a VIOLATION line."""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
sys.path[:0] = [HERE, REPO]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def verify_one(args):
    pid, idx, tier, budget = args
    warnings.simplefilter("ignore")
    try:
        from pyver.engine import Engine
        from pyver.solver import Back
        mod = importlib.import_module("contracts." + pid.lower())
        c = mod.CONTRACTS[idx]
        back = Back(cross=(tier == "thorough"), prove_ms=20000 if tier == "thorough" else 10000)
        try:
            e = Engine(c, back=back, budget=budget)
        except (AttributeError, ImportError) as ex:
            return dict(contract=c.name, target=c.target, status="unsupported", reason="target not found: %s" % ex,
                        obligations=[], paths=0, rounds=0, secs=0, invariants=0, loops=0, unreached=[], inlined=[], inv=[],
                        stats={})
        r = e.verify()
        s = back.stats
        r["obligations"] = [dict(name=o.name, status=o.status, backend=o.backend, detail=o.detail, secs=o.secs, model=repr(o.model) if o.model else None) for o in r["obligations"]]
        r["stats"] = dict(queries=s.queries, z3_s=s.z3_time, cvc5_s=s.cvc5_time, cvc5_proved=s.cvc5_proved, cross=s.cross)
        r["note"] = c.note
        r["abstract"] = sorted(getattr(a.name, "strip", lambda: "")() or (t if isinstance(t, str) else getattr(t, "__qualname__", str(t))) for t, a in c.abstract.items())
        r["models"] = sorted((t if isinstance(t, str) else "%s.%s" % (getattr(t, "__module__", ""), getattr(t, "__qualname__", t))) for t in c.models)
        return r
    except Exception:
        return dict(contract="#%d" % idx, target="?", status="unsupported", reason="verifier error: " + traceback.format_exc()[-1500:],
                    obligations=[], paths=0, rounds=0, secs=0, invariants=0, loops=0, unreached=[], inlined=[], inv=[], stats={})


def run_harness(pid, tier, seed, timeout):
    out = os.path.join(HERE, "evidence", "harness-%s.json" % pid)
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ, PYTHONPATH="%s:%s" % (REPO, HERE), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        r = subprocess.run([VENV, "-W", "ignore", os.path.join(HERE, "harness", "run.py"), pid, tier, str(seed), out],
                           env=env, capture_output=True, text=True, timeout=timeout, cwd="/tmp")
        err = r.stderr[-3000:]
    except subprocess.TimeoutExpired as ex:
        err = "harness timeout"
    if os.path.exists(out):
        with open(out) as fh:
            d = json.load(fh)
        os.unlink(out)
        return d
    return dict(error=err or "no output", evaluations=0, failures=[], samples=[], checks={})


def known_findings():
    p = os.path.join(HERE, "known-findings.json")
    if os.path.exists(p):
        with open(p) as fh:
            return json.load(fh)
    return []


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    try:
        mod = importlib.import_module("contracts." + pid.lower())
    except Exception:
        # what the contracts name is gone from the code: nothing is proved, the bounded stand-in decides
        mod = type("M", (), dict(CONTRACTS=[], BOUNDED=[dict(contract="all", target="?", status="unsupported", reason="contracts do not load: " + traceback.format_exc()[-600:])]))
    budget = 420 if tier == "quick" else 1500
    hard = 780 if tier == "quick" else 3600

    ctx = mp.get_context("fork")
    n = len(mod.CONTRACTS)
    pool = ctx.Pool(min(7, max(1, n)), maxtasksperchild=1) if n else None
    asy = [pool.apply_async(verify_one, ((pid, i, tier, budget),)) for i in range(n)] if n else []
    har = run_harness(pid, tier, seed, 420 if tier == "quick" else 2400)
    res = []
    if har.get("failures"):
        # a failing input is in hand: the obligations are still reported, but not waited for
        hard = time.time() - t0 + (20 if tier == "quick" else 300)
    for i, a in enumerate(asy):
        try:
            res.append(a.get(max(1, t0 + hard - time.time())))
        except mp.TimeoutError:
            c = mod.CONTRACTS[i]
            res.append(dict(contract=c.name, target=c.target, status="unsupported", reason="hard time limit", obligations=[], paths=0,
                            rounds=0, secs=hard, invariants=0, loops=0, unreached=[], inlined=[], inv=[], stats={}))
    if pool:
        pool.terminate()

    obls = [o for r in res for o in r["obligations"]]
    disch = [o for o in obls if o["status"] == "discharged"]
    refuted = [(r, o) for r in res for o in r["obligations"] if o["status"] == "refuted"]
    undecided = [r for r in res if r["status"] in ("unsupported", "undecided", "vacuous")]
    known = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "open"]
    fails = []
    hit = set()
    for f in har.get("failures", []):
        m = [k for k in known if k["key"] == f["key"]]
        if m:
            hit.add(m[0]["key"])
        else:
            fails.append(f)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc = 0
    replay = os.path.join(HERE, "evidence", "replay-%s.json" % pid)
    if fails:
        with open(replay, "w") as fh:
            json.dump(dict(property=pid, kind="failing input replayed on the real code", failures=fails[:20],
                           obligations_failed=[dict(contract=r["contract"], **o) for r, o in refuted][:10],
                           how="PYTHONPATH=%s:%s %s %s/harness/run.py %s %s %d -" % (REPO, HERE, VENV, HERE, pid, tier, seed)), fh, indent=1, default=repr)
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        for f in fails[:3]:
            print("  failing input:", json.dumps(f, default=repr)[:800])
        rc = 1
    elif refuted:
        with open(replay, "w") as fh:
            json.dump(dict(property=pid, kind="obligation refuted, no failing input found",
                           obligations_failed=[dict(contract=r["contract"], target=r["target"], **o) for r, o in refuted][:20]), fh, indent=1, default=repr)
        for r, o in refuted[:3]:
            print("  failed obligation: %s (%s)\n    %s" % (o["name"], r["target"], o["detail"][:600].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
        rc = 1
    bounded = [dict(contract=r["contract"], target=r["target"], status=r["status"], reason=r["reason"][-400:] or "; ".join(o["name"] for o in r["obligations"] if o["status"] == "unknown")[:300]) for r in undecided]
    static_bounded = list(getattr(mod, "BOUNDED", []))
    trusted = ["z3 %s" % __import__("z3").get_version_string(), "pyver (verification-condition generator in /verif/pyver)", "CPython semantics of the modelled built-ins (pyver/models.py)"]
    trusted += sorted({"assumed contract: " + a for r in res for a in r.get("abstract", [])}) + sorted({"external model: " + a for r in res for a in r.get("models", [])})
    cov = dict(
        obligations=len(obls) + sum(r["invariants"] for r in res), discharged=len(disch) + sum(r["invariants"] for r in res),
        checker_cmd="cd /verif && VERIF_TIER=%s python3-vt check.py %s" % (tier, pid), trusted_base=trusted,
        functions_under_contract=[dict(function=r["target"], status=r["status"], obligations=len(r["obligations"]), loop_invariants=r["invariants"], loops=r["loops"], paths=r["paths"], secs=round(r["secs"], 2), inlined=r["inlined"]) for r in res],
        by_backend={b: sum(1 for o in disch if o["backend"] == b) for b in sorted({o["backend"] for o in disch})},
        solver_s=round(sum(r["stats"].get("z3_s", 0) + r["stats"].get("cvc5_s", 0) for r in res), 2),
        solver_queries=sum(r["stats"].get("queries", 0) for r in res),
        cross_check={k: sum(r["stats"].get("cross", {}).get(k, 0) for r in res) for k in ("agree", "cvc5_unknown", "disagree")} if tier == "thorough" else {},
        unproved_bounded_stand_in=bounded + static_bounded,
        runtime_contract_checks=dict(evaluations=har.get("evaluations", 0), checks=har.get("checks", {}), error=har.get("error"), skipped=har.get("skipped", []), samples=har.get("samples", [])[:3]))
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "proof"), coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2), violations=1 if rc else 0)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=repr)
    print("%s %s: %d contracts, %d/%d obligations discharged, %d undecided -> bounded stand-in, %d runtime evaluations, %.1fs" % (
        pid, "VIOLATED" if rc else "held", n, cov["discharged"], cov["obligations"], len(undecided), har.get("evaluations", 0), time.time() - t0))
    for b in bounded:
        print("  undecided: %s: %s" % (b["contract"], b["reason"][-300:]))
    if har.get("error"):
        print("  harness error:", har["error"][-1500:])
    if os.environ.get("VERIF_VERBOSE"):
        for r in res:
            print(r["contract"], r["status"], r["reason"][-300:], "paths", r["paths"], "rounds", r["rounds"], "%.1fs" % r["secs"], "inv", r["inv"] if os.environ["VERIF_VERBOSE"] > "1" else len(r["inv"]))
    sys.exit(rc)


if __name__ == "__main__":
    main()

"""z3 (primary) and cvc5 (second back end) with accounting."""
import os
import subprocess
import tempfile
import time
import z3


class Stats:
    def __init__(self):
        self.queries = 0
        self.z3_time = 0.0
        self.cvc5_time = 0.0
        self.cvc5_proved = 0
        self.z3_proved = 0
        self.unknown = 0
        self.weakened = 0
        self.cross = {"agree": 0, "cvc5_unknown": 0, "disagree": 0}


class Back:
    def __init__(self, quick_ms=1500, prove_ms=10000, cross=False, cvc5_s=10, decide_ms=10):
        self.decide_ms = decide_ms
        self.quick_ms, self.prove_ms, self.cross, self.cvc5_s = quick_ms, prove_ms, cross, cvc5_s
        self.stats = Stats()

    def check(self, asserts, extra, ms):
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*asserts)
        s.add(*extra)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.z3_time += time.time() - t
        self.stats.queries += 1
        return r, s

    def cvc5(self, solver, secs):
        """run cvc5 on the SMT-LIB dump; returns 'unsat' | 'sat' | 'unknown'"""
        txt = solver.to_smt2()
        txt = txt.replace("(set-info :status unknown)", "")
        txt = "(set-logic ALL)\n" + txt
        for a, b in (("seq.nth_i", "seq.nth"), ("seq.nth_u", "seq.nth"),):
            txt = txt.replace(a, b)
        fd, p = tempfile.mkstemp(suffix=".smt2")
        os.write(fd, txt.encode())
        os.close(fd)
        t = time.time()
        try:
            r = subprocess.run(
                ["cvc5", "--lang=smt2", "--dt-nested-rec", "--strings-exp",
                 "--tlimit=%d" % (secs * 1000), p],
                capture_output=True, text=True, timeout=secs + 5)
            out = r.stdout.strip().splitlines()
            res = out[0] if out and out[0] in ("sat", "unsat", "unknown") else "unknown"
        except (subprocess.TimeoutExpired, FileNotFoundError):
            res = "unknown"
        finally:
            os.unlink(p)
        self.stats.cvc5_time += time.time() - t
        return res

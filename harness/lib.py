import contextlib
import importlib
import inspect
import json
import os
import random
import signal
import time


class Timeout(BaseException):
    pass


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "signatures.json")) as _fh:
    SIGS = json.load(_fh)


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(seed * 7919 + sum(map(ord, pid)))
        self.evaluations = 0
        self.failures, self.samples, self.skipped = [], [], []
        self.checks = {}
        self._seen = set()
        self.t0 = time.time()
        self.budget = 200 if tier == "quick" else 1800

    def n(self, quick, thorough=None):
        return quick if self.tier == "quick" else (thorough or quick * 10)

    def ok(self, check):
        self.evaluations += 1
        self.checks[check] = self.checks.get(check, 0) + 1

    def out_of_time(self):
        return time.time() - self.t0 > self.budget

    def fail(self, check, key, **info):
        k = "%s:%s" % (check, key)
        if k in self._seen and len(self.failures) > 5:
            return
        self._seen.add(k)
        self.failures.append(dict(check=check, key=k, **{a: (b if isinstance(b, (str, int, list, dict, type(None))) else repr(b)) for a, b in info.items()}))

    def expect(self, check, cond, key="", **info):
        self.ok(check)
        if not cond:
            self.fail(check, key, **info)
        return cond

    def same(self, check, got, want, key="", **info):
        self.ok(check)
        if got != want:
            self.fail(check, key, got=repr(got)[:1500], want=repr(want)[:1500], **info)
            return False
        return True

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(repr(s)[:300])

    def get(self, target):
        """real object, or None (recorded as skipped) if it no longer exists"""
        try:
            f = resolve(target)
        except (ImportError, AttributeError):
            self.skipped.append(target)
            return None
        names = SIGS.get(target)
        if names is not None:
            # an internal function whose call shape changed is no longer the function under contract
            try:
                sig = inspect.signature(f)
                sig.bind(*names)
                sig.bind(**{n: n for n in names})
            except TypeError:
                self.skipped.append(target + " (call shape changed)")
                return None
            except ValueError:
                pass
        return f


def resolve(target):
    m, q = target.split(":")
    o = importlib.import_module(m)
    for p in q.split("."):
        o = getattr(o, p)
    return o


@contextlib.contextmanager
def limit(seconds=20):
    def h(s, f):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


HANGS = [0]


class Enough(BaseException):
    """several calls did not come back; they are reported, no need to wait for more"""


def outcome(f, *a, _limit=20, **k):
    """('return', v) | ('raise', ExcClassName, str) | ('hang',)"""
    if HANGS[0] >= 3:
        raise Enough()
    try:
        with limit(_limit):
            return ("return", f(*a, **k))
    except Timeout:
        HANGS[0] += 1
        return ("hang",)
    except BaseException as ex:
        if isinstance(ex, (SystemExit, KeyboardInterrupt)) and not getattr(ex, "_planted", False):
            if isinstance(ex, KeyboardInterrupt):
                raise
        return ("raise", type(ex).__name__, str(ex)[:200])


@contextlib.contextmanager
def patched(*pairs):
    """patched((module, name, value), ...) -- every module of refextract that holds the same
    object under any name gets the stand-in, so moved imports do not matter"""
    import sys
    undo = []
    for mod, name, value in pairs:
        old = getattr(mod, name)
        for mn, m in list(sys.modules.items()):
            if m is not None and mn.split(".")[0] in ("refextract", "spec"):
                for k, v in list(vars(m).items()):
                    if v is old:
                        undo.append((m, k, v))
                        setattr(m, k, value)
        if not any(m is mod and k == name for m, k, _ in undo):
            undo.append((mod, name, old))
            setattr(mod, name, value)
    try:
        yield
    finally:
        for m, k, v in reversed(undo):
            setattr(m, k, v)


# ---------------------------------------------------------------- text generators
ALPH = "abcXYZ019 .,;:()[]{}-/\"'\u00e9\u00df\u0131\u00b2\u03b1\u4e00\U0001d400\t"


def rstr(rng, n=12, alph=ALPH):
    return "".join(rng.choice(alph) for _ in range(rng.randrange(n + 1)))


def compare(rep, check, real, spec, args=(), kw=None, stubs=(), key="", frame=(), exc="class", show=None, _limit=20):
    """run the real function and its executable specification on copies of the same arguments
    (and the same stand-ins for callees); results, exception class and final arguments must agree"""
    import copy
    kw = kw or {}
    a1, k1 = copy.deepcopy((args, kw))
    a2, k2 = copy.deepcopy((args, kw))
    with patched(*stubs):
        got = outcome(real, *a1, _limit=_limit, **k1)
        want = outcome(spec, *a2, _limit=_limit, **k2)
    if got[0] == "raise":
        got = got[:2] if exc == "class" else got[:1]
    if want[0] == "raise":
        want = want[:2] if exc == "class" else want[:1]
    ok = rep.same(check, got, want, key=key, args=repr((args, kw))[:900] if show is None else show)
    for i in frame:
        ok = rep.same(check + ":final-arg%s" % i, a1[i], a2[i], key=key, args=repr((args, kw))[:900]) and ok
    return ok, got

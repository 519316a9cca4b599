import copy
from harness.lib import *
from harness.corpus import BASE, lines as mklines
import spec.s_link as sp


class CB:
    """stateful callback: result depends on how often and with what it was called"""

    def __init__(self, plan):
        self.plan, self.calls = plan, []

    def __deepcopy__(self, memo):
        return self

    def __call__(self, el):
        self.calls.append(copy.deepcopy(el))
        r = self.plan[(len(self.calls) - 1) % len(self.plan)] if self.plan else None
        if isinstance(r, type):
            raise r("planned")
        return r


ERRS = [IndexError, KeyError, LookupError, ValueError, RuntimeError, AttributeError, TypeError, AssertionError, StopIteration]


def run(rep):
    rng = rep.rng
    f = rep.get("refextract.references.engine:associate_recids")
    if f:
        plans = [[], [1], [None], [0], [""], [1, 2, 3], [None, 5]] + [[1, e, 2] for e in ERRS] + [[e] for e in ERRS]
        for plan in plans:
            for n in range(5):
                els = [{"type": rng.choice(["JOURNAL", "MISC", "DOI"]), "misc_txt": str(i)} for i in range(n)]
                if n and rng.random() < .3:
                    els[0]["recid"] = 99
                a, b = CB(plan), CB(plan)
                e1, e2 = copy.deepcopy(els), copy.deepcopy(els)
                o1, o2 = outcome(f, e1, a), outcome(sp.associate_recids, e2, b)
                rep.same("associate", (o1[:2], e1, a.calls), (o2[:2], e2, b.calls), key="associate", elements=repr(els), plan=repr(plan))
                if o1[0] == "return":
                    rep.expect("same-list", o1[1] is e1, key="identity")
    g = rep.get("refextract.references.engine:add_recid_elements")
    if g:
        for _ in range(rep.n(500, 5000)):
            cs = [[dict({"type": rng.choice(["JOURNAL", "MISC"]), "misc_txt": "x", "i": i}, **({"recid": rng.choice([None, 0, "", 1, 2, "3"])} if rng.random() < .6 else {}))
                   for i in range(rng.randrange(5))] for _ in range(rng.randrange(4))]
            compare(rep, "add", g, sp.add_recid_elements, (cs,), frame=(0,), key="add")
    pipeline(rep)


def strip(cs):
    return [[{k: v for k, v in el.items() if k != "recid"} for el in c if el["type"] != "RECID"] for c in cs]


def pipeline(rep):
    rng = rep.rng
    pl = rep.get("refextract.references.engine:parse_reference_line")
    gk = rep.get("refextract.references.engine:get_kbs")
    pr = rep.get("refextract.references.engine:parse_references")
    if not pl or not gk or not pr:
        return
    kbs = gk()
    for line in list(BASE) + mklines(rng, rep.n(25, 250)):
        base = outcome(pl, line, kbs)
        if base[0] != "return":
            continue
        rep.expect("no-callback", not any(el["type"] == "RECID" or el.get("recid") for c in base[1][0] for el in c), key="none", line=line, got=repr(base[1][0])[:500])
        n = [0]

        def ident(el):
            n[0] += 1
            calls.append(el)
            return rng2.choice([None, n[0], "", n[0] + 1000])
        for variant in range(2):
            calls, n[0], rng2 = [], 0, random.Random(variant)
            o = outcome(pl, line, kbs, linker_callback=ident)
            if not rep.expect("callback-line", o[0] == "return", key="raise", line=line, got=repr(o)[:300]):
                continue
            rep.same("changes-nothing-else", strip(o[1][0]), strip(base[1][0]), key="else", line=line)
            for c in o[1][0]:
                own = [el for el in c if el["type"] != "RECID"]
                ids = [el.get("recid") for el in own if el.get("recid")]
                recs = [el for el in c if el["type"] == "RECID"]
                rep.same("one-recid", [r["recid"] for r in recs], ids[:1], key="recid", line=line, citation=repr(c)[:500])
                miss = [el for el in own if not any(x is el for x in calls)]
                rep.expect("every-element-linked", not miss, key="missed", line=line, missed=repr(miss)[:300])
            # the value held is the one of the last call for that element
            last = {}
            rr = random.Random(variant)
            vals, k = [], 0
            for el in calls:
                k += 1
                vals.append(rr.choice([None, k, "", k + 1000]))
                last[id(el)] = vals[-1]
            for c in o[1][0]:
                for el in c:
                    if id(el) in last:
                        rep.same("value", el.get("recid"), last[id(el)], key="value", line=line)
        for exc in (IndexError, KeyError):
            def bad(el):
                raise exc("x")
            o = outcome(pl, line, kbs, linker_callback=bad)
            rep.same("lookup-failure", strip(o[1][0]) if o[0] == "return" else o, strip(base[1][0]), key="lookup", line=line)
            if o[0] == "return":
                rep.expect("lookup-failure-none", not any(el["type"] == "RECID" for c in o[1][0] for el in c), key="lookup", line=line)
        if any(base[1][0]):
            def bad2(el):
                raise RuntimeError("boom")
            o = outcome(pl, line, kbs, linker_callback=bad2)
            rep.same("other-error", o[:2], ("raise", "RuntimeError"), key="other", line=line)
    for line in BASE[:6]:
        o = outcome(pr, [line], linker_callback=lambda el: 77)
        rep.expect("reported", o[0] == "return" and all(r.get("recid") == ["77"] for r in o[1][0]), key="reported", line=line, got=repr(o)[:400])
        o = outcome(pr, [line])
        rep.expect("not-reported", o[0] == "return" and all("recid" not in r for r in o[1][0]), key="reported", line=line, got=repr(o)[:400])

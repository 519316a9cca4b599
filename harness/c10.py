import copy
from harness.lib import *
from harness.corpus import *

K = "refextract.references.kbs:"


class Bad(ValueError):
    pass


def snap(o):
    """structural copy of a knowledge base"""
    if isinstance(o, dict):
        return [(snap(k), snap(v)) for k, v in o.items()]
    if isinstance(o, (list, tuple)):
        return [snap(x) for x in o]
    if isinstance(o, (set, frozenset)):
        return sorted(map(repr, o))
    return repr(o)


def histories(rep, rng):
    import refextract.references.kbs as mod
    if not rep.get(K + "get_kbs") or not rep.get(K + "load_kb_by_type"):
        return
    for _ in range(rep.n(250, 4000)):
        cfg = {k: "/shipped/" + k for k in rng.sample(["journals", "journals_re", "books", "authors", "publishers"], rng.randrange(1, 5))}
        calls = []
        loaded = {}

        def stand_in(kb_type, kb):
            calls.append((kb_type, copy.deepcopy(kb)))
            if "bad" in str(kb):
                raise Bad(kb_type)
            return ["loaded", kb_type, copy.deepcopy(kb)]
        shared = {"a": "b"}
        with patched((mod, "load_kb_by_type", stand_in), (mod, "CFG_REFEXTRACT_KBS", dict(cfg))):
            cache, inputs = {}, {}
            hist, earlier = [], []
            for _step in range(rng.randrange(1, 9)):
                ov = {}
                for k in list(cfg):
                    if rng.random() < .5:
                        ov[k] = rng.choice([None, "", "/x/" + k, "/y/" + k, "/bad/" + k, {"a": "b"}, {"a": "c"}, {}, shared, ["p---q"], {"x": "bad"}])
                if rng.random() < .3:
                    shared["a"] = rng.choice(["b", "d", "e"])
                arg = rng.choice([ov, ov, ov, None, {}])
                if isinstance(arg, dict):
                    arg = {k: (v if v is shared else copy.deepcopy(v)) for k, v in arg.items()}
                want = {k: copy.deepcopy((arg or {}).get(k) or cfg[k]) for k in cfg}
                hist.append(copy.deepcopy(arg))
                before = copy.deepcopy(arg)
                n0 = len(calls)
                o = outcome(mod.get_kbs, arg, cache, inputs)
                info = dict(history=repr(hist)[:900], cfg=repr(cfg)[:300])
                fails = any("bad" in str(v) for v in want.values())
                for t, kb in calls[n0:]:
                    if t not in loaded or loaded[t] != kb or "bad" in str(kb):
                        pass
                    else:
                        rep.fail("reloaded", "reloaded", kind=t, source=repr(kb), **info)
                    rep.ok("reloaded")
                    if "bad" not in str(kb):
                        loaded[t] = kb
                rep.same("argument", arg, before, key="argument", **info)
                if fails:
                    rep.expect("failure", o[:2] == ("raise", "Bad"), key="failure", got=repr(o)[:300], **info)
                elif rep.expect("returns", o[0] == "return", key="returns", got=repr(o)[:300], **info):
                    for k in cfg:
                        rep.same("requested", o[1].get(k), ["loaded", k, want[k]], key="requested", **info)
                    earlier.append((o[1], {k: ["loaded", k, want[k]] for k in cfg}))
                for r, w in earlier:
                    # what an earlier call was given stays what it asked for
                    rep.same("earlier", {k: r.get(k) for k in w}, w, key="earlier", **info)


LINE = "[1] A. Author, Foo Bar Rev. 12 (1999) 345"


def end_to_end(rep, rng):
    pr = rep.get("refextract.references.engine:parse_references")
    gk = rep.get(K + "get_kbs")
    if not pr:
        return

    def jr(line, **k):
        o = outcome(pr, [line], reference_format="{title},{volume},{page}", _limit=60, **k)
        return [x for r in o[1][0] for x in r.get("journal_reference", [])] if o[0] == "return" else o
    ov1, ov2 = {"journals": {"Foo Bar Rev": "FBR"}}, {"journals": {"Foo Bar Rev": "Other"}}
    calls = [(None, [], "plain"), (ov1, ["FBR,12,345"], "ov1"), (ov2, ["Other,12,345"], "ov2"), ({"journals": None}, [], "none"), ({"journals": "/no/such/file"}, None, "missing"),
             ({"journals_re": ["FOO BAR REV---Wrong"]}, None, "re"), ({"journals": {1: 2}}, None, "malformed")]
    for _ in range(rep.n(14, 60)):
        hist = []
        for _s in range(rng.randrange(2, 6)):
            ov, want, name = rng.choice(calls)
            hist.append(name)
            got = jr(LINE, override_kbs_files=copy.deepcopy(ov))
            if want is not None:
                rep.same("e2e-history", got, want, key="e2e-history", history=hist)
            elif name in ("missing", "malformed"):
                rep.expect("e2e-error", got and got[0] == "raise", key="e2e-error", history=hist, got=repr(got)[:200])
        if rep.out_of_time():
            return
    # a regular expression of one call does not change the titles of the next
    jr("[1] A. Author, Phys Rev 12 (1999) 345", override_kbs_files={"journals_re": ["PHYS REV---Nonsense"]})
    rep.same("e2e-re", jr("[1] A. Author, Phys Rev 12 (1999) 345"), ["Phys. Rev.,12,345"], key="e2e-re")
    # a dictionary changed by its owner is a new knowledge base
    d = {"Foo Bar Rev": "FBR"}
    rep.same("e2e-own", jr(LINE, override_kbs_files={"journals": d}), ["FBR,12,345"], key="e2e-own")
    d["Foo Bar Rev"] = "New"
    rep.same("e2e-own", jr(LINE, override_kbs_files={"journals": d}), ["New,12,345"], key="e2e-own")
    # a call made from the linking callback does not disturb the one in progress
    lines = [LINE, LINE, LINE]

    def cb(el):
        pr([LINE], override_kbs_files={"journals": {"Zzz": "Z"}})
    o = outcome(pr, lines, reference_format="{title},{volume},{page}", override_kbs_files=ov1, linker_callback=cb, _limit=120)
    got = [x for r in o[1][0] for x in r.get("journal_reference", [])] if o[0] == "return" else o
    rep.same("e2e-nested", got, ["FBR,12,345"] * 3, key="e2e-nested")
    # processing leaves the knowledge bases as they were
    if gk:
        for ov in (None, {"journals_re": ["DAN---Dokl.Akad.Nauk Ser.Fiz."], "journals": {"Foo Bar Rev": "FBR", "DAN": "Dan"}}):
            k = gk(ov)
            s = {t: snap(v) for t, v in k.items()}
            for line in BASE + [LINE, "[2] DAN 12 (1999) 345, ibid 13 (2000) 12", "B. B, DAN 34, 55 (1990)"]:
                outcome(pr, [line], override_kbs_files=ov, _limit=60)
            k2 = gk(ov)
            for t in s:
                rep.same("unmodified", snap(k2[t]), s[t], key="unmodified", kind=t)


def run(rep):
    histories(rep, rep.rng)
    end_to_end(rep, rep.rng)

import itertools
from harness.lib import *
from harness.corpus import BASE, lines as mklines
import spec.s_lines as sp


def run(rep):
    rng = rep.rng
    f = rep.get("refextract.references.tag:sum_2_dictionaries")
    if f:
        keys = ["a", "b", "key", "misc", ""]
        for ka in itertools.product([None, 0, 3], repeat=3):
            for kb in itertools.product([None, 0, 5], repeat=3):
                a = {k: v for k, v in zip(keys, ka) if v is not None}
                b = {k: v for k, v in zip(keys, kb) if v is not None}
                one_sum(rep, f, a, b)
        for _ in range(rep.n(400, 4000)):
            mk = lambda: {rng.choice(keys + [1, ("x", 2), None, "NUCL PHYS"]): rng.choice([0, 1, 7, -2, 10**20]) for _ in range(rng.randrange(6))}
            one_sum(rep, f, mk(), mk())
    g = rep.get("refextract.references.engine:build_stats")
    if g:
        for _ in range(rep.n(200, 2000)):
            c = {k: rng.choice([0, 1, 2, 17, 1000]) for k in sp.NAMES}
            o = outcome(g, dict(c))
            if rep.expect("build_stats", o[0] == "return", key="raise", got=repr(o)):
                s = dict(o[1])
                date = s.pop("date", None)
                rep.expect("date", isinstance(date, str) and len(date) == 19, key="date", got=date)
                rep.same("build_stats", s, {"status": 0, "reportnum": c["reportnum"], "title": c["title"], "author": c["auth_group"], "url": c["url"], "doi": c["doi"], "misc": c["misc"],
                                            "old_stats_str": "0-%d-%d-%d-%d-%d-%d" % (c["reportnum"], c["title"], c["auth_group"], c["url"], c["doi"], c["misc"])}, key="stats", counts=repr(c))
    stubbed(rep)
    e2e(rep)


def one_sum(rep, f, a, b):
    compare(rep, "sum", f, sp.sum_2_dictionaries, (a, b), frame=(0, 1), key="sum")
    o = outcome(f, dict(a), dict(b))
    if o[0] == "return":
        for k in set(a) | set(b) | {"zz"}:
            rep.expect("every-key", sp.post_every_key(a, b, k, o[1]), key="key", a=repr(a), b=repr(b), got=repr(o[1]))


def stubbed(rep):
    import refextract.references.engine as eng
    rng = rep.rng
    el = rep.get("refextract.references.engine:parse_references_elements")
    if not el:
        return

    def parse_line(line, kbs, bad_titles_count=None, linker_callback=None):
        h = sum(map(ord, line))
        bad = dict(bad_titles_count or {})
        bad[line[:2]] = bad.get(line[:2], 0) + 1
        return ([], "", {k: (h // (i + 1)) % 7 for i, k in enumerate(sp.NAMES)}, bad)
    for _ in range(rep.n(300, 3000)):
        ls = [rstr(rng, 6) for _ in range(rng.choice([0, 1, 2, 3, 8, 30]))]
        ls += ls[: rng.randrange(3)]
        stubs = [(eng, "parse_reference_line", parse_line)]
        compare(rep, "sums", lambda *a: el(*a)[1], sp.sums, (ls, {}), stubs=stubs, key="sums")
        compare(rep, "titles", lambda *a: el(*a)[2], lambda *a: sp.parse_references_elements(*a)[2], (ls, {}), stubs=stubs, key="titles")


STATS = ("reportnum", "title", "author", "url", "doi", "misc")


def e2e(rep):
    rng = rep.rng
    pr = rep.get("refextract.references.engine:parse_references")
    el = rep.get("refextract.references.engine:parse_references_elements")
    gk = rep.get("refextract.references.engine:get_kbs")
    if not pr:
        return
    ls = list(BASE) + mklines(rng, rep.n(30, 300))
    single, titles = {}, {}
    for l in ls:
        o = outcome(pr, [l], _limit=60)
        if o[0] == "return":
            single[l] = {k: o[1][1].get(k) for k in STATS}
            if el and gk:
                t = outcome(el, [l], gk())
                titles[l] = t[1][2] if t[0] == "return" else None
                if t[0] == "return":
                    rep.same("stats-are-counts", {k: t[1][1]["auth_group" if k == "author" else k] for k in STATS}, single[l], key="counts", line=l)
    ls = [l for l in ls if l in single]
    for _ in range(rep.n(8, 40)):
        rng.shuffle(ls)
        sub = ls[: rng.choice([2, 5, len(ls)])] + ls[:1]
        o = outcome(pr, sub, _limit=120)
        if not rep.expect("stats", o[0] == "return", key="raise", got=repr(o)[:300]):
            continue
        want = {k: sum(single[l][k] for l in sub) for k in STATS}
        rep.same("stats-sum", {k: o[1][1].get(k) for k in STATS}, want, key="sum", lines=sub[:8])
        if el and gk and all(titles.get(l) is not None for l in sub):
            t = outcome(el, sub, gk())
            w = {}
            for l in sub:
                for k, v in titles[l].items():
                    w[k] = w.get(k, 0) + v
            rep.same("title-counts", t[1][2] if t[0] == "return" else t, w, key="titles", lines=sub[:8])

import copy
import itertools
from harness.lib import *
import spec.s_split as sp

E = "refextract.references.engine:"
REP = ("REPORTNUMBER", "COLLABORATION", "AUTH", "MISC")
SMALL = [("MISC", "a"), ("MISC", "x;y"), ("AUTH", ""), ("JOURNAL", ""), ("REPORTNUMBER", ""), ("ARXIV", ""), ("COLLABORATION", ""), ("DOI", "z;")]
TEXTS = ["", "", "a", "b ", ";", "p;q", "p; q; r", ";;", "see; "]


def make(kind, misc, i):
    e = {"type": "REPORTNUMBER" if kind == "ARXIV" else kind, "misc_txt": misc, "id": i}
    if kind == "AUTH":
        e["auth_txt"] = "A%d" % i
    if kind == "ARXIV":
        e["is_arxiv"] = True
    elif kind == "REPORTNUMBER" and i % 2:
        e["is_arxiv"] = False
    if kind == "COLLABORATION":
        e["collaboration"] = "c%d" % (i % 2)
    if kind == "DOI":
        e["doi_string"] = "10.1/%d" % i
    if kind == "JOURNAL":
        e.update(title="T", volume="1", page="2", year="")
    return e


def kindof(e):
    return "ARXIV" if e.get("is_arxiv") else e["type"]


def judge(rep, elements, cits, tag):
    """the statement itself, independent of how the splitting is done"""
    info = dict(elements=repr(elements)[:700], citations=repr(cits)[:900])
    # every item other than authors in exactly one citation, order kept
    want = [e["id"] for e in elements if e["type"] != "AUTH"]
    flat = [e for c in cits for e in c]
    got = [e["id"] for e in flat if e["type"] != "AUTH" and "id" in e]
    rep.expect(tag + "items", got == want, key="items", **info)
    byid = {e["id"]: e for e in elements}
    for e in flat:
        if "id" in e:
            o = byid[e["id"]]
            rep.expect(tag + "unchanged", {k: v for k, v in e.items() if k != "misc_txt"} == {k: v for k, v in o.items() if k != "misc_txt"}, key="unchanged", **info)
    # text: the pieces in front of a split and the element's own text, with the semicolon, are the original
    texts, pend = {}, None
    for e in flat:
        if e["type"] == "MISC" and "id" not in e:
            rep.expect(tag + "added", set(e) == {"type", "misc_txt"} and pend is None, key="added", **info)
            pend = e["misc_txt"]
        elif e["type"] != "AUTH" or e["id"] not in texts:
            if e["type"] == "AUTH" and pend is not None and not byid[e["id"]]["misc_txt"].startswith(pend + ";"):
                continue       # carried over in front of the element that was split
            texts[e["id"]] = e["misc_txt"] if pend is None else pend + ";" + e["misc_txt"]
            pend = None
    for e in elements:
        if e["type"] != "AUTH":
            rep.expect(tag + "text", texts.get(e["id"]) == e["misc_txt"], key="text", **info)
    # authors: never lost; where they are: own citation and/or front of the next one
    for a in [e for e in elements if e["type"] == "AUTH"]:
        n = [i for i, c in enumerate(cits) for e in c if e.get("id") == a["id"]]
        rep.expect(tag + "author", len(n) >= 1 and len(set(n)) == len(n) and n == list(range(n[0], n[0] + len(n))), key="author", where=n, **info)
        for i in n[1:]:
            rep.expect(tag + "author-front", cits[i][0].get("id") == a["id"], key="author-front", **info)
    for c in cits:
        ks = [kindof(e) for e in c if kindof(e) not in REP]
        rep.expect(tag + "kinds", len(ks) == len(set(ks)), key="kinds", **info)


def run(rep):
    rng = rep.rng
    it = rep.get(E + "split_citations_iter")
    if it:
        def one(elements, tag):
            a, b = copy.deepcopy(elements), copy.deepcopy(elements)
            o = outcome(lambda: list(it(a)))
            if rep.expect(tag + "returns", o[0] == "return" and all(isinstance(c, list) and all(isinstance(e, dict) for e in c) for c in o[1]), key="returns", elements=repr(elements)[:600], got=repr(o)[:300]):
                judge(rep, elements, o[1], tag)
                rep.same(tag + "split", o[1], sp.split(b), key="split", elements=repr(elements)[:600])
        for n in range(0, 5):
            for combo in itertools.product(SMALL, repeat=n):
                one([make(k, m, i) for i, (k, m) in enumerate(combo)], "all-")
        kinds = [k for k, _ in SMALL] + ["URL", "BOOK", "YEAR", "QUOTED", "HDL"]
        for _ in range(rep.n(4000, 60000)):
            ks = [rng.choice(rng.sample(kinds, rng.randrange(2, 7))) for _ in range(rng.randrange(1, 12))]
            one([make(k, rng.choice(TEXTS), i) for i, k in enumerate(ks)], "rnd-")
    need = rep.get(E + "split_needed")
    if need:
        for k, m, s in itertools.product(["MISC", "AUTH", "JOURNAL", "REPORTNUMBER", "ARXIV", "COLLABORATION"], ["", "a;b"], [(), ("JOURNAL",), ("REPORTNUMBER", "ARXIV"), ("COLLABORATION",), ("ARXIV", "JOURNAL")]):
            for last in [None] + list(s):
                e = make(k, m, 1)
                rep.same("split_needed", outcome(need, e, set(s), last), ("return", sp.split_needed(e, set(s), last)), key="split_needed", element=repr(e), types=repr(s), last=last)
    dups(rep, rng)
    end_to_end(rep)


def dups(rep, rng):
    fs = {n: rep.get(E + "remove_duplicated_" + n) for n in ("authors", "dois", "collaborations")}
    for _ in range(rep.n(4000, 40000)):
        cits = []
        i = 0
        for _c in range(rng.choice([0, 1, 1, 2, 3])):
            c = []
            for _e in range(rng.randrange(0, 7)):
                e = make(rng.choice(["AUTH", "AUTH", "DOI", "DOI", "COLLABORATION", "COLLABORATION", "JOURNAL", "MISC"]), rng.choice(["", "m", "n"]), i)
                i += 1
                if e["type"] == "COLLABORATION":
                    e["collaboration"] = rng.choice(["x", "y", "X", "xy", "x y"])
                c.append(e)
            if c and rng.random() < .2:
                c.append(copy.deepcopy(rng.choice(c)))
            cits.append(c)
        for name, f in fs.items():
            if not f:
                continue
            a = copy.deepcopy(cits)
            o = outcome(f, a)
            if not rep.expect("dup-" + name, o[0] == "return", key="returns", got=repr(o)[:300], citations=repr(cits)[:600]):
                continue
            want = [expected(name, c) for c in cits]
            got = [sorted(map(repr, c)) if False else c for c in a]
            rep.expect("dup-" + name, len(got) == len(want) and all(any(g == w for w in ws) for g, ws in zip(got, want)), key=name, citations=repr(cits)[:700], got=repr(got)[:700])


def expected(name, c):
    """acceptable results for one citation (which of two equal elements goes is immaterial)"""
    c = copy.deepcopy(c)
    if name == "authors":
        sp.remove_duplicated_authors([c])
        return [c]
    key = (lambda e: 1) if name == "dois" else (lambda e: e["collaboration"])
    t = "DOI" if name == "dois" else "COLLABORATION"
    out, alt, seen = [], list(c), set()
    for e in c:
        if e["type"] == t and key(e) in seen:
            alt.remove(e)          # the first of several equal elements goes
            continue
        if e["type"] == t:
            seen.add(key(e))
        out.append(e)
    return [out, alt]


def end_to_end(rep):
    pr = rep.get("refextract.references.engine:parse_references")
    if not pr:
        return
    J = lambda i: "Phys. Rev. D %d (1999) %d" % (10 + i, 100 + i)
    for n in range(1, 7):
        for sep in ("; ", " ", ", "):
            line = "[1] A. Author, " + sep.join(J(i) for i in range(n))
            o = outcome(pr, [line], reference_format="{title},{volume},{page}", _limit=60)
            if not rep.expect("e2e", o[0] == "return", key="e2e", line=line, got=repr(o)[:300]):
                continue
            refs = o[1][0]
            got = [x for r in refs for x in r.get("journal_reference", [])]
            rep.same("e2e-journals", got, ["Phys. Rev. D,%d,%d" % (10 + i, 100 + i) for i in range(n)], key="e2e-journals", line=line)
            rep.expect("e2e-one-each", all(len(r.get("journal_reference", [])) <= 1 for r in refs), key="e2e-one-each", line=line, got=repr(refs)[:600])
            rep.expect("e2e-author", any("A. Author" in x for r in refs for x in r.get("author", [])), key="e2e-author", line=line, got=repr(refs)[:600])
    rns = ["hep-th/9711%03d" % i for i in range(1, 6)]
    for n in range(1, 5):
        line = "[3] B. Writer, " + "; ".join(rns[:n])
        o = outcome(pr, [line], _limit=60)
        got = [x for r in o[1][0] for x in r.get("reportnumber", [])] if o[0] == "return" else o
        rep.expect("e2e-reports", o[0] == "return" and [g.replace("arXiv:", "") for g in got] == rns[:n], key="e2e-reports", line=line, got=repr(got)[:300])

import copy
from harness.lib import *
from harness.corpus import BASE, lines as mklines
import spec.s_lines as sp

M = ["[1]", "(2)", "{3}", "4.", " ", "", "[Foo90]", "[ 5 ]", "...", "[6.1]", "*", "[].", "a b", "[(x)]", ". 7 .", "\u00e9"]


def run(rep):
    rng = rep.rng
    f = rep.get("refextract.references.record:format_marker")
    if f:
        for m in M + [rstr(rng) for _ in range(rep.n(200))]:
            compare(rep, "format_marker", f, sp.format_marker, (m,), key="marker")
    f = rep.get("refextract.references.engine:remove_reference_line_marker")
    if f:
        for m in M + ["[1]x", "1)", "1}", "<1>", "1 ", "1", "12.5", "12.", "[a1]", "[Ab+ 12c]", "[ ]", "* x", "\t[1]\n"]:
            for rest in ("", " A. B", "text", "  (2) x", "\u00a0y", "."):
                for pre in ("", " ", "\n\t"):
                    compare(rep, "line_marker", f, sp.remove_reference_line_marker, (pre + m + rest,), key="line-marker")
        for _ in range(rep.n(500, 8000)):
            compare(rep, "line_marker", f, sp.remove_reference_line_marker, (rstr(rng, 14, "[](){}<>.* 019aZ:-+\t\u00b2\u0661"),), key="line-marker")
    stubbed(rep)
    e2e(rep)


def stubbed(rep):
    rng = rep.rng
    import refextract.references.engine as eng
    import refextract.references.record as rec
    import refextract.references.api as api
    el = rep.get("refextract.references.engine:parse_references_elements")
    br = rep.get("refextract.references.record:build_references")
    pr = rep.get("refextract.references.engine:parse_references")
    es = rep.get("refextract.references.api:extract_references_from_string")

    def parse_line(line, kbs, bad_titles_count=None, linker_callback=None):
        h = sum(map(ord, line))
        if h % 17 == 16:
            raise ValueError(line)
        bad = dict(bad_titles_count or {})
        bad[line[:2]] = bad.get(line[:2], 0) + 1
        return ([[{"t": line, "i": i}] for i in range(h % 4)], "[%d]" % (h % 9) if h % 3 else " ", {k: (h * (i + 1)) % 7 for i, k in enumerate(sp.NAMES)}, bad)

    for _ in range(rep.n(300, 3000)):
        ls = [rstr(rng, 6) for _ in range(rng.choice([0, 1, 2, 3, 8]))]
        if ls and rng.random() < .4:
            ls.append(ls[0])
        stubs = [(eng, "parse_reference_line", parse_line)] + ([(eng, "wash_and_repair_reference_line", lambda s: s.strip())] if hasattr(eng, "wash_and_repair_reference_line") else [])
        if el:
            compare(rep, "elements", lambda *a, **k: el(*a, **k)[0], lambda *a, **k: sp.parse_references_elements(*a, **k)[0], (ls, {"k": 1}), kw=rng.choice([{}, {"linker_callback": None}]), stubs=stubs, frame=(0, 1), key="elements")
    bad = {"n": 0}

    def fields(els, marker, raw, fmt):
        return [{"e": repr(els), "m": marker, "r": raw, "f": fmt}]
    for _ in range(rep.n(300, 3000)):
        cs = [{"elements": [[{"x": rng.randrange(99)}] * rng.randrange(3) for _ in range(rng.randrange(4))], "line_marker": rng.choice(M), "raw_ref": rstr(rng, 5)} for _ in range(rng.randrange(6))]
        if br:
            compare(rep, "build", br, sp.build_all, (cs, rng.choice(["{title}", False])), stubs=[(rec, "build_reference_fields", fields)], frame=(0,), key="build")
    calls = []

    def mk(name, ret):
        def g(*a, **k):
            calls.append((name, repr(a), repr(sorted(k.items()))))
            return ret
        return g
    if pr:
        for kw in ({}, {"recid": 1}, {"override_kbs_files": {"journals": {"a": "b"}}}, {"reference_format": "{page}", "linker_callback": "cb"}):
            compare(rep, "parse_references", pr, sp.parse_references, (["l1", "l2"],), kw=kw, key="glue",
                    stubs=[(eng, "get_kbs", lambda custom_kbs=None: ("kbs", repr(custom_kbs))), (eng, "parse_references_elements", lambda s, k, linker_callback=None: ([(tuple(s), k, linker_callback)], {"c": 1}, {})),
                           (eng, "build_references", lambda c, f=False: [("built", c, f)]), (eng, "build_stats", lambda c: ("stats", tuple(c)))])
    if es:
        for info in (None, {}, {"marker_pattern": "p", "start_line": 3}):
            for only in (True, False):
                compare(rep, "from_string", es, sp.extract_references_from_string, ("a\nb\n\nc",), kw=dict(is_only_references=only, recid=4, reference_format="{x}", linker_callback="cb", override_kbs_files={"a": 1}), key="string",
                        stubs=[(api, "extract_references_from_fulltext", lambda b: (["full"] + list(b), 0, 0)), (api, "rebuild_reference_lines", lambda b, p: ["reb", p] + list(b)),
                               (api, "get_reference_section_beginning", lambda b: copy.copy(info)), (api, "find_numeration_in_body", lambda b: ({"marker_pattern": "q"}, False)),
                               (api, "parse_references", lambda l, recid=None, override_kbs_files=None, reference_format=None, linker_callback=None: (("refs", tuple(l), recid, repr(override_kbs_files), reference_format, linker_callback), {}))])
    ej = rep.get("refextract.references.api:extract_journal_reference")
    if ej:
        for _ in range(rep.n(100)):
            res = [[{"type": rng.choice(["JOURNAL", "MISC", "AUTH"]), "n": (i, j)} for i in range(rng.randrange(3))] for j in range(rng.randrange(4))]
            compare(rep, "journal", ej, sp.extract_journal_reference, ("line",), stubs=[(api, "get_kbs", lambda custom_kbs=None: 1), (api, "parse_reference_line", lambda l, k: (copy.deepcopy(res), 1, 2, 3))], key="journal")


def e2e(rep):
    """real pipeline: what is reported for a list of lines is what is reported for each line alone, with that line's text and marker"""
    rng = rep.rng
    pr = rep.get("refextract.references.engine:parse_references")
    rm = rep.get("refextract.references.engine:remove_reference_line_marker")
    pl = rep.get("refextract.references.engine:parse_reference_line")
    gk = rep.get("refextract.references.engine:get_kbs")
    wash = rep.get("refextract.references.text:wash_and_repair_reference_line")
    if not pr:
        return
    ls = list(BASE) + mklines(rng, rep.n(40, 400))
    single = {}
    for l in ls:
        o = outcome(pr, [l], _limit=60)
        if not rep.expect("line-alone", o[0] == "return", key="line", line=l, got=repr(o)[:300]):
            continue
        single[l] = o[1][0]
        mk = sp.remove_reference_line_marker(wash(l))[0].strip("[](){}. ") if wash else None
        for r in o[1][0]:
            rep.same("raw", r.get("raw_ref"), [l], key="raw", line=l)
            if mk is not None:
                rep.same("marker", r.get("linemarker"), [mk] if mk.strip("., [](){}") else None, key="marker", line=l)
        if pl and gk and wash:
            n = outcome(pl, wash(l), gk())
            if n[0] == "return":
                rep.same("one-per-citation", len(o[1][0]), len(n[1][0]), key="count", line=l)
    ls = [l for l in ls if l in single]
    for _ in range(rep.n(6, 40)):
        rng.shuffle(ls)
        k = rng.choice([3, 10, len(ls)])
        o = outcome(pr, ls[:k], _limit=120)
        rep.same("locality", o[1][0] if o[0] == "return" else o, [r for l in ls[:k] for r in single[l]], key="locality", lines=ls[:k][:10])

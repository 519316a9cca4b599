import itertools
from harness.lib import *
import spec.s_extract as sp

KINDS = ("one", "many", "none", "empty", "value", "key", "runtime", "rec", "unicode", "stop", "assert")


class Boom(Exception):
    pass


def make_parser(plan, log):
    """stand-in for the parser: outcome per raw string given by plan (list of kinds by position)"""
    cnt = itertools.count()

    def parser(source, is_only_references=True, recid=None, reference_format="x", linker_callback=None, override_kbs_files=None):
        i = next(cnt)
        log.append((source, is_only_references, recid, reference_format, linker_callback, override_kbs_files))
        k = plan[i % len(plan)] if plan else "one"
        if k == "one":
            return [{"raw_ref": [source], "n": i}]
        if k == "many":
            return [{"raw_ref": [source], "n": i, "first": 1}, {"second": i}, {"third": 3}]
        if k == "none":
            return None
        if k == "empty":
            return []
        raise {"value": ValueError, "key": KeyError, "runtime": RuntimeError, "rec": RecursionError, "stop": StopIteration,
               "assert": AssertionError, "unicode": Boom}[k]("planted %d" % i)
    return parser


def both(rep, name, args, stub_name, plan, check, spec_fn):
    import copy
    import refextract.references.api as api
    import refextract.extract as ex
    real = getattr(ex, name, None)
    if real is None:
        rep.skipped.append(name)
        return
    l1, l2 = [], []
    with patched((api, stub_name, make_parser(plan, l1))):
        got = outcome(real, *copy.deepcopy(args))
    old = getattr(sp, stub_name)
    setattr(sp, stub_name, make_parser(plan, l2))
    try:
        want = outcome(spec_fn, *copy.deepcopy(args))
    finally:
        setattr(sp, stub_name, old)
    if rep.same(check, got, want, key=name, args=repr(args)[:500], plan=list(plan)):
        rep.same(check + ":calls", l1, l2, key=name, args=repr(args)[:500], plan=list(plan))


def run(rep):
    kb = {"PHYS REV": "Phys. Rev."}
    for n in range(0, 4):
        for plan in itertools.product(KINDS, repeat=n):
            both(rep, "extract_references_from_list", ([chr(97 + i) + " ref" for i in range(n)], kb), "extract_references_from_string", plan, "list", sp.extract_references_from_list)
    for _ in range(rep.n(400, 4000)):
        n = rep.rng.choice([1, 2, 3, 5, 8, 13, 40, 120, 300])
        refs = [rep.rng.choice(["", rstr(rep.rng), "dup", "[%d] x" % i, "a\nb"]) for i in range(n)]
        plan = [rep.rng.choice(KINDS) for _ in range(n)]
        both(rep, "extract_references_from_list", (refs, rep.rng.choice([kb, {}, None])), "extract_references_from_string", plan, "list-random", sp.extract_references_from_list)
    # end to end with the real parser: an entry for every input, raw text of its own input
    import refextract.extract as ex
    pool = ["[1] J. Smith, Phys. Rev. D 12 (1990) 123", "", "   ", "]]", "[2]", "Nothing here", "<cds.DOI />", "doi:10.1000/abc; doi:10.1000/def",
            "[3] A. Author, Nucl. Phys. B 1 (1999) 2; B. Other, Phys. Lett. B 3 (2000) 4", "\n\n", "a\nb", "[1] x\n[2] y"]
    for i in range(rep.n(15, 60)):
        refs = [rep.rng.choice(pool) for _ in range(rep.rng.randrange(1, 6))]
        o = outcome(ex.extract_references_from_list, refs, {})
        good = o[0] == "return" and isinstance(o[1], dict) and len(o[1].get("extracted_references", [])) == len(refs)
        rep.expect("list-real", good, key="count", refs=refs, got=repr(o)[:800])
        if good:
            for r, e in zip(refs, o[1]["extracted_references"]):
                raw = e.get("raw_ref")
                rep.expect("list-real-raw", isinstance(raw, list) and len(raw) == 1 and "".join(raw[0].split()) in "".join(r.split()),
                           key="raw", ref=r, entry=repr(e)[:400])
    rep.sample(pool)

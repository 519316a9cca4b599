import os
import re
import shutil
import string
import tempfile
from harness.lib import *

K = "refextract.references.kbs:"
PUNCT = ".,;'()-"


def simple(t):
    """a title as it appears in a simplified line"""
    out = ""
    for c in t:
        u = c.upper()
        c = u if len(u) == 1 else c
        out += " " if c in PUNCT or c == " " else c
    return " ".join(x for x in out.split(" ") if x)


WORDS = ["Foo", "Bar", "Rev", "Phys", "J", "Lett", "A", "B", "Großmann", "Int", "É", "Nucl", "x", "Conf", "Ser"]
SEPS = [" ", " ", " ", ". ", ".", "-", ", ", "  ", " (", ") ", "'", ". - ", ": ", " & ", "+"]


def title(rng):
    t = rng.choice(WORDS)
    for _ in range(rng.randrange(0, 4)):
        t += rng.choice(SEPS) + rng.choice(WORDS)
    return t + rng.choice(["", "", ".", ")", "+"])


def pad(rng):
    return rng.choice(["", "", " ", "   ", "\t"])


class Bench:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="c11-")
        self.n = 0

    def file(self, text):
        self.n += 1
        p = os.path.join(self.d, "kb%d" % self.n)
        with open(p, "w", encoding="utf-8") as fh:
            fh.write(text)
        return p


def sources(rng, bench, entries, dup=True):
    """the same entries as file, list, generator-free iterable and, without repetitions, dictionary"""
    lines = []
    for s, r in entries:
        if rng.random() < .2:
            lines.append(rng.choice(["# a comment", "#x---y", "#", "## " + s + "---" + r]))
        lines.append(pad(rng) + s + pad(rng) + "---" + pad(rng) + r + pad(rng))
    if rng.random() < .3:
        lines.append("# the end---of it")
    yield "file", bench.file("\n".join(lines) + rng.choice(["", "\n"]))
    yield "list", list(entries)
    yield "tuple", tuple(entries)
    if len(set(s for s, _ in entries)) == len(entries):
        yield "dict", dict(entries)


def load(rep, kind, kb):
    f = rep.get(K + "load_kb_by_type")
    return outcome(f, kind, kb, _limit=60) if f else None


def journals(rep, rng, bench):
    if not rep.get(K + "load_kb_by_type"):
        return
    fixed = [[("Foo. Bar", "FB")], [("A", "X"), ("A", "Y")], [("A", "B"), ("B", "C")], [("B", "C"), ("A", "B")], [("Ab", "Q. R"), ("Abc", "Q R"), ("a", "Q-R")], [],
             [("J. Phys.: Conf. Ser.", "J.Phys.Conf.Ser.")], [("A", "Foo Bar"), ("Foo. Bar", "Z")], [("A+B", "C*")]]
    for i in range(rep.n(250, 3000)):
        entries = fixed[i] if i < len(fixed) else [(title(rng), title(rng)) for _ in range(rng.randrange(1, 7))]
        if i >= len(fixed) and len(entries) > 1:
            if rng.random() < .5:
                entries.append((entries[0][0], title(rng)))
            if rng.random() < .4:
                entries.append((entries[0][1], title(rng)))
            if rng.random() < .4:
                entries.append((title(rng), entries[0][0]))
            if rng.random() < .3:
                entries.append((title(rng), entries[0][1].swapcase()))
            rng.shuffle(entries)
        for how, src in sources(rng, bench, entries):
            o = load(rep, "journals", src)
            info = dict(entries=repr(entries)[:600], source=how)
            if not rep.expect("journals-load", o[0] == "return" and len(o[1]) == 3, key="journals-load", got=repr(o)[:300], **info):
                continue
            kb, std, phrases = o[1]
            want = {}
            for s, r in entries:
                want[simple(s)] = r
            titles = {}
            for s, r in entries:
                titles.setdefault(simple(r), set()).add(r)
            ok = rep.same("journals-phrases", sorted(set(kb)), sorted(set(want) | set(titles)), key="journals-phrases", **info)
            ok = ok and rep.same("journals-closed", sorted(set(std)), sorted(set(kb)), key="journals-closed", **info)
            ok = ok and rep.same("journals-searched", sorted(set(phrases)), sorted(set(kb)), key="journals-searched", **info)
            if not ok:
                continue
            rep.expect("journals-longest-first", all(len(a) >= len(b) for a, b in zip(phrases, phrases[1:])), key="journals-longest-first", got=repr(phrases)[:600], **info)
            for p in kb:
                if p in want:
                    rep.same("journals-standard", std[p], want[p], key="journals-standard", phrase=p, **info)
                else:
                    rep.expect("journals-title", std[p] in titles[p], key="journals-title", phrase=p, got=std[p], **info)
                if p and p[0].isalpha():
                    for text in ("%s 12" % p, "X %s 12" % p):
                        m = kb[p].search(text)
                        rep.expect("journals-pattern", m is not None and m.group(1) == p and text[m.start(1):m.end(1)] == p, key="journals-pattern", phrase=p, text=text, **info)
                    rep.expect("journals-word", kb[p].search("X%s 12" % p) is None and kb[p].search("%sX 12" % p) is None, key="journals-word", phrase=p, **info)
        if rep.out_of_time():
            return


BAD = ["no separator", "---x", "x---", "  ---  ", "", "   ", "a--b", "a -- b", "a- --b"]


def malformed(rep, rng, bench):
    if not rep.get(K + "load_kb_by_type"):
        return
    for kind in ("journals", "publishers", "collaborations"):
        good = ["Foo---Bar", "Baz---Bar", "# remark", "Qux ---Foo"]
        for bad in BAD:
            for pos in range(len(good) + 1):
                lines = good[:pos] + [bad] + good[pos:]
                if kind == "publishers":
                    continue
                text = "\n".join(lines) + "\n"
                o = load(rep, kind, bench.file(text))
                rep.expect("malformed", o[0] == "raise", key="malformed-" + kind, file=text, got=repr(o)[:200])
        if kind == "publishers":
            for bad in BAD:
                o = load(rep, kind, bench.file("\n".join(["FOO---Foo", bad, "BAR---Bar"]) + "\n"))
                rep.expect("malformed", o[0] == "raise", key="malformed-" + kind, line=bad, got=repr(o)[:200])
    o = load(rep, "journals_re", bench.file("A---B\nnothing here\n"))
    rep.expect("malformed", o[0] == "raise", key="malformed-journals_re", got=repr(o)[:200])


NAMES = ["ATLAS Collaboration", "CMS", "The Big Experiment", "D0 Collaboration", "LIGO Scientific Collaboration", "BES III"]


def others(rep, rng, bench):
    f = rep.get(K + "load_kb_by_type")
    if not f:
        return
    for _ in range(rep.n(120, 1500)):
        # collaborations: every pattern of every collaboration is found
        ents = [(rng.choice(NAMES), rng.choice(["One", "Two", "Three"])) for _ in range(rng.randrange(1, 6))]
        for how, src in sources(rng, bench, ents):
            o = load(rep, "collaborations", src)
            info = dict(entries=repr(ents)[:500], source=how)
            if not rep.expect("collab-load", o[0] == "return", key="collab-load", got=repr(o)[:300], **info):
                continue
            rep.same("collab-names", sorted(o[1]), sorted({c for _, c in ents}), key="collab-names", **info)
            for s, c in ents:
                rep.expect("collab-found", c in o[1] and o[1][c].search("by the %s, Phys" % s) is not None, key="collab-found", pattern=s, **info)
                rep.expect("collab-found", c in o[1] and o[1][c].search(s.replace("Collaboration", "Coll.").upper()) is not None, key="collab-found2", pattern=s, **info)
                rep.expect("collab-only", c in o[1] and o[1][c].search("Nothing of the kind") is None, key="collab-only", pattern=s, **info)
        # publishers: the last entry for a name counts
        ents = [(rng.choice(["FOO", "BAR BAZ", "QUX", "NORTH HOLLAND"]), rng.choice(["Foo", "Bar", "Qux-Press"])) for _ in range(rng.randrange(1, 6))]
        for how, src in sources(rng, bench, ents):
            o = load(rep, "publishers", src)
            info = dict(entries=repr(ents)[:500], source=how)
            if not rep.expect("pub-load", o[0] == "return", key="pub-load", got=repr(o)[:300], **info):
                continue
            rep.same("pub-names", {k: v["repl"] for k, v in o[1].items()}, dict(ents), key="pub-names", **info)
            for k, v in o[1].items():
                rep.expect("pub-found", v["pattern"].search("by %s 1999" % k.title()) is not None and v["pattern"].search("X%s" % k) is None, key="pub-found", name=k, **info)
        # special journals: a set of titles
        ts = [title(rng) for _ in range(rng.randrange(0, 6))]
        lines = []
        for t in ts:
            lines += rng.choice([[], ["# no"], [""], ["  "], ["#" + t]]) + [pad(rng) + t + pad(rng)]
        for src in (bench.file("\n".join(lines) + "\n"), list(lines), [x + "\n" for x in lines]):
            o = load(rep, "special_journals", src)
            rep.expect("special", o[0] == "return" and set(o[1]) == {t.strip() for t in ts}, key="special", lines=repr(lines)[:500], got=repr(o)[:300])
        # books: looked up by title in upper case, the last one counts
        rows = [[rng.choice(["Smith, J.", "Doe"]), title(rng), str(rng.randrange(1900, 2020))] for _ in range(rng.randrange(0, 5))]
        if rows and rng.random() < .5:
            rows.append(["Last, A.", rng.choice(rows)[1], "2001"])
        o = load(rep, "books", [list(r) for r in rows])
        rep.expect("books", o[0] == "return" and {k: list(v) for k, v in o[1].items()} == {r[1].upper(): r for r in rows}, key="books", rows=repr(rows)[:500], got=repr(o)[:300])
        rows = [[c.replace("|", "") for c in r] for r in rows if "'" not in "".join(r)]
        o = load(rep, "books", bench.file("".join("|".join(r) + ";\n" for r in rows)))
        rep.expect("books-file", o[0] == "return" and {k: list(v)[:2] for k, v in o[1].items()} == {r[1].upper(): r[:2] for r in rows}, key="books-file", rows=repr(rows)[:500], got=repr(o)[:300])
        # authors and journals found by regular expression: pairs in the order of the file
        ents = [(title(rng), title(rng)) for _ in range(rng.randrange(0, 5))]
        for kind in ("authors", "journals_re"):
            lines = []
            for s, r in ents:
                lines += rng.choice([[], [], ["# no---no"]]) + (rng.choice([[], ["nothing"]]) if kind == "authors" else []) + [pad(rng) + s + pad(rng) + "---" + pad(rng) + r + pad(rng)]
            for src in (bench.file("\n".join(lines) + ("\n" if lines else "")), list(lines)):
                o = load(rep, kind, src)
                rep.expect(kind, o[0] == "return" and [tuple(x) for x in o[1]] == [(s.strip(), r.strip()) for s, r in ents], key=kind, lines=repr(lines)[:500], got=repr(o)[:300])
        if rep.out_of_time():
            return


# numeration pattern, two texts it stands for
NUMS = [("s/syymm999", [" / 9901123", "/9901123"]), ("syymm999", [" 9901123", "9901123"]), ("s999", [" 123", "123"]), ("s9999", [" 1234"]), ("s99 99", [" 12 34"]), ("syyyy 999", [" 1999 123"]), ("sa9 99", [" B1 23"]), ("syymms99", ["990112", "9912 34"])]
CATS = ["CERN TH", "HEP XY", "FOO", "SLAC PUB", "DESY", "FOO BAR"]


def numbers(rep, rng, bench):
    if not rep.get(K + "load_kb_by_type"):
        return
    for _ in range(rep.n(150, 1500)):
        lines, institutes = [], []
        for i in range(rng.randrange(0, 5)):
            nums = rng.sample(NUMS, rng.randrange(0, 4))
            cats = rng.sample(CATS, rng.randrange(0, 4))
            lines.append("*****%s*****" % rng.choice(["Inst", "A B", "X"]))
            body = ["<%s>" % n[0] for n in nums]
            institutes.append((nums, [(c, c.lower().replace(" ", rng.choice("-/"))) for c in cats]))
            body += ["%s%s---%s" % (c, pad(rng), s) for c, s in institutes[-1][1]]
            if rng.random() < .5:
                rng.shuffle(body)
            for b in body:
                lines += rng.choice([[], [], ["# comment"], [""]]) + [b]
        for src in (bench.file("\n".join(lines) + "\n"), list(lines)):
            o = load(rep, "report-numbers", src)
            info = dict(lines="\n".join(lines)[:900])
            if not rep.expect("numbers-load", o[0] == "return" and len(o[1]) == 2, key="numbers-load", got=repr(o)[:300], **info):
                continue
            pats, std = o[1]
            rep.same("numbers-closed", sorted(map(repr, pats)), sorted(map(repr, std)), key="numbers-closed", **info)
            want = sorted((c, s) for nums, cats in institutes if nums for c, s in cats)
            rep.same("numbers-categories", sorted((k[1].strip(), v) for k, v in std.items()), want, key="numbers-categories", **info)
            for nums, cats in institutes:
                for c, s in cats:
                    for n, texts in nums:
                        for t in texts:
                            text = "X %s%s Y" % (c, t)
                            hit = [std[k] for k, p in pats.items() for m in [p.search(text)] if m and m.group("categ") == c and k[1].strip() == c]
                            rep.expect("numbers-found", s in hit, key="numbers-found", text=text, pattern=n, got=repr(hit), **info)
        if rep.out_of_time():
            return
    order = rep.get(K + "order_reportnum_patterns_bylen")
    if order:
        for _ in range(rep.n(100, 2000)):
            ps = [rng.choice(["s[abc]9", "s9", "9999", "[ab]", "s[a-z][0-9]99", "", "yy"]) for _ in range(rng.randrange(0, 6))]
            o = outcome(order, list(ps))
            ok = o[0] == "return" and sorted(p for _, p in o[1]) == sorted(ps) and all(a[0] >= b[0] for a, b in zip(o[1], o[1][1:])) and all(n == len(re.sub(r"\[[^]]*\]", "1", p)) for n, p in o[1])
            rep.expect("numbers-order", ok, key="numbers-order", patterns=ps, got=repr(o)[:300])


def end_to_end(rep, rng, bench):
    ex = rep.get("refextract.references.api:extract_references_from_string")
    if not ex:
        return

    def field(line, name, **ov):
        o = outcome(ex, line, override_kbs_files=ov, reference_format="{title},{volume},{page}", _limit=60)
        return [x for r in o[1] for x in r.get(name, [])] if o[0] == "return" else o
    for s in ["Foo Bar", "Foo. Bar.", "F. B. Rev.", "Foo-Bar", "Zeitung (Foo)", "Acta F.B.", "Großmann Blatt"]:
        for how, src in sources(rng, bench, [("Dummy", "D."), (s, "Wrong"), (s, "Std. T.")]):
            for form in (s, s if "ß" in s else s.upper(), simple(s)):
                rep.same("e2e-journal", field("[1] A. Author, %s 12 (1999) 345" % form, "journal_title", journals=src), ["Std. T."], key="e2e-journal", entry=s, line=form, source=how)
            rep.same("e2e-journal-title", field("[1] A. Author, Std. T. 12 (1999) 345", "journal_title", journals=src), ["Std. T."], key="e2e-journal-title", entry=s, source=how)
    # the longest phrase wins
    for ents in ([("Foo", "Short"), ("Foo Bar", "Long")], [("Foo Bar", "Long"), ("Foo", "Short")]):
        for how, src in sources(rng, bench, ents):
            rep.same("e2e-longest", field("[1] A. Author, Foo Bar 12 (1999) 345", "journal_title", journals=src), ["Long"], key="e2e-longest", source=how)
    for pat, text in (("DAN", "DAN"), ("D[A]N", "DAN"), (r"Foo\s+Bar", "Foo  Bar"), (r"Z\.Q\.", "Z.Q.")):
        for src in (bench.file("# x---y\n%s---New T.\n" % pat), ["%s---New T." % pat]):
            rep.same("e2e-journal-re", field("[1] A. Author, %s 12 (1999) 345" % text, "journal_title", journals_re=src), ["New T."], key="e2e-journal-re", pattern=pat)
    for how, src in sources(rng, bench, [("FOO PRESS", "Wrong"), ("FOO PRESS", "Foo-Press"), ("QUX", "Qux")]):
        for p, w in (("Foo Press", "Foo-Press"), ("Qux", "Qux")):
            rep.same("e2e-publisher", field("[1] A. Author, Some Book (%s, London, 1999)" % p, "publisher", publishers=src), [w], key="e2e-publisher", source=how)
    for how, src in sources(rng, bench, [("FOOBAR Collaboration", "FOOBAR"), ("Foo Bar Baz", "FOOBAR"), ("QUUX", "Quux")]):
        for p, w in (("FOOBAR Collaboration", "FOOBAR"), ("Foo Bar Baz", "FOOBAR"), ("QUUX", "Quux")):
            got = field("[1] %s, Phys. Rev. D 12 (1999) 345" % p, "collaboration", collaborations=src)
            rep.expect("e2e-collaboration", len(got) == 1, key="e2e-collaboration", source=how, got=repr(got), line=p)
    rep.same("e2e-book", field('[1] A. Author, "A Quite Odd Book Title", 1999', "title", books=[["Author, A.", "A Quite Odd Book Title", "1999"]]), ["A Quite Odd Book Title"], key="e2e-book")
    num = ["*****X*****", "<s999>", "FOO TH ---FOO-TH", "*****Y*****", "<s9999>", "BAR---Bar"]
    for src in (bench.file("\n".join(num) + "\n"), num):
        rep.same("e2e-number", field("[1] A. Author, FOO-TH-123", "reportnumber", **{"report-numbers": src}), ["FOO-TH-123"], key="e2e-number")
        rep.same("e2e-number", field("[1] A. Author, BAR-1234", "reportnumber", **{"report-numbers": src}), ["Bar-1234"], key="e2e-number")
    # the shipped files
    gk = rep.get(K + "get_kbs")
    if gk:
        import refextract.references.config as cfg
        kb, std, phrases = gk()["journals"]
        rep.expect("shipped", set(kb) == set(std) == set(phrases) and all(len(a) >= len(b) for a, b in zip(phrases, phrases[1:])), key="shipped-journals")
        last = {}
        with open(cfg.CFG_REFEXTRACT_KBS["journals"], encoding="utf-8") as fh:
            for line in fh:
                if not line.startswith("#"):
                    s, r = line.rstrip("\n").rsplit("---", 1)
                    last[simple(s)] = r
        for p in last:
            rep.expect("shipped-entry", std.get(p) == last[p].strip(), key="shipped-entry", phrase=p, got=repr(std.get(p)), want=last[p])


def run(rep):
    bench = Bench()
    try:
        journals(rep, rep.rng, bench)
        malformed(rep, rep.rng, bench)
        others(rep, rep.rng, bench)
        numbers(rep, rep.rng, bench)
        end_to_end(rep, rep.rng, bench)
    finally:
        shutil.rmtree(bench.d, ignore_errors=True)

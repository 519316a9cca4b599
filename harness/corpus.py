"""reference lines for end-to-end runtime checks: hand-written forms + seeded recombination"""
BASE = [
    "[1] J. Smith and A. Jones, Phys. Rev. D 12 (1990) 123, arXiv:hep-th/9901001, doi:10.1103/PhysRevD.12.123.",
    "[2] A. Writer, \"A quoted title\", Nucl. Phys. B 3 (1991) 45; ibid. 5 (1993) 67 http://example.org/x",
    "[3] ATLAS Collaboration, Phys. Lett. B 716 (2012) 1, hdl:10.1016/2012.08",
    "[4] C. Kittel, Introduction to Solid State Physics, Wiley, 1996, ISBN 0-471-11181-3",
    "[5] E. Witten, JHEP 9807 (1998) 006 (with B. Other), CERN-TH/98-12 (1998)",
    "plain text only",
    "[6] ",
    "[7] <a href=\"http://u.org/1\">desc here</a> Phys. Rev. Lett. 1 (1950) 2",
    "[8] (H. Nobody) J. Phys. A 4, 22, 1999; Z. Phys. C 1 (1980) 2; hep-ph/0101010",
    "[9] Phys.Rev.Lett. XII, 34 (1999), arXiv:1201.1234v2 [hep-ph], http://arxiv.org/abs/1201.1234",
    "{10} S. Weinberg, JHEP 01 (2003) 5; CERN-LHCC2003-01; hep-th-9711200",
    "(11) A. Author, B. Author, et al., (ed. ) Nucl. Phys. Proc. Suppl. B 33 (1998) 12",
    "12. T. Tester, doi:10.1016/j.physletb.2012.08.020 doi:10.1016/j.physletb.2012.08.021 http://dx.doi.org/10.1000/xyz",
    "13 CMS Collaboration, CMS Collaboration, Phys. Lett. 100B (1981) 3",
    "[14] see http://a.org/1, http://b.org/2 and ftp://c.org/3.",
    "[15] K. Hagiwara et al. [Particle Data Group Collaboration], Phys. Rev. D66, 010001 (2002).",
    "[Foo90] N. Body, http://hdl.handle.net/10443/1646, handle:1999/12",
    "\u00c9. Cartan and O. M\u00fcller-Stra\u00dfe, Z. Phys. 40 (1926) 1\u20135",
    "[16] JHEP 3 (1998); J. High Energy Phys. 02, 011 (2001), JCAP 0305:009,2003",
    "[17] R. Barlow; G. Cowan; Nucl.Instrum.Meth. A 12, 3 (1999); 14, 5 (2000)",
    "[18] B. Author, ibid. 3, 4 (1999)", "[19] ;;;", "[20] <cds.JOURNAL>fake</cds.JOURNAL> text",
    "[ 21 ] A.B. Zamolodchikov and Al.B. Zamolodchikov, Annals Phys. 120 (1979) 253; A.B. Zamolodchikov, Int. J. Mod. Phys. A4 (1989) 4235.",
    "[22] F. Englert, R. Brout, Phys. Rev. Lett. 13 (1964) 321; P.W. Higgs, Phys. Lett. 12 (1964) 132; Phys. Rev. Lett. 13 (1964) 508; and Phys. Rev. 145 (1966) 1156",
    "", " ", "[23] \"Unclosed title, Phys. Rev. D 1 (1970) 1", "[24] Springer, Berlin 1999, World Scientific, Singapore (2001), ISBN: 978-3-16-148410-0",
    "25] SLAC-PUB-1234, FERMILAB-PUB-99/123-T, DESY 98-001, hep-ex/0001002, arXiv:0801.1234", "[26] 1999, 2000, 2001", "*  P. Langacker, Phys. Rept. 72, 185 (1981)",
    "[27] C. Itzykson and J-B. Zuber, Quantum Field Theory, McGraw-Hill, 1980.",
    "[28] D. Gross, Phys. Rev. D 8 (1973) 3633, ibid D 9 (1974) 980, ibid. 34B, 12 (1975)",
]


def lines(rng, n):
    """n recombined lines"""
    import re
    pieces = [p for b in BASE for p in re.split(r"(?<=[,;.])\s", b) if p]
    marks = ["[%d] ", "(%d) ", "%d. ", "{%d} ", "", "[%d]"]
    out = []
    for i in range(n):
        m = rng.choice(marks)
        if "%d" in m:
            m = m % rng.randrange(1, 200)
        body = rng.choice([" ", ", ", "; ", " "]).join(rng.choice(pieces) for _ in range(rng.choice([1, 2, 2, 3, 4])))
        out.append(m + re.sub(r"^\[[^\]]*\]\s*", "", body))
    return out

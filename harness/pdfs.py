"""Small PDF files with destinations and links."""


def text(s):
    b = s if isinstance(s, bytes) else s.encode("latin-1")
    return b"<" + b.hex().encode() + b">"


def build(pages, names, old_style=False):
    """pages: list of (width, [link]); link: (kind, target, (x0, y0, x1, y1)); names: list of (name, page, x, y)"""
    objs = []

    def add(b):
        objs.append(b)
        return len(objs)
    root, tree = add(None), add(None)
    kids = [add(None) for _ in pages]
    for n, (width, links) in zip(kids, pages):
        annots = []
        for kind, target, rect in links:
            r = b" ".join(b"%g" % v for v in rect)
            if kind in ("uri", "uri-indirect"):
                a = b"<</Type/Action/S/URI/URI " + text(target) + b">>"
                if kind == "uri-indirect":
                    a = b"%d 0 R" % add(a)
                a = b"/A " + a
            elif kind == "goto":
                a = b"/A <</S/GoTo/D " + text(target) + b">>"
            elif kind == "dest":
                a = b"/Dest " + text(target)
            else:
                a = b"/Contents " + text(target)
            sub = b"Text" if kind == "note" else b"Link"
            annots.append(b"%d 0 R" % add(b"<</Type/Annot/Subtype/" + sub + b"/Rect[" + r + b"]" + a + b">>"))
        an = b""
        if links:
            an = b"/Annots[" + b" ".join(annots) + b"]"
            if len(links) % 2 == 0:
                an = b"/Annots %d 0 R" % add(b"[" + b" ".join(annots) + b"]")
        objs[n - 1] = b"<</Type/Page/Parent %d 0 R/MediaBox[0 0 %g 800]/Resources<<>>" % (tree, width) + an + b">>"
    objs[tree - 1] = b"<</Type/Pages/Count %d/Kids[" % len(kids) + b" ".join(b"%d 0 R" % k for k in kids) + b"]>>"
    pairs = []
    for name, page, x, y in names:
        xs = b"null" if x is None else b"%g" % x
        ys = b"null" if y is None else b"%g" % y
        pairs.append((name, b"[%d 0 R/XYZ %s %s null]" % (kids[page], xs, ys)))
    pairs.sort(key=lambda p: text(p[0]))
    if old_style:
        d = b"/Dests %d 0 R" % add(b"<<" + b" ".join(b"/" + n.encode() + b" " + v for n, v in pairs) + b">>")
    else:
        leaf = add(b"<</Names[" + b" ".join(text(n) + b" " + v for n, v in pairs) + b"]/Limits[" + (text(pairs[0][0]) + b" " + text(pairs[-1][0]) if pairs else b"()()") + b"]>>")
        d = b"/Names<</Dests %d 0 R>>" % add(b"<</Kids[%d 0 R]>>" % leaf)
    objs[root - 1] = b"<</Type/Catalog/Pages %d 0 R" % tree + d + b">>"
    out, at = b"%PDF-1.4\n", []
    for i, o in enumerate(objs):
        at.append(len(out))
        out += b"%d 0 obj\n" % (i + 1) + o + b"\nendobj\n"
    x = len(out)
    out += b"xref\n0 %d\n0000000000 65535 f \n" % (len(objs) + 1) + b"".join(b"%010d 00000 n \n" % a for a in at)
    return out + b"trailer\n<</Size %d/Root 1 0 R>>\nstartxref\n%d\n%%%%EOF\n" % (len(objs) + 1, x)

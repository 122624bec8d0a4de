"""C09: a visualization draws every element of its kind once, at its place on its page."""
import re

from ..facts import AnalysisError
from ..interp import Interp
from ..terms import le_atom, mk
from ..trav import Trav
from .. import query
from .c01 import VISCLS

D = "doc.pages[]"
# entry point -> container (relative to the document) -> styles
KINDS = {
    "visualizeCharacters": {D + ".characters": ["box"]},
    "visualizeFigures": {D + ".figures": ["box"]},
    "visualizeShapes": {D + ".shapes": ["box"]},
    "visualizeGraphics": {D + ".graphics": ["box"]},
    "visualizeWords": {D + ".words": ["box"]},
    "visualizeTextLines": {D + ".segments[].lines": ["box"]},
    "visualizeTextBlocks": {D + ".blocks": ["box", "role"]},
    "visualizePageSegments": {D + ".segments": ["box"], D + ".segments[].blocks": ["boxin"]},
    "visualizeReadingOrder": {D + ".blocks": ["box", "role"], D + ".blocks@1": ["order"]},
    "visualizeSegmentCuts": {D + ".blockDetectionCuts": ["cut"]},
    "visualizeReadingOrderCuts": {D + ".readingOrderCuts": ["cut"]},
    "visualizeTextBlockDetectionCuts": {},
}
SAME = [(D + ".textLines", D + ".segments[].lines"), (D + ".blocks[].lines", D + ".segments[].lines")]
COORD = ("x1", "y1", "x2", "y2")


class Draw(Trav):
    """Records every annotation that is added to a page and drawn."""

    def __init__(self, prog):
        super().__init__(prog)
        self.pure = ("ppp::utils::elements::getSemanticRoleName", VISCLS + "::convertToUtf16")

    def canon(self, I, fr, st, t, depth=0):
        if t.op == "fabs":
            return "fabs(%s)" % self.canon(I, fr, st, t.a[0], depth + 1)
        if t.op not in ("c", "s", "V", "this") and t not in self.roots:
            for a in st.facts:
                if a[0] == "t" and a[1].op == "built" and a[1].a[0] is t:
                    return "new(%s)" % ",".join(self.canon(I, fr, st, x, depth + 1)
                                                for x in a[1].a[1:])
        return super().canon(I, fr, st, t, depth)

    def conds(self, I, fr, st, facts=None):
        """Also says whether this is the last turn of a counting loop."""
        out = set(super().conds(I, fr, st, facts))
        if facts is None:
            phis, sizes = set(), set()
            for a in st.facts:
                if a[0] == "le":
                    for t, _ in a[1]:
                        if t.op == "phi" and self.current(st, t):
                            phis.add(t)
                        elif t.op == "size":
                            sizes.add(t)
            for p in phis:
                for s in sizes:
                    if not st.entails(le_atom(p, s, 1)):
                        continue
                    if st.entails(le_atom(s, p, -1)):
                        out.add((("last",), True))
                    elif st.entails(le_atom(p, s, 2)):
                        out.add((("last",), False))
        return frozenset(out)

    def annots(self, st):
        return dict(st.ext.get("an", ()))

    def put(self, st, obj, **kw):
        an = self.annots(st)
        d = dict(an.get(obj, ()))
        d.update(kw)
        an[obj] = tuple(sorted(d.items(), key=lambda x: x[0]))
        st.ext["an"] = tuple(sorted(an.items(), key=lambda x: repr(x[0])))

    def rect(self, I, st, p):
        """Coordinates of the rectangle p points to."""
        loc = I.deref(p)
        v = I.load(st, loc)
        built = None
        for a in st.facts:
            if a[0] == "t" and a[1].op == "built" and a[1].a[0] is v and len(a[1].a) == 5:
                built = a[1].a[1:]
        out = []
        for i, c in enumerate(COORD):
            x = st.env.get(mk("F", p, c))
            if x is None:
                x = st.env.get(mk("F", v, c))
            if x is None and built is not None:
                x = built[i]
            out.append(x)
        return tuple(out)

    def new(self, I, fr, st, node, val):
        n = fr.f["nodes"][node]
        cls = n.get("at", "").split("::")[-1]
        args = fr.f["nodes"].get(n.get("e"), {}).get("a", [])
        vals = [I.val(fr, st, a) for a in args]
        if not cls.startswith("Annot") or cls in ("AnnotColor", "AnnotBorderArray"):
            if vals:
                st.add_atom(("t", mk("built", val, *vals)))
            return
        sub = self.canon(I, fr, st, vals[2]) if len(vals) > 2 else ""
        self.put(st, val, cls=cls, sub=sub.split("::")[-1],
                 rect=self.rect(I, st, vals[1]) if len(vals) > 1 else None)

    def call(self, I, fr, st, node, n, oloc, args):
        name = query.base(n)
        fn = n.get("fn", "")
        if oloc is not None and oloc.op == "D" and fn.startswith("Annot"):
            obj = oloc.a[0]
            if obj not in self.annots(st):
                return
            vals = [I.val(fr, st, a) for a in args]
            if name == "setColor":
                self.put(st, obj, color=vals[0])
            elif name == "setContents":
                self.put(st, obj, text=vals[0])
            elif name == "setVertices":
                self.put(st, obj, vert=tuple(vals[:4]))
            elif name == "draw":
                self.put(st, obj, gfx=vals[0])
                self.done(I, fr, st, obj)
        elif fn == "Page::addAnnot":
            obj = I.val(fr, st, args[0])
            self.put(st, obj, page=oloc)
            self.done(I, fr, st, obj)

    def called(self, I, fr, st, node, n, oloc, args, val):
        fn = n.get("fn", "")
        if fn in ("PDFDoc::getPage",):
            st.vals[node] = mk("fn", "getPage", *[I.val(fr, st, a) for a in args])
        elif fn in ("std::make_unique", "std::make_shared"):
            v = st.vals.get(node)
            if v is not None and args:
                st.add_atom(("t", mk("built", v, *[I.val(fr, st, a) for a in args])))
        elif fn.startswith("Page::get") and oloc is not None and not args:
            st.vals[node] = mk("fn", fn[6:], I.addr(oloc))
        super().called(I, fr, st, node, n, oloc, args, val)

    def done(self, I, fr, st, obj):
        d = dict(self.annots(st).get(obj, ()))
        if "gfx" not in d or "page" not in d or not d.get("cls"):
            return
        fields = [d["page"] if d["page"].op != "D" else d["page"].a[0], d["gfx"]]
        pts = d.get("vert") or d.get("rect") or ()
        fields += [x if x is not None else mk("s", "?") for x in pts]
        for k in ("color", "text"):
            fields.append(d.get(k, mk("s", "")))
        alts = [((), frozenset())]
        for x in fields:
            nxt = []
            for vs, cs in alts:
                for y, c2 in self.choices(I, fr, st, x):
                    m = dict(cs)
                    if all(m.get(k, v) == v for k, v in c2):
                        nxt.append((vs + (y,), cs | c2))
            alts = nxt[:64]
        kind = d["cls"] + ("/" + d["sub"] if d.get("sub") else "")
        evs = []
        for vs, cs in alts:
            c = tuple(self.canon(I, fr, st, v) for v in vs)
            cs = frozenset(x for x in cs if not any("?" in k or "local:" in k for k in x[0]))
            evs.append((cs, (("annot", kind) + c,)))
        self.emit(st, [("alt", tuple(evs))] if len(evs) > 1 else list(evs[0][1]))


def flip(page, y):
    return "(+getMediaHeight(%s) -%s)" % (page, y)


def coords(e):
    """(page, gfx, coordinates, colour, text) of an annotation."""
    return e[2], e[3], e[4:-2], e[-2], e[-1]


def place(e, num):
    page, gfx, _, _, _ = coords(e)
    return page == "getPage(%s)" % num and gfx == "this._gfxs[%s]" % num


def isbox(e, el, pg, conds, flats):
    """A square with the bounding box of el, on the page pg."""
    if e[1] != "AnnotGeometry/5" or len(e[4:-2]) != 4:
        return False
    p = "getPage(%s)" % pg
    x1, y1, x2, y2 = e[4:-2]
    L, R = el + ".pos.leftX", el + ".pos.rightX"
    U, W = flip(p, el + ".pos.lowerY"), flip(p, el + ".pos.upperY")
    ok = place(e, pg) and x1 == L and y1 == U
    for got, want, ax in ((x2, R, "x"), (y2, W, "y")):
        if got == want:
            flats.setdefault(ax, set()).add(True)
            small = smallness(conds, el, ax)
            ok = ok and small is False
        elif re.fullmatch(r"\((.*)\)", got) and plus(got) == plus(want, 1):
            small = smallness(conds, el, ax)
            flats.setdefault(ax, set()).add(False)
            ok = ok and small is True
        else:
            return False
    return ok


def plus(c, k=0):
    """Terms of a canonical sum, with k added."""
    while c.startswith("(") and c.endswith(")") and depth0(c):
        c = c[1:-1]
    parts = split(c)
    n = k
    out = []
    for p in parts:
        if re.fullmatch(r"[+-]?\d+(\.\d+)?", p):
            n += float(p)
        else:
            out.append(p if p[0] in "+-" else "+" + p)
    return sorted(out), float(n)


def depth0(c):
    d = 0
    for i, ch in enumerate(c):
        d += ch == "("
        d -= ch == ")"
        if d == 0:
            return i == len(c) - 1
    return False


def split(c):
    """Top-level summands of 'a+b', '+a -b' or '(+a -b)+1'."""
    out, cur, d = [], "", 0
    for i, ch in enumerate(c):
        if ch in "([":
            d += 1
        elif ch in ")]":
            d -= 1
        if d == 0 and ch in "+- " and cur:
            if cur.strip() not in "+-":
                out.append(cur.strip())
                cur = ""
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    res = []
    for p in out:
        q = p[1:] if p[0] == "+" else p
        if q.startswith("(") and depth0(q):
            res += split(q[1:-1])
        else:
            res.append(p)
    return res


def smallness(conds, el, ax):
    """Is the extent of el along ax known to be below the minimum on this path?"""
    a, b = (".pos.leftX", ".pos.rightX") if ax == "x" else (".pos.lowerY", ".pos.upperY")
    for k, v in conds.items():
        if len(k) != 2 or el + a not in k[1] or el + b not in k[1]:
            continue
        w = r"(fabs\(|\(\+)"
        if re.match(r"(lt|le|smaller|equalOrSmaller)\(%s" % w, k[1]) or \
                re.match(r"(larger|equalOrLarger)\([\d.]+,%s" % w, k[1]):
            return v
        if re.match(r"(lt|le|smaller|equalOrSmaller)\([\d.]+,%s" % w, k[1]) or \
                re.match(r"(larger|equalOrLarger)\(%s" % w, k[1]):
            return not v
    return None


def isrole(e, el, pg):
    p = "getPage(%s)" % pg
    if e[1] != "AnnotFreeText" or len(e[4:-2]) != 4:
        return False
    return place(e, pg) and e[4] == el + ".pos.leftX" and \
        e[5] == flip(p, el + ".pos.upperY") and \
        "convertToUtf16(getSemanticRoleName(%s.role))" % el in e[-1]


def mid(e4, el, pg):
    p = "getPage(%s)" % pg
    x, y = e4
    return x.count(el + ".pos.leftX") >= 1 and x.count(el + ".pos.rightX") == 1 and \
        y.count(flip(p, el + ".pos.lowerY")) >= 1 and y.count(flip(p, el + ".pos.upperY")) == 1 \
        and ".pos.lowerY" not in x and ".pos.leftX" not in y


def number(e):
    m = re.search(r"to_string\((#|\(\+# \+1\))\)", e[-1])
    return m.group(1) if m else "?"


def around(e, el, pg):
    """The annotation lies around the middle of el."""
    x1, y1, x2, y2 = e[4:8]
    p = "getPage(%s)" % pg
    return place(e, pg) and all(
        el + ".pos.leftX" in x and el + ".pos.rightX" in x for x in (x1, x2)) and all(
        flip(p, el + ".pos.lowerY") in y and flip(p, el + ".pos.upperY") in y for y in (y1, y2))


def judge(style, toks, conds, el, flats, tail=False):
    """Message if one turn does not draw el in the given styles."""
    an = [t for t in toks if t[0] == "annot"]
    for s in style:
        if s in ("box", "boxin"):
            pgs = [el + ".pos.pageNum"]
            if s == "boxin":
                pgs.append(el.rsplit(".", 1)[0] + ".pos.pageNum")
            hits = [e for e in an if any(isbox(e, el, pg, conds, flats) for pg in pgs)]
        elif s == "role":
            hits = [e for e in an if isrole(e, el, el + ".pos.pageNum")]
        elif s == "order":
            pg = el + ".pos.pageNum"
            prev = el[:-2] + "[-1]"
            hits = [e for e in an if e[1] == "AnnotLine" and place(e, pg) and len(e[4:-2]) == 4 and
                    mid(e[4:6], prev, pg) and mid(e[6:8], el, pg)]
            nums = [e for e in an if e[1] == "AnnotFreeText"]
            circ = [e for e in an if e[1] == "AnnotGeometry/6"]
            last = conds.get(("last",))
            want = [("#", prev)]
            if last:
                want.append(("(+# +1)", el))
            got = sorted(number(e) for e in nums)
            if got != sorted(n for n, _ in want):
                return "the numbers drawn are %s" % ", ".join(got)
            if len(want) == 1 and last is not False and not tail:
                return "the number of the last one is not drawn"
            for n, x in want:
                at = [e for e in nums if number(e) == n and around(e, x, pg)]
                if len(at) != 1 or sum(1 for e in circ if around(e, x, pg)) != 1:
                    return "the number %s is not drawn in its middle" % n
            if len(circ) != len(want):
                return "%d circles are drawn for %d numbers" % (len(circ), len(want))
            an = [e for e in an if e not in nums and e not in circ]
        elif s == "cut":
            pg = el + ".pageNum"
            p = "getPage(%s)" % pg
            hits = [e for e in an if e[1] == "AnnotLine" and place(e, pg) and e[4:-2] == (
                el + ".x1", flip(p, el + ".y1"), el + ".x2", flip(p, el + ".y2"))]
            ids = [e for e in an if e[1] == "AnnotFreeText" and
                   "convertToUtf16(%s.id)" % el in e[-1] and place(e, pg)]
            if len(ids) != 1:
                return "its name is drawn %d times" % len(ids)
            rest = [e for e in an if e not in ids and e not in hits]
            ch = conds.get(("is", el + ".isChosen"))
            sq = [e for e in rest if e[1] == "AnnotGeometry/5" and place(e, pg)]
            if len(sq) > 1 or ch is not (len(sq) == 1):
                return "it is %smarked as chosen" % ("not " if ch else "")
            an = hits
        if len(hits) != 1:
            return "it is drawn %d times as %s" % (len(hits), {
                "box": "a box", "boxin": "a box", "role": "a label of its role",
                "order": "a line from the block before", "cut": "a line"}[s]) + \
                (": " + "; ".join(" ".join(x for x in e[1:]) for e in an)[:500] if not hits else "")
        an = [e for e in an if e not in hits]
    if an:
        return "something else is drawn as well: " + " ".join(an[0][1:])[:300]
    return None


def norm(path):
    for a, b in SAME:
        if path == a:
            return b
    return path


def run(prog, r, tier):
    r.rule("every element", "The loops of a visualization visit every element of its kind.", 10)
    r.rule("drawn", "One turn draws the element once, with its own coordinates (y measured from the "
           "bottom), on its own page, and nothing else.", 10)
    r.rule("visible", "Boxes of no width or height are widened.", 8)
    fs = [f for f in prog.functions.values() if f.get("cls") == VISCLS and
          f["name"].split("::")[-1].startswith("visualize") and not f.get("lambda")]
    names = set()
    for f in sorted(fs, key=lambda f: f["u"]):
        base = f["name"].split("::")[-1]
        whole = any("PdfDocument" in p.get("t", "") for p in f["params"])
        if base not in KINDS:
            raise AnalysisError("unknown kind of visualization: " + base)
        names.add(base)
        want = KINDS[base]
        if not whole:
            # the overloads for a list of elements
            els = [p for p in f["params"] if "vector" in p.get("t", "")]
            if len(els) != 1:
                raise AnalysisError("unknown overload of " + base)
            if base == "visualizeTextBlockDetectionCuts":
                want = KINDS["visualizeSegmentCuts"]
            want = {k.replace(D + ".segments[].lines", "els").replace(
                D + ".segments[].blocks", "els[].blocks") if "segments[]" in k else
                re.sub(re.escape(D) + r"\.\w+", "els", k): v for k, v in want.items()}
        elif base == "visualizeTextBlockDetectionCuts":
            raise AnalysisError("unknown overload of " + base)
        h = Draw(prog)
        for p in f["params"]:
            nm = "doc" if "PdfDocument" in p.get("t", "") else \
                "els" if "vector" in p.get("t", "") else None
            if nm:
                h.roots[mk("iv", p["d"] + "*" if p.get("ref") else p["d"], p["name"])] = nm
                h.roots[mk("V", p["d"] + "*", p["name"])] = nm
        I = Interp(prog, h, max_depth=6)
        I.run_root(f)
        r.analysed |= set(I.analysed)
        check(h, r, base + ("" if whole else " of a list"), f, want)
    for b in KINDS:
        if b not in names:
            raise AnalysisError("no visualization " + b)


def check(h, r, name, f, want):
    drawn = {}                     # container -> list of loops drawing its elements

    def visit(where, path, variants, outer):
        """Loops of one level; returns the drawings found, by container."""
        for ev, conds, how in variants:
            for toks, cs in h.expand(ev, conds):
                pass

    todo = [("", None, [(ev, c, "end") for ev, c in h.ends])]
    seen = set()
    levels = {}
    while todo:
        path, key, variants = todo.pop()
        levels.setdefault(path, []).append((key, variants))
        for ev, conds, how in variants:
            for t in flatten(ev):
                if t[0] == "loop" and (t[1], t[2]) not in seen:
                    seen.add((t[1], t[2]))
                    todo.append((norm(t[2]), t[1], h.variants.get(t[1], ())))
                elif t[0] == "brk":
                    r.bad("every element", "%s/%s" % (name, path or "all"),
                          "%s: %s: a loop over %s may be left early" % (
                              f["file"], name, path or "the pages"))
    for path, loops in levels.items():
        cont = path
        needed = [w for w in want if w == path or w.startswith(path + "[") or
                  path and w.split("@")[0] == path and False]
        for key, variants in loops:
            for ev, conds, how in variants:
                for toks, cs in h.expand(ev, conds):
                    sub = {}
                    for t in toks:
                        if t[0] == "loop":
                            p = norm(t[2])
                            sub[p] = sub.get(p, 0) + 1
                            if not h.whole(t[1], t[3]):
                                r.bad("every element", "%s/%s" % (name, p), "%s: %s: the loop over "
                                      "%s does not visit every element" % (f["file"], name, p))
                    # the loops one level down that are needed
                    for w, styles in want.items():
                        nxt = step(path, w)
                        if nxt is None:
                            continue
                        n = sub.get(nxt, 0)
                        single = nxt == w
                        good = n >= 1 if single else n == 1 or n >= 1
                        r.ob("every element", "%s/%s" % (name, nxt), good and how != "break",
                             "%s: %s: on some path %s not visited" % (
                                 f["file"], name, "the elements of %s are" % nxt))
                    if path not in want and any(t[0] == "annot" for t in toks):
                        r.bad("drawn", "%s/%s" % (name, path or "all"), "%s: %s: something is drawn "
                              "that is no element of the kind: %s" % (
                                  f["file"], name, [t for t in toks if t[0] == "annot"][0][1:]))
    # styles drawn by each loop over a container
    for w, styles in want.items():
        loops = levels.get(w, [])
        left = list(styles)
        flats = {}
        msg = None
        for key, variants in loops:
            el = w.split("@")[0] + "[]"
            best = None
            allt = [(toks, cs) for ev, conds, how in variants for toks, cs in h.expand(ev, conds)]
            nan = max([sum(1 for t in toks if t[0] == "annot") for toks, _ in allt] or [0])
            if not nan:
                continue
            for k in range(1, 1 << len(left)):
                st = [s for i, s in enumerate(left) if k >> i & 1]
                fl = {}
                m = None
                for toks, cs in allt:
                    m = judge(st, toks, cs, el, fl)
                    if m:
                        break
                if best is None or m is None and (best[1] is not None or len(st) > len(best[0])):
                    best = (st, m, fl)
                elif m is not None and best[1] is not None and "something else" in best[1]:
                    best = (st, m, fl)
            if best is None:
                msg = "elements of %s are drawn again" % w
            elif best[1] is not None:
                msg = best[1]
                break
            else:
                for s in best[0]:
                    left.remove(s)
                for ax, v in best[2].items():
                    flats.setdefault(ax, set()).update(v)
        if msg is None and left:
            msg = "nothing draws %s" % ", ".join(left)
        r.ob("drawn", "%s/%s" % (name, w), msg is None, "%s: %s: for an element of %s, %s" % (
            f["file"], name, w, msg))
        if "box" in styles or "boxin" in styles:
            r.ob("visible", "%s/%s" % (name, w), msg is not None or
                 all(False in flats.get(ax, ()) for ax in "xy"),
                 "%s: %s: a flat element of %s is not widened" % (f["file"], name, w))


def flatten(ev):
    for e in ev:
        if e[0] == "alt":
            for _, sub in e[1]:
                yield from flatten(sub)
        else:
            yield e


def step(path, want):
    """The container next below path on the way to want."""
    w = want
    pref = path + "[]." if path else ""
    if path and not w.startswith(pref):
        return None
    rest = w[len(pref):]
    if not path:
        if rest.startswith("doc.pages["):
            return "doc.pages"
        i = rest.find("[")
        return rest if i < 0 else rest[:i]
    i = rest.find("[")
    return w if i < 0 else pref + rest[:i]

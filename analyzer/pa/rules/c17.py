"""C17: everything a page draws is recorded exactly once, where and as it was drawn."""
import re

from .. import query
from ..facts import AnalysisError
from ..interp import Interp
from ..terms import C, NULL, ONE, T, ZERO, isc, le_atom, mk
from ..trav import Trav

# what Poppler reports, and what has to become of it
EVENTS = {
    "drawChar": "PdfCharacter", "stroke": "PdfShape", "fill": "PdfShape", "eoFill": "PdfShape",
    "drawImageMask": "PdfGraphic", "drawImage": "PdfGraphic", "drawMaskedImage": "PdfGraphic",
    "drawSoftMaskedImage": "PdfGraphic",
}
LISTS = {"PdfCharacter": "characters", "PdfShape": "shapes", "PdfGraphic": "graphics",
         "PdfFigure": "figures", "PdfPage": "pages"}
# what the device has to answer so that Poppler reports these events, and only these
ANSWERS = {"upsideDown": True, "useDrawChar": True, "needNonText": True, "interpretType3Chars": False,
           "useTilingPatternFill": False, "useShadedFills": False, "useDrawForm": False,
           "beginType3Char": False, "checkPageSlice": True}
CLIP = ("clipLeftX", "clipUpperY", "clipRightX", "clipLowerY")
BOX = ("leftX", "upperY", "rightX", "lowerY")
PRE = "ppp::utils::math::"


class Draw(Trav):
    def __init__(self, prog, this, params):
        super().__init__(prog)
        self.this = this
        self.params = params          # variables of the handler -> canonical names
        self.done = []                # (state, place)
        self.problems = set()
        self.puts = {}
        self.searched = {}
        self.text = {}
        self.keys = set()             # the names fonts are looked up by

    # only what matters here
    def emit(self, st, evs):
        pass

    def write(self, *a, **k):
        pass

    def conds(self, I, fr, st, facts=None):
        return frozenset()

    def inline(self, I, fr, f):
        return not f["name"].startswith(PRE) and not f["name"].endswith("::createRandomString") \
            and "PdfFontInfoParser" not in f["name"]

    # ---------------------------------------------------------------- names
    def cs(self, t, d=0):
        """A term as text, without roundings, references and versions of memory."""
        if not isinstance(t, T):
            return str(t)
        if d > 40:
            return "..."
        if t not in self.text:
            self.text[t] = self.cs_(t, d)
        return self.text[t]

    def cs_(self, t, d):
        c = lambda x: self.cs(x, d + 1)
        op, a = t.op, t.a
        if op in ("iv", "V"):
            return self.params.get(a[0], str(a[1]))
        if op in ("ldp", "get", "D", "&", "deref"):
            return c(a[0])
        if op in ("ld", "F", "fld"):
            return c(a[0]) + "." + a[1]
        if op in ("elem", "E"):
            return "%s[%s]" % (c(a[0]), c(a[1]))
        if op == "c":
            return str(a[0])
        if op == "fp":
            return "%g" % float(a[0])
        if op == "obj":
            return "new%d" % t.h
        if op == "fn" and a[0] == "round" and len(a) == 3:
            return c(a[1])
        if op == "fn":
            return "%s(%s)" % (a[0], ",".join(c(x) for x in a[1:]))
        if op.startswith("m:"):
            return "%s(%s)" % (op[2:], ",".join(c(x) for x in a))
        if op in ("min", "max"):
            return "%s(%s)" % (op, ",".join(sorted(c(x) for x in a)))
        if op in ("eq", "not", "size"):
            return "%s(%s)" % (op, ",".join(sorted(c(x) for x in a)))
        if op == "null":
            return "null"
        if op == "this":
            return "this"
        if op == "s":
            return '"%s"' % a[0]
        if op in ("f+", "f*", "f-", "fneg", "lin"):
            return ptext(self.poly(t))
        return "%s#%d" % (op, t.h)

    def poly(self, t):
        """t as a sum of products: {sorted factors: number}."""
        op, a = t.op, t.a
        if op == "fn" and a[0] == "round" and len(a) == 3:
            return self.poly(a[1])
        if isc(t):
            return {(): float(a[0])} if a[0] else {}
        if op == "fp":
            return {(): float(a[0])} if float(a[0]) else {}
        if op == "f+":
            return padd(self.poly(a[0]), self.poly(a[1]))
        if op == "f-":
            return padd(self.poly(a[0]), self.poly(a[1]), -1)
        if op == "fneg":
            return padd({}, self.poly(a[0]), -1)
        if op == "f*":
            return pmul(self.poly(a[0]), self.poly(a[1]))
        if op == "lin":
            r = {(): float(a[1])} if a[1] else {}
            for x, k in a[0]:
                r = padd(r, self.poly(x), k)
            return r
        return {(self.cs(t),): 1.0}

    def choices(self, I, st, v, facts=(), d=0, seen=()):
        """The values v stands for, each with what is known then."""
        fs = set(facts)
        if v in seen or d > 12:
            return [(v, fs)]
        if v.op == "ite":
            return [y for x, pol in ((v.a[1], "t"), (v.a[2], "f"))
                    for y in self.choices(I, st, x, fs | {(pol, v.a[0])}, d + 1, seen + (v,))]
        if v.op in ("phi", "ret") and v in st.impl:
            return [y for x, f in st.impl[v] if x is not v
                    for y in self.choices(I, st, x, fs | set(f), d + 1, seen + (v,))]
        if v.op == "fn" and v.a[0] == "round" and len(v.a) == 3:
            return self.choices(I, st, v.a[1], fs, d + 1, seen + (v,))
        if v.op == "dyncast":
            return self.choices(I, st, v.a[0], fs, d + 1, seen + (v,))
        return [(v, fs)]

    def store(self, I, fr, st, node, loc, val, old):
        """Coordinates of new elements, for later comparison."""
        if loc.op == "F" and loc.a[1] in BOX and loc.a[0].op == "obj":
            d = dict(st.ext.get("bx", ()))
            d[(loc.a[0], loc.a[1])] = val
            st.ext["bx"] = tuple(sorted(d.items(), key=repr))

    # ---------------------------------------------------------------- events
    def called(self, I, fr, st, node, n, oloc, args, val):
        name = query.base(n)
        cls = n.get("cls", "")
        if n.get("fn", "").endswith("::createRandomString"):
            st.vals[node] = mk("fn", name, *[I.val(fr, st, a) for a in args])
        if name in SEARCHES and n.get("fn", "").startswith("std::"):
            st.vals[node] = mk("fn", name, C(n.get("l", 0)))
            st.ext["k"] = self.flags(st) | {"search"}
        if cls == "GfxState" and name in ("getClipBBox", "getStrokeRGB", "getFillRGB"):
            for k, a in enumerate(args):
                v = I.val(fr, st, a)
                if v.op == "&":
                    x = mk("fn", "clip%d" % k) if name == "getClipBBox" else mk("fn", name)
                    I.store(fr, st, v.a[0], x, (node, "out", k))
        if oloc is not None and oloc.op == "F" and oloc.a[1] == "fontInfos" and args and \
                name in ("operator[]", "at", "count", "find", "contains"):
            self.keys.add((I.val(fr, st, args[-1]), query.where(fr.f, n)))
        if oloc is None or oloc.op != "F" or oloc.a[1] not in LISTS.values():
            return
        if name in ("push_back", "emplace_back") and args:
            v = I.val(fr, st, args[-1])
            while v.op == "dyncast":
                v = v.a[0]
            ps = st.ext.get("put", ())
            self.puts[(oloc, v)] = query.where(fr.f, n)
            st.ext["put"] = (ps + ((oloc, v, self.matches(I, st, oloc.a[0])),))[:6]
        elif not n.get("const") and name not in ("size", "empty", "begin", "end", "front", "back", "rbegin",
                                                 "at", "operator[]", "cbegin", "cend", "reserve", "rend", "data"):
            self.problems.add(("list", "%s/%s" % (oloc.a[1], name), "%s: %s changes the list of %s" % (
                query.where(fr.f, n), name, oloc.a[1])))

    def matches(self, I, st, base):
        """Is the clip box known to be that of base?"""
        have = set()
        for a in st.facts:
            if a[0] in ("t", "nz") and a[1].op == "fn" and a[1].a[0] == "equal" and \
                    len(a[1].a) >= 3:
                have.add(frozenset((self.cs(a[1].a[1]), self.cs(a[1].a[2]))))
        b = self.cs(base)
        return all(frozenset(("clip%d()" % k, "%s.%s" % (b, f))) in have
                   for k, f in enumerate(CLIP))

    def new(self, I, fr, st, node, val):
        cls = fr.f["nodes"][node].get("at", "").split("::")[-1]
        if cls in LISTS:
            d = dict(st.ext.get("obj", ()))
            d[val] = cls
            st.ext["obj"] = tuple(sorted(d.items(), key=lambda x: repr(x[0])))

    def delete(self, I, fr, st, node, val):
        d = dict(st.ext.get("obj", ()))
        if val in d:
            if any(v is val for _, v, _ in st.ext.get("put", ())) and I.reporting:
                self.problems.add(("once", d[val] + "/deleted", "%s: an element is deleted after "
                                   "it was recorded" % fr.f["name"]))
            del d[val]
            if d:
                st.ext["obj"] = tuple(sorted(d.items(), key=lambda x: repr(x[0])))
            else:
                st.ext.pop("obj")

    def flags(self, st):
        return st.ext.get("k", frozenset())

    def partition(self, I, fr, st):
        return (st.ext.get("obj", ()), tuple((l.a[1], v, m) for l, v, m in st.ext.get("put", ())),
                st.ext.get("stk", ()), self.flags(st))

    def join_ext(self, key, vals):
        if key == "bx":
            both = set.intersection(*[set(v or ()) for v in vals])
            return tuple(sorted(both, key=repr)) or None
        return vals[0]

    def edge(self, I, fr, st, p, succ, info):
        k = set(self.flags(st))
        if "page" not in k and self.matches(I, st, I.load(st, mk("F", self.this, "_page"))):
            k.add("page")
        for a in st.facts:
            if a[0] not in ("t", "f", "nz", "z"):
                continue
            t, pol = a[1], a[0] in ("t", "nz")
            if t.op == "eq" and NULL in t.a:
                t, pol = (t.a[0] if t.a[1] is NULL else t.a[1]), not pol
            if t.op == "fn" and t.a[0] in SIDE and len(t.a) >= 3:
                side = self.side(t)
                if side is not None:
                    k.add(("out" if pol else "in", side))
            if not pol and t.op in ("ld",) and t.a[1] == "_fontInfo":
                k.add("nofont")
        k |= self.blank(st)
        if k:
            st.ext["k"] = frozenset(k)
        super().edge(I, fr, st, p, succ, info)

    def blank(self, st):
        """What is known about the letters seen in this turn of a loop over a text."""
        sp, no = set(), {}
        for a in st.facts:
            if a[0] not in ("t", "f", "nz", "z"):
                continue
            t, pol = a[1], a[0] in ("t", "nz")
            if t.op == "eq" and any(x is C(160) for x in t.a):
                x = [x for x in t.a if x is not C(160)][0]
            elif t.op == "eq" and any(x is C(0) for x in t.a):
                x = [x for x in t.a if x is not C(0)][0]
                if not (x.op == "fn" and x.a[0] == "iswspace"):
                    continue
                x, pol = x.a[1], not pol
            elif t.op == "fn" and t.a[0] == "iswspace":
                x = t.a[1]
            else:
                continue
            if pol:
                sp.add(x)
            else:
                no[x] = no.get(x, frozenset()) | {t.op == "eq" and C(160) in t.a}
        out = set()
        for x in sp:
            out.add("blank")
            if x.op == "elem":
                out.add(("of", x.a[0]))
        if any(len(v) == 2 for x, v in no.items()):
            out.add("letter")
        return out

    def side(self, t):
        x, y = self.cs(t.a[1]), self.cs(t.a[2])
        name = t.a[0]
        if x.startswith("clip"):
            x, y = y, x
            name = FLIP[name]
        m = re.match(r"clip(\d)\(\)$", y)
        if not m:
            return None
        k = int(m.group(1))
        good = GRAPHIC[k] == x and name == ("equalOrSmaller", "equalOrSmaller", "equalOrLarger",
                                            "equalOrLarger")[k]
        return k if good else None

    def turn(self, I, fr, st, key):
        st.ext["k"] = self.flags(st) | {("turn", key)}
        super().turn(I, fr, st, key)

    def left(self, I, fr, st, key):
        c = None
        if self.ran_out:
            c = self.cont if self.cont_addr is None else I.load(st, I.deref(self.cont_addr))
        if c is not None and ("turn", key) not in self.flags(st) and (
                self.cont_addr is not None or result(c)):
            st.ext["k"] = self.flags(st) | {("zero", c)}
        if c is not None and result(c):
            st.ext["k"] = self.flags(st) | {("all", key)}
        if ("turn", key) in self.flags(st):
            st.ext["k"] = self.flags(st) - {("turn", key)}
        if self.ran_out and "this._page.figures" in (self.cs(self.cont_addr), self.cs(self.cont)):
            st.ext["k"] = self.flags(st) | {("searched", key)}

    def ran(self, st, key, cont, var, start):
        self.searched[key] = var

    def exit(self, I, fr, st):
        if fr.up is None and I.reporting:
            self.done.append(st)


# searches with a predicate of their own: what they find is not looked into
SEARCHES = ("all_of", "any_of", "none_of", "find_if", "find_if_not", "count_if",
            "find_first_not_of")
SIDE = ("equalOrSmaller", "equalOrLarger", "smaller", "larger")
FLIP = {"equalOrSmaller": "equalOrLarger", "equalOrLarger": "equalOrSmaller", "smaller": "larger",
        "larger": "smaller"}
CTM = "getCTM(state)[%d]"


def result(c):
    """What a function outside of the program returned."""
    return c.op == "sym" and repr(c).endswith("'res'))")


def padd(p, q, k=1):
    r = dict(p)
    for m, x in q.items():
        r[m] = r.get(m, 0) + k * x
        if not r[m]:
            del r[m]
    return r


def pmul(p, q):
    r = {}
    for m, x in p.items():
        for n, y in q.items():
            z = tuple(sorted(m + n))
            r[z] = r.get(z, 0) + x * y
    return {m: x for m, x in r.items() if x}


def ptext(p):
    return "(" + "+".join("%s%s" % ("" if x == 1 and m else "%g" % x + ("*" if m else ""), "*".join(m))
                          for m, x in sorted(p.items())) + ")" \
        if len(p) != 1 or list(p.values()) != [1.0] or len(list(p)[0]) != 1 else list(p)[0][0]


def at(name, k=1.0):
    return {(name,): k}


GRAPHIC = (CTM % 4, CTM % 5, ptext(padd(at(CTM % 4), at(CTM % 0))), ptext(padd(at(CTM % 5), at(CTM % 3))))


def handlers(prog):
    """The methods that take what Poppler reports."""
    devs = set(f.get("cls") for f in prog.functions.values()
               if any(o.startswith("OutputDev::") for o in f.get("overrides", ())))
    out = []
    for d in sorted(devs):
        ms = {}
        for f in prog.functions.values():
            if f.get("cls") == d:
                for o in f.get("overrides", ()):
                    ms[o.split("::")[-1]] = f
        out.append((d, ms))
    return out


def names(f):
    out = {}
    for k, p in enumerate(f["params"]):
        out[p["d"]] = "state" if "GfxState" in p["t"] else "arg%d" % k
    return out


def follow(prog, r, f):
    d = Draw(prog, mk("this", f["cls"]), names(f))
    I = Interp(prog, d)
    I.max_depth = 10
    I.run_root(f)
    r.analysed |= set(I.analysed)
    if I.cut:
        raise AnalysisError("analysis of %s incomplete: %s" % (f["name"], sorted(I.cut)[:2]))
    return d, I


def event(prog, r, name, f, cls):
    d, I = follow(prog, r, f)
    short = f["name"].split("::")[-1]
    this = d.this

    def ob(kind, key, good, msg):
        r.ob(kind, "%s/%s" % (short, key), good, "%s: %s" % (short, msg))

    for kind, key, msg in d.problems:
        ob(kind, key, False, msg)
    ob("list", "lists", True, "")
    what = cls[3:].lower()
    for st in d.done:
        obj = dict(st.ext.get("obj", ()))
        put = st.ext.get("put", ())
        k = d.flags(st)
        mine = [v for v, c in obj.items() if c == cls]
        if any(x[0] == "of" and empty(st, x[1]) is True or
               x[0] == "zero" and empty(st, x[1]) is False for x in k if isinstance(x, tuple)):
            continue      # a text is empty if and only if it has no letters
        val = lambda loc: I.load(st, loc)
        fld = lambda b, *p: val(mk("F", b, p[0])) if len(p) == 1 else \
            fld(val(mk("F", b, p[0])), *p[1:])
        if not mine:
            if cls == "PdfCharacter":
                good = "nofont" in k or "search" in k or "blank" in k and "letter" not in k and any(
                    x[0] == "all" and d.whole(x[1], d.searched.get(x[1])) for x in k
                    if isinstance(x, tuple))
                why = "a character is not recorded although it is no white space and has a font"
            elif cls == "PdfGraphic":
                good = any(x[0] == "out" for x in k if isinstance(x, tuple))
                why = "an image is not recorded although it lies within the clip box"
            else:
                good, why = False, "a path is not recorded"
            ob("once", "skip", good, why)
            continue
        for v, c in obj.items():
            n = sum(1 for _, x, _ in put if x is v)
            ob("once", c + "/new", n == 1, "a new %s is recorded %d times on some path" % (
                c[3:].lower(), n))
        ob("once", cls + "/count", len(mine) == 1, "%d new %ss for one" % (len(mine), what))
        for loc, v, m in put:
            if v not in obj:
                ob("once", "strange", False, "something other than the new element is recorded")
        if cls == "PdfCharacter":
            ob("once", "blank", not ("blank" in k and "letter" not in k),
               "a character that is white space is recorded")
        if cls == "PdfGraphic":
            ob("once", "inside", sum(1 for x in k if isinstance(x, tuple) and x[0] == "in") == 4,
               "an image that does not lie within the clip box is recorded")
        el = mine[0]
        dst = [(l, m) for l, v, m in put if v is el]
        figs = [v for v, c in obj.items() if c == "PdfFigure"]
        page = fld(this, "_page")
        if len(dst) != 1:
            continue
        loc, m = dst[0]
        base = loc.a[0]
        ob("where", "list", loc.a[1] == LISTS[cls], "a %s is recorded among the %s" % (
            what, loc.a[1]))
        bs = d.cs(base)
        fig = None
        if base is page or bs == "this._page":
            kind = "page"
            ob("where", "page", m, "a %s goes to the page although its clip box is not that of the "
               "page" % what)
        elif base in figs:
            kind = "new"
            fig = base
            fl = [(l, v) for l, v, _ in put if v is base]
            ob("where", "new", len(fl) == 1 and fl[0][0].a[0] is page and fl[0][0].a[1] == "figures",
               "a new figure is not put into the page")
            s = [x[1] for x in k if isinstance(x, tuple) and x[0] == "searched"]
            ob("where", "search", any(d.whole(x, d.searched.get(x)) for x in s),
               "a new figure is made without having looked at all figures of the page")
            for i, c in enumerate(CLIP):
                ob("where", c, d.cs(fld(base, c)) == "clip%d()" % i,
                   "%s of a new figure is not that of the clip box" % c)
            ob("field", "figure/doc", d.cs(fld(base, "doc")) == "this._doc",
               "a figure without its document")
            ob("field", "figure/page", d.cs(fld(base, "pos", "pageNum")) == "this._page.pageNum",
               "a figure with a wrong page number")
            ob("field", "figure/id", isid(fld(base, "id")), "a figure without a new id")
        else:
            kind = "old"
            fig = base
            ob("where", "figure", m and bs.startswith("this._page.figures["), "a %s goes to a "
               "figure that is not known to have its clip box" % what)
            ob("where", "figure/new", not figs, "a figure is made that gets nothing")
        ob("where", "clip", ("page" in k) == (kind == "page"), "a %s drawn with the clip box of "
           "the page goes to a figure" % what if "page" in k else
           "a %s goes to the page although its clip box is not that of the page" % what)
        # what the element says
        g = lambda *p: d.cs(fld(el, *p))
        ob("field", "doc", g("doc") == "this._doc", "a %s without its document" % what)
        ob("field", "page", g("pos", "pageNum") == "this._page.pageNum",
           "the page number of a %s is %s" % (what, g("pos", "pageNum")))
        ob("field", "id", isid(fld(el, "id")), "a %s without a new id" % what)
        ob("field", "rank", g("rank") == "this._numElements", "the rank of a %s is %s" % (
            what, g("rank")))
        ob("field", "count", d.poly(fld(this, "_numElements")) ==
           {("this._numElements",): 1.0, (): 1.0}, "the rank of the next element is not one more")
        if fig is not None:
            for i, c in enumerate(BOX):
                old = mk("ld", val(mk("F", fig, "pos")), c, mk("ep0", c))
                mine_ = d.cs(dict(st.ext.get("bx", ())).get((fld(el, "pos"), c), NULL))
                have = d.cs(fld(fig, "pos", c))
                want = mine_ if kind == "new" else "%s(%s)" % (
                    ("min", "max")[i > 1], ",".join(sorted((mine_, d.cs(old)))))
                ob("box", "%s/%s" % (kind, c), have == want, "%s of a figure does not enclose the "
                   "%s put into it" % (c, what))
        if cls == "PdfGraphic":
            for i, c in enumerate(BOX):
                have = d.cs(dict(st.ext.get("bx", ())).get((fld(el, "pos"), c), NULL))
                a, b = ("min", "max") if i < 2 else ("max", "min")
                j = i % 2
                inner = "%s(%s)" % (a, ",".join(sorted((GRAPHIC[j], GRAPHIC[j + 2]))))
                ob("box", "graphic/" + c, have == "%s(%s)" % (
                    b, ",".join(sorted((inner, "clip%d()" % i)))),
                   "%s of an image is %s" % (c, have))
        if cls == "PdfCharacter":
            character(r, d, I, st, el, fld, ob)
    return d


def character(r, d, I, st, el, fld, ob):
    charbox(r, d, I, st, el, fld, ob)
    g = lambda *p: d.cs(fld(el, *p))
    this = d.this
    names_ = set(d.cs(v) for v, fs in d.choices(I, st, fld(el, "fontName"))
                 if not (d.cs(v) == '""' and any(a[0] in ("f", "z") and d.cs(a[1]) ==
                                                 "this._fontInfo" for a in fs)))
    ob("field", "font", names_ == {"this._fontInfo.fontName"}, "the font of a character is %s" %
       sorted(names_))
    ob("field", "size", g("fontSize") == "getTransformedFontSize(state)",
       "the font size of a character is %s" % g("fontSize"))
    ob("field", "opacity", g("opacity") == "getStrokeOpacity(state)",
       "the opacity of a character is %s" % g("opacity"))
    for i, c in enumerate("rgb"):
        v = I.load(st, mk("E", mk("&", mk("F", el, "color")), C(i)))
        ob("field", "color/" + c, d.cs(v) == "colToDbl(getStrokeRGB().%s)" % c,
           "color %s of a character is %s" % (c, d.cs(v)))


def at2(*ps):
    """Product of polynomials or names."""
    r = {(): 1.0}
    for p in ps:
        r = pmul(r, at(p) if isinstance(p, str) else p)
    return r


def psum(*ps):
    r = {}
    for p in ps:
        r = padd(r, p)
    return r


def trm(j):
    """Column j of the text rendering matrix (after text matrix, then transformation matrix)."""
    tm = ["getTextMat(state)[%d]" % i for i in range(4)]
    fs, hs, rise = "getFontSize(state)", "getHorizScaling(state)", "getRise(state)"
    up = psum(at2(tm[2], CTM % j), at2(tm[3], CTM % (2 + j)))
    along = psum(at2(tm[0], CTM % j), at2(tm[1], CTM % (2 + j)))
    here = psum(at2("getCurX(state)", CTM % j), at2("getCurY(state)", CTM % (2 + j)), at(CTM % (4 + j)))
    return (at2(fs, hs, along), at2(fs, up), padd(here, at2(rise, up)), here)


def glyph(j, u, v):
    """Where a corner of the box of a glyph comes to lie."""
    fm = ["this._fontInfo.fontMatrix[%d]" % i for i in range(6)]
    a, b, o, _ = trm(j)
    fx = psum(at2(u, fm[0]), at2(v, fm[2]), at(fm[4]))
    fy = psum(at2(u, fm[1]), at2(v, fm[3]), at(fm[5]))
    return psum(at2(fx, a), at2(fy, b), o)


FS = "getTransformedFontSize(state)"
ASC, DESC = (FS, "this._fontInfo.ascent"), (FS, "this._fontInfo.descent")


def expected(vertical, rot, width):
    """The box of a character at its origin, by the direction of its text."""
    o = [trm(j)[2] for j in (0, 1)]
    n = [psum(at2(width, trm(j)[0]), trm(j)[3]) for j in (0, 1)]
    asc, desc, size = at2(*ASC), at2(*DESC), at(FS)
    m = lambda p, q: padd(p, q, -1)
    if vertical:
        x = (m(o[0], size), o[0]) if rot in (0, 3) else (o[0], psum(o[0], size))
        y = (m(o[1], size), o[1]) if rot in (0, 1) else (o[1], psum(o[1], size))
        return x[0], y[0], x[1], y[1]
    return {0: (o[0], m(o[1], asc), n[0], m(o[1], desc)),
            1: (psum(o[0], desc), o[1], psum(o[0], asc), n[1]),
            2: (o[0], psum(o[1], desc), n[0], psum(o[1], asc)),
            3: (m(o[0], asc), n[1], m(o[0], desc), o[1])}[rot]


KNOWN = re.compile(r"get(CTM|TextMat)\(state\)\[\d\]$|get(CurX|CurY|FontSize|HorizScaling|Rise|"
                   r"TransformedFontSize)\(state\)$|this\._fontInfo\.(ascent|descent|fontMatrix\[\d\])$")


def charbox(r, d, I, st, el, fld, ob):
    """The box of a character is that of its glyph or of its font where the character is drawn."""
    pos = fld(el, "pos")
    rot = I.load(st, mk("F", pos, "rotation"))
    bx = dict(st.ext.get("bx", ()))
    corners = set()
    for i, c in enumerate(BOX):
        seen = set()
        for v, fs in d.choices(I, st, bx.get((pos, c), NULL)):
            j = i % 2
            if v.op in ("min", "max"):
                seen.add("glyph")
                want = "min" if i < 2 else "max"
                ps = [d.poly(x) for x in v.a]
                us = []
                good = v.op == want and len(ps) == 2
                for p in ps:
                    at_ = lambda k: [n for m_ in p for n in m_ if not KNOWN.match(n) and
                                     "this._fontInfo.fontMatrix[%d]" % k in m_]
                    u, w = set(at_(0)), set(at_(2))
                    ok = len(u) == 1 and len(w) == 1 and u != w and \
                        same(p, glyph(j, list(u)[0], list(w)[0]))
                    good = good and ok
                    us.append(tuple(u | set()) + tuple(w))
                corners.add(tuple(sorted(us)))
                ob("box", "character/glyph/" + c, good, "%s of a character is not that of its "
                   "glyph as it is drawn" % c)
                continue
            p = d.poly(v)
            w = set(n for m_ in p for n in m_ if not KNOWN.match(n))
            width = list(w)[0] if len(w) == 1 else "width"
            cases = [(b, i_) for b in (False, True) for i_ in range(4)
                     if all(holds(d, a, b, i_, rot) for a in fs)]
            seen.add("font")
            good = all(same(p, expected(b, i_, width)[i]) for b, i_ in cases)
            ob("box", "character/%s" % c, good, "%s of a character with rotation %s%s is not that "
               "of its font where it is drawn" % (c, sorted(set(i_ for _, i_ in cases)),
                                                  " in vertical text" if all(
                                                      b for b, _ in cases) else ""))
        ob("box", "character/kinds/" + c, seen == {"glyph", "font"}, "%s of a character does not "
           "come from both glyph and font" % c)
    ob("box", "character/corners", len(corners) == 1, "the sides of the box of a character come "
       "from different corners of its glyph")
    ob("field", "wMode", d.cs(I.load(st, mk("F", pos, "wMode"))) == "getWMode(getFont(state))",
       "the writing mode of a character is not that of its font")


def same(p, q):
    return all(abs(p.get(m, 0) - q.get(m, 0)) < 1e-9 for m in set(p) | set(q))


def holds(d, a, vert, k, rot):
    """Can fact a be true if the text is vertical or not and has rotation k?"""
    if a[0] not in ("t", "f", "z", "nz"):
        return True

    def ev(t):
        if t is rot:
            return k
        if isc(t):
            return t.a[0]
        if d.cs(t) == "getWMode(getFont(state))":
            return int(vert)
        if t.op == "eq":
            x, y = ev(t.a[0]), ev(t.a[1])
            return None if x is None or y is None else x == y
        if t.op in ("not", "and", "or"):
            xs = [ev(x) for x in t.a]
            if t.op == "not":
                return None if xs[0] is None else not xs[0]
            stop = t.op == "or"
            return stop if any(x is not None and bool(x) == stop for x in xs) else \
                None if None in xs else not stop
        if t.op == "ite":
            c = ev(t.a[0])
            x, y = ev(t.a[1]), ev(t.a[2])
            return (x if c else y) if c is not None else x if x == y else None
        return None
    v = ev(a[1])
    return v is None or bool(v) == (a[0] in ("t", "nz"))


def truth(d, fs, name):
    for a in fs:
        if a[0] in ("t", "nz") and d.cs(a[1]) == name:
            return True
        if a[0] in ("f", "z") and d.cs(a[1]) == name:
            return False
    return None


def empty(st, c):
    """Is it known whether container c holds something?"""
    n = mk("size", c)
    for e in (mk("eq", ZERO, n), mk("eq", n, ZERO)):
        if ("t", e) in st.facts:
            return True
        if ("f", e) in st.facts:
            return False
    return True if st.entails(le_atom(n, ZERO)) else False if st.entails(le_atom(ONE, n)) else None


def isid(v):
    return v.op == "fn" and v.a[0] == "createRandomString" and len(v.a) >= 3 and v.a[2].op == "s"


def pages(prog, r, f):
    """Each page that begins becomes one page of the document, and the current one."""
    d, I = follow(prog, r, f)
    this = d.this

    def ob(key, good, msg):
        r.ob("page", key, good, "%s: %s" % (f["name"].split("::")[-1], msg))

    for kind, key, msg in d.problems:
        ob(key, False, msg)
    for st in d.done:
        obj = dict(st.ext.get("obj", ()))
        put = st.ext.get("put", ())
        ps = [v for v, c in obj.items() if c == "PdfPage"]
        good = len(ps) == 1 and len(put) == 1 and put[0][1] is ps[0] and \
            d.cs(put[0][0]) == "this._doc.pages"
        ob("new", good, "a page is not put into the document exactly once")
        if not ps:
            continue
        ob("current", I.load(st, mk("F", this, "_page")) is ps[0],
           "what is drawn next goes to another page")
        ob("number", d.cs(I.load(st, mk("F", ps[0], "pageNum"))) == "arg0",
           "the page has another number")
        for i, c in enumerate(CLIP):
            ob(c, d.cs(I.load(st, mk("F", ps[0], c))) == "clip%d()" % i,
               "%s of the page is not that of the clip box" % c)


def fonts(prog, r, f):
    """The current font is the one Poppler names, and the same font for the same name."""
    d, I = follow(prog, r, f)
    name = f["name"].split("::")[-1]
    for st in d.done:
        v = I.load(st, mk("F", d.this, "_fontInfo"))
        font = truth(d, st.facts, "getFont(state)")
        vs = [x for x, _ in d.choices(I, st, v)]
        if font is False:
            r.ob("font", "none", all(x is NULL for x in vs), "%s: the font of before stays the "
                 "current one if there is none" % name)
        else:
            r.ob("font", "current", not any(x is NULL or d.cs(x) == "this._fontInfo" for x in vs),
                 "%s: the current font does not become the one that is set" % name)
    keys = set(d.cs(k) for k, _ in d.keys)
    r.ob("font", "key", len(keys) == 1, "%s: fonts are looked up by %d different names" % (
        name, len(keys)))
    r.ob("font", "named", all(k.op != "s" for k, _ in d.keys), "%s: all fonts have the same name" %
         name)


def run(prog, r, tier):
    r.rule("event", "Each kind of drawing that Poppler reports is taken, and Poppler is told to "
           "report it.", 8)
    r.rule("page", "The start of a page makes one page of the document, with its number and clip "
           "box, and makes it the current one.", 6)
    r.rule("once", "What is drawn becomes one new element that is recorded once, unless it is "
           "white space, has no font or lies outside of the clip box.", 3)
    r.rule("where", "An element goes to the page if it has its clip box, otherwise to the figure "
           "with that clip box, which is made if there is none.", 3)
    r.rule("list", "Elements are only added to the lists of a page or figure, at the end.", 3)
    r.rule("field", "A new element has its document, its page number, an id and the next rank; a "
           "character has the font, size, opacity and color it was drawn with.", 10)
    r.rule("font", "The current font is the one that is set, none if there is none; fonts are "
           "looked up and kept by one name.", 3)
    r.rule("box", "The box of a figure encloses each element put into it; the box of an image is "
           "that of the unit square as it is drawn, within the clip box; the box of a character "
           "is that of its glyph or of its font where it is drawn.", 8)
    devs = handlers(prog)
    if len(devs) != 1:
        raise AnalysisError("expected one output device, found %d" % len(devs))
    dev, ms = devs[0]
    for name, want in sorted(ANSWERS.items()):
        f = ms.get(name)
        if f is None:
            r.ob("event", name, name not in ("upsideDown", "useDrawChar", "interpretType3Chars"),
                 "%s does not say %s" % (dev, name))
            continue
        vals = set()
        for b in f["B"].values() if isinstance(f["B"], dict) else f["B"]:
            for e in b["e"]:
                if e.get("ret"):
                    n = f["nodes"].get(e.get("v"), {})
                    vals.add(bool(int(n["v"])) if n.get("k") == "bool" else
                             bool(int(n["cv"])) if "cv" in n else None)
        r.ob("event", name, vals == {want}, "%s: %s answers %s instead of %s" % (
            f["name"], name, sorted(map(str, vals)), want))
    for name, cls in sorted(EVENTS.items()):
        f = ms.get(name)
        r.ob("event", name, f is not None, "%s takes no %s" % (dev, name))
        if f is not None:
            event(prog, r, name, f, cls)
    if "updateFont" not in ms:
        r.ob("event", "updateFont", False, "%s takes no updateFont" % dev)
    else:
        fonts(prog, r, ms["updateFont"])
    if "startPage" not in ms:
        r.ob("event", "startPage", False, "%s takes no startPage" % dev)
    else:
        pages(prog, r, ms["startPage"])

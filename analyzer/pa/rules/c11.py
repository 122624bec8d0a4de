"""C11: a text element has the bounding box, page, text and font of its parts."""
from .. import query
from ..facts import AnalysisError
from ..fold import Fold
from ..interp import Budget, Interp
from ..par import pmap
from ..terms import T, ZERO, isc, le_atom, mk, show

NS = "ppp::types::"
PARTS = {NS + "PdfWord": "characters", NS + "PdfTextLine": "words", NS + "PdfTextBlock": "lines",
         NS + "PdfPageSegment": "elements"}
BACK = {NS + "PdfWord": "word", NS + "PdfTextLine": "line", NS + "PdfTextBlock": "block"}
BOX = (("leftX", "min", "leftX", "rightX"), ("upperY", "min", "upperY", "lowerY"),
       ("rightX", "max", "rightX", "leftX"), ("lowerY", "max", "lowerY", "upperY"))
POS = [b[0] for b in BOX] + ["pageNum", "rotation", "wMode"]
OWN = ["text", "fontName", "fontSize", "doc"]
COUNT = {"mostFreq", "sumCounts", "mostFreqCount", "max"}
CHANGE = {"push_back", "emplace_back", "insert", "assign", "clear", "operator=", "pop_back",
          "erase", "resize", "swap", "emplace"}


class Parts(Fold):
    def __init__(self, prog, dead=None):
        super().__init__(prog)
        self.result = []
        self.follow = None

    def inline(self, I, fr, f):
        if f.get("cls", "").startswith("ppp::utils::counter::"):
            return False
        if f.get("cls", "").startswith("ppp::utils::log") or f["name"].endswith("createRandomString"):
            return False
        return f.get("ctor") or f.get("lambda") or self.follow is None or f["u"] in self.follow

    def join_ext(self, key, vals):
        if key == "todo":
            out = []
            for v in vals:
                for x in v or ():
                    if x not in out:
                        out.append(x)
            return tuple(out)
        return super().join_ext(key, vals)

    def todo(self, st, x, cls):
        act = self.active(st)
        # What came from the caller is finished when the function ends.
        e = (x, cls, act[-1] if act and x.op != "iv" else None)
        cur = st.ext.get("todo", ())
        if not any(y[0] is x for y in cur):
            st.ext["todo"] = cur + (e,)

    def new(self, I, fr, st, node, val):
        n = fr.f["nodes"][node]
        c = n.get("cls") or n.get("t", "").replace(" *", "")
        if c in PARTS:
            self.todo(st, val, c)

    def owner(self, I, fr, n, oloc):
        """Class whose list of parts a location is, by its field."""
        if oloc is None or oloc.op != "F":
            return None
        o = fr.f["nodes"].get(n.get("o"), {})
        for c, p in PARTS.items():
            if oloc.a[1] == p and (o.get("cls") in (None, c) or c in self.bases(o["cls"])):
                t = o.get("t", "")
                if o.get("k") == "member":
                    if o.get("cls") == c:
                        return c
                elif p != "words" and p != "characters" and p != "lines":
                    return c
                elif self.ptrclass.get(oloc.a[0]):
                    return self.ptrclass[oloc.a[0]]
        return None

    ptrclass = {}

    def bases(self, c):
        return ()

    def called(self, I, fr, st, node, n, oloc, args, val):
        super().called(I, fr, st, node, n, oloc, args, val)
        if n.get("cls", "").startswith("ppp::utils::counter::") and query.base(n) in COUNT and \
                oloc is not None:
            st.vals[node] = mk("fn", query.base(n), I.addr(oloc))
        if oloc is not None and oloc.op == "F" and query.base(n) in CHANGE:
            c = self.owner(I, fr, n, oloc)
            if c:
                self.todo(st, oloc.a[0], c)
        if query.base(n) == "swap" and len(args) == 2 and not n.get("cls"):
            for a in args:
                l = I.loc(fr, st, a)
                m = fr.f["nodes"].get(a, {})
                if m.get("k") == "member" and PARTS.get(m.get("cls")) == m.get("name"):
                    self.todo(st, l.a[0], m["cls"])

    def check(self, I, fr, st, e):
        x, cls, _ = e
        F = lambda b, f: I.load(st, mk("F", b, f))
        P = F(x, PARTS[cls])
        self.note(st, P)
        if st.entails(le_atom(mk("size", P), ZERO)):
            return
        pos = F(x, "pos")
        vals = {f: (F(pos, f), self.nf(I, fr, st, F(pos, f))) for f in POS}
        for f in OWN:
            vals[f] = (F(x, f), self.nf(I, fr, st, F(x, f)))
        own = {f: self.leaf(I, fr, st, mk("ld", pos, f, st.ep.get("?"))) for f in ()}
        self.result.append((x, cls, P, pos, vals, fr.f["name"]))

    def on_turn(self, I, fr, st, key, how):
        super().on_turn(I, fr, st, key, how)
        self.flush(I, fr, st, key)

    def flush(self, I, fr, st, key):
        cur = st.ext.get("todo", ())
        keep = tuple(e for e in cur if e[2] != key)
        if len(keep) != len(cur):
            if I.reporting:
                for e in cur:
                    if e[2] == key:
                        self.check(I, fr, st, e)
            st.ext["todo"] = keep

    def exit(self, I, fr, st):
        super().exit(I, fr, st)
        if fr.up is None and I.reporting:
            for e in st.ext.get("todo", ()):
                self.check(I, fr, st, e)


class Judge:
    """Decides what a finished analysis says about one element."""

    def __init__(self, fo):
        self.fo = fo
        self.broken = set(k for k, vs in fo.variants.items() if any(v[2] == "break" for v in vs))

    def version(self, c, P, seen=None):
        """Is content c a permutation of P, or what P grew from, or the other way round?"""
        return c in self.closure(P) or P in self.closure(c)

    def closure(self, x, d=0):
        """The contents that x is a permutation of, or has grown from."""
        out = {x}
        if d < 20:
            if x in self.fo.perm:
                out |= self.closure(self.fo.perm[x], d + 1)
            if self.fo.maybe.get(x):
                out |= set.intersection(*[self.closure(y, d + 1) for y in self.fo.maybe[x]])
        return out

    def isparts(self, leafc, P, exact=False):
        return leafc[0] == "t" and (leafc[1] is P and not leafc[2] or
                                    not exact and not leafc[2] and self.version(leafc[1], P) or
                                    leafc[2] and self.samefield(leafc, P))

    def samefield(self, leafc, P):
        fs = []
        x = P
        while x.op in ("ld", "fld", "F"):
            fs.append(str(x.a[1]))
            x = x.a[0]
        return x is leafc[1] and tuple(reversed(fs)) == leafc[2]

    def whole(self, key, starts=(0,)):
        """The loop visits every element (from one of the starts on)."""
        return key not in self.broken and any(
            self.fo.whole(key, v) and s in starts for v, s in self.fo.full.get(key, ()))

    def elements(self, key, P, exact=False, starts=(0,)):
        ts = self.fo.terms.get(key, set())
        return bool(ts) and all(self.isparts(t, P, exact) for t in ts) and self.whole(key, starts)

    # ---------------------------------------------------------------- hull
    def hull(self, v, op, co, other, P, own):
        """None if v is the smallest (largest) coordinate of the parts, else what it is."""
        if v[0] != "fold":
            return "it is not computed over all parts"
        key, h = v[1], v[2]
        starts = (0,)
        ins = set()
        for i in self.fo.init.get((key, h), ()):
            # Without any part, the box may be anything.
            ins |= set(x for c, x in i[1] if not any(
                k[0] == "empty" and y and self.version(k[1], P) for k, y in c)) \
                if i[0] == "alt" else {i}
        ups = self.fo.upd.get((key, h), set())
        first = False
        for i in ins:
            if i[0] == "at" and i[1] == 0 and self.isparts(i[2], P) and i[3] == ("pos", co):
                first = True
            elif self.neutral(i, op):
                first = first or None
            elif i == own:
                continue
            elif i[0] == "fold":
                r = self.hull(i, op, co, other, P, own)
                if r:
                    return r
            else:
                return "it starts with %s" % self.say(i)
        if not ins and not self.grown(own[1], P):
            return "its start is unknown"
        if ins and all(i[0] == "at" for i in ins):
            starts = (0, 1)
        if not self.elements(key, P, starts=starts):
            return "the loop does not visit every part"
        for u in ups:
            if u[0] != op:
                return "a turn of the loop makes it %s" % self.say(u)
            seen = set()
            for y in u[1]:
                if y == ("acc",):
                    seen.add("acc")
                elif y[0] == "el" and y[1] == key and y[3] in (("pos", co), ("pos", other)):
                    seen.add(y[3][1])
                else:
                    return "a turn of the loop takes in %s" % self.say(y)
            if "acc" not in seen or co not in seen:
                return "a turn of the loop makes it %s" % self.say(u)
        if not ups:
            return "the loop does not compute it"
        return None

    def grown(self, x, P):
        """The parts of x were only added to, so that its old box is that of some of them."""
        for c in self.closure(P):
            if c.op == "ld" and c.a[0] is x and c.a[1] in PARTS.values():
                return True
            if c.op == "phi" and isinstance(c.a[0], tuple) and len(c.a[0]) == 2 and \
                    not self.fo.init.get(c.a[0]) and \
                    c.a[1] in [show(mk("ld", x, p)) for p in PARTS.values()]:
                ups = self.fo.upd.get(c.a[0], ())
                if ups and all(u[0] == "t" and not u[2] and c in self.closure(u[1]) for u in ups):
                    return True
        return False

    @staticmethod
    def neutral(i, op):
        if i[0] == "t" and i[1].op == "lim":
            return i[1].a[0] in (("max", "infinity") if op == "min" else ("lowest",))
        if i[0] == "t" and i[1].op == "neg" and i[1].a[0].op == "lim":
            return op == "max" and i[1].a[0].a[0] in ("max", "infinity")
        if i[0] == "c" and isinstance(i[1], float):
            return i[1] > 1e300 if op == "min" else i[1] < -1e300
        return False

    def say(self, v):
        if v[0] == "t" and v[1].op == "lim":
            return "numeric_limits::%s()" % v[1].a[0]
        if v[0] == "t":
            return ".".join([show(v[1])[:40]] + list(v[2]))
        if v[0] in ("el", "at"):
            return "%s.%s" % ("the part" if v[0] == "el" else "part [%s]" % v[1], ".".join(v[3]))
        if v[0] == "acc":
            return "the value so far"
        if v[0] == "c":
            return str(v[1])
        if v[0] == "s":
            return repr(v[1])
        if v[0] in ("min", "max", "cat", "fn", "alt"):
            def it(y):
                if isinstance(y, tuple) and y and isinstance(y[0], frozenset):
                    return self.say(y[1])
                return self.say(y) if isinstance(y, tuple) and y else str(y)
            xs = v[1] if v[0] != "fn" else v[1:]
            return "%s(%s)" % (v[0], ", ".join(sorted(it(y) for y in xs)))
        return v[0]

    # ---------------------------------------------------------------- first part
    def first(self, v, f, P):
        return v[0] == "at" and v[1] == 0 and self.isparts(v[2], P) and v[3] == f or \
            v[0] == "alt" and all(self.first(x[1], f, P) or self.default(x[1]) for x in v[1]) and \
            any(self.first(x[1], f, P) for x in v[1])

    @staticmethod
    def default(v):
        return v[0] == "c"

    # ---------------------------------------------------------------- text
    def joined(self, v, P, cls, depth=0):
        """None if v is the text of the parts, with one blank between them (none in a word)."""
        if v[0] == "cat" and len(v[1]) == 1:
            v = v[1][0]
        if v[0] != "fold":
            return "it is not composed of the parts"
        key, h = v[1], v[2]
        for i in self.fo.init.get((key, h), ()):
            if i != ("cat", ()):
                return "it starts with %s" % self.say(i)
        if not self.elements(key, P, exact=True):
            return "the loop does not visit every part in order"
        ups = self.fo.upd.get((key, h), set())
        if not ups:
            return "the loop does not compose it"
        for u in ups:
            for conds, seq in self.flat(u):
                r = self.piece(conds, seq, key, cls)
                if r:
                    return r
        return None

    def flat(self, u):
        """(conditions, sequence of pieces) of an update."""
        for conds, seq, others in self.paths(u, frozenset(), ()):
            for c2 in others:
                # On every other path, what is decided on this one is decided otherwise.
                rest = [y for y in c2 if y not in conds]
                if len(rest) == 1 and (rest[0][0], not rest[0][1]) not in conds:
                    conds = conds | {(rest[0][0], not rest[0][1])}
            yield conds, seq

    def paths(self, u, conds, others):
        if u[0] == "alt":
            for c, x in u[1]:
                if any((k, not p) in conds for k, p in c):
                    continue
                more = tuple(c2 for c2, x2 in u[1] if x2 != x and c2 and all(
                    k[0] == "el" for k, _ in c2))
                yield from self.paths(x, conds | c, others + more)
        elif u[0] == "cat":
            outs = [(conds, (), others)]
            for y in u[1]:
                nxt = []
                for c, s, o in outs:
                    if y[0] in ("alt", "cat"):
                        for c2, s2, o2 in self.paths(y, c, o):
                            nxt.append((c2, s + s2, o2))
                    else:
                        nxt.append((c, s + (y,), o))
                outs = nxt
            yield from outs
        else:
            yield conds, (u,), others

    def piece(self, conds, seq, key, cls):
        cs = dict(conds)
        seq = list(seq)
        if cls == NS + "PdfWord":
            base = self.cond(cs, key, "isBaseCharOfDiacriticMark")
            mark = self.cond(cs, key, "isDiacriticMarkOfBaseChar")
            want = "textWithDiacriticMark" if base else None if mark else "text"
            if seq[:1] != [("acc",)] and seq != []:
                return "a turn of the loop drops what was composed before"
            got = [y[3][0] if y[0] == "el" and y[1] == key and len(y[3]) == 1 else self.say(y)
                   for y in seq[1:]]
            if base is None or mark is None and not base:
                # not every case is told apart
                if got != ["text"]:
                    return "a turn of the loop adds %s" % (got or "nothing")
                return "marks and their base characters are not told apart"
            if got != ([want] if want else []):
                return "a turn of the loop adds %s instead of %s" % (
                    got or "nothing", want or "nothing")
            return None
        # with blanks in between
        blank = ("s", " ")
        body = [y for y in seq if y != blank]
        if len(body) == 2 and body[0] == ("acc",) and body[1][0] == "el" and \
                body[1][1] == key and body[1][3] == ("text",):
            return self.blanks(cs, key, seq)
        elif cls == NS + "PdfTextBlock" and len(body) == 1 and body[0][0] == "fold":
            starts, r = self.words(body[0], key)
            if r:
                return r
            for c, before in starts:
                if any((k, not p) in conds for k, p in c):
                    continue
                r = self.blanks(dict(conds | c), key, [("acc",)] + before +
                                ["text" if y == body[0] else y for y in seq])
                if r:
                    return r
            return None
        elif cls == NS + "PdfTextBlock" and len(body) == 2 and body[0] == ("acc",) and \
                body[1][0] == "fold":
            # the text of the line is composed on its own
            _, r = self.words(body[1], key, True)
            return r or self.blanks(cs, key, seq)
        return "a turn of the loop makes it %s" % self.say(("cat", tuple(seq)))

    def flag(self, cs, key):
        """Is it the first turn, by a variable that every turn leaves with another value?"""
        for k, p in cs.items():
            if k[0] == "flag" and k[1] == key:
                a, b = self.fo.init.get(k[1:], set()), self.fo.upd.get(k[1:], set())
                if len(a) == len(b) == 1:
                    a, b = list(a)[0], list(b)[0]
                    if a[0] == b[0] == "c" and bool(a[1]) != bool(b[1]):
                        return p == bool(a[1])
        return None

    def blanks(self, cs, key, seq):
        """There is one blank between what was composed before and the text of this turn."""
        first = cs.get(("first", key))
        if first is None:
            first = self.flag(cs, key)
        last = cs.get(("last", key))
        pos = [k for k, y in enumerate(seq) if y == ("s", " ")]
        if last is not None:
            want = [] if last else [2]
        elif first is not None:
            want = [] if first else [1]
        else:
            return "there is not exactly one blank between parts"
        if pos != want:
            return "there is not exactly one blank between parts"
        return None

    def words(self, v, outer, own=False):
        """An inner loop appends the texts of the words of the current line."""
        key, h = v[1], v[2]
        starts = []
        for i in self.fo.init.get((key, h), ()):
            for c, seq in self.flat(i):
                if own:
                    if seq:
                        return [], "it starts with %s" % self.say(i)
                    continue
                if not seq or seq[0] != ("acc",) and seq[0][0] != "outer" or any(
                        y != ("s", " ") for y in seq[1:]):
                    return [], "it starts with %s" % self.say(i)
                starts.append((c, list(seq[1:])))
        ts = self.fo.terms.get(key, set())
        if not ts or not self.whole(key) or not all(
                t[0] == "el" and t[1] == outer and t[3] == ("words",) for t in ts):
            return [], "the loop does not visit every word of a line"
        ups = self.fo.upd.get((key, h), set())
        for u in ups:
            for conds, seq in self.flat(u):
                r = self.piece(conds, seq, key, NS + "PdfTextLine")
                if r:
                    return [], r
        return starts or [(frozenset(), [])], None if ups else "the loop does not compose it"

    @staticmethod
    def cond(cs, key, field):
        for k, p in cs.items():
            if k[0] == "el" and k[1] == key and k[3] == (field,):
                return p
        return None

    # ---------------------------------------------------------------- font
    def frequent(self, v, field, P, cls, own):
        """None if v is the most frequent value of field among the parts."""
        outs = [x for _, x in v[1]] if v[0] == "alt" else [v]
        hit = 0
        for x in outs:
            if x[0] == "fn" and x[1] == "mostFreq" and len(x) == 3 and x[2][0] == "t":
                r = self.counted(x[2][1], field, P, cls)
                if r:
                    return r
                hit += 1
            elif self.default(x) or x == ("cat", ()) or x == own or x[0] == "t":
                continue        # only without any part (see the rule on the guard)
            else:
                return "it is %s" % self.say(x)
        return None if hit else "it is not the most frequent one"

    def counted(self, c, field, P, cls):
        """Each turn of one loop over the parts counts the field of the part once."""
        keys = []
        for key, turns in self.fo.turns.items():
            if any(e[0] == "inc" and self.same(e[1], c) for ev in turns for e in ev):
                keys.append(key)
        if len(keys) != 1:
            return "it is counted in %d loops" % len(keys)
        key = keys[0]
        for ev in self.fo.turns[key]:
            incs = [e for e in ev if e[0] == "inc" and self.same(e[1], c)]
            if len(incs) != 1:
                return "a turn of the loop counts %d values" % len(incs)
            k = incs[0][2]
            if not (k[0] == "el" and k[1] == key and k[3] == (field,)):
                return "%s is counted" % self.say(k)
        if self.elements(key, P):
            return None
        ts = self.fo.terms.get(key, set())
        if cls == NS + "PdfTextLine" and ts and self.whole(key) and all(
                t[0] == "el" and t[3] == ("characters",) and self.elements(t[1], P) for t in ts):
            return None
        return "the loop does not visit every part"

    @staticmethod
    def same(a, b):
        while a.op == "&" and a.a[0].op == "D":
            a = a.a[0].a[0]
        while b.op == "&" and b.a[0].op == "D":
            b = b.a[0].a[0]
        return a is b or mk("&", a) is b or mk("&", b) is a

    def backs(self, x, cls, P):
        f = BACK[cls]
        why = "no loop sets it"
        for key, turns in self.fo.turns.items():
            hits = 0
            for ev in turns:
                s = [e for e in ev if e[0] == "set" and e[2] == f and e[1][1] == key and
                     not e[1][3]]
                if s and s[-1][3][:2] == ("t", x) and not s[-1][3][2]:
                    hits += 1
            if hits and self.elements(key, P):
                if hits == len(turns):
                    return None
                why = "not in every turn of the loop"
        return why


def judge(fo, out):
    J = Judge(fo)
    for x, cls, P, pos, vals, fname in fo.result:
        k = cls.split("::")[-1]
        own = lambda f: ("t", x, ("pos", f))

        def say(rule, f, why):
            out.append((rule, "%s.%s" % (k, f), not why,
                        "%s: %s of a %s is not that of its parts: %s" % (fname, f, k, why)))
        for f, op, co, other in BOX:
            raw, v = vals[f]
            say("box", f, J.hull(v, op, co, other, P, own(f)))
        say("page", "pageNum", None if J.first(vals["pageNum"][1], ("pos", "pageNum"), P)
            else "it is " + J.say(vals["pageNum"][1]))
        if cls != NS + "PdfPageSegment":
            for f in ("rotation", "wMode"):
                say("page", f, None if J.first(vals[f][1], ("pos", f), P)
                    else "it is " + J.say(vals[f][1]))
            say("text", "text", J.joined(vals["text"][1], P, cls))
            for f in ("fontName", "fontSize"):
                say("font", f, J.frequent(vals[f][1], f, P, cls, ("t", x, (f,))))
            say("part", BACK[cls], J.backs(x, cls, P))
        v = vals["doc"][1]
        good = J.first(v, ("doc",), P) or v[0] == "t" and v[2][-1:] in (("_doc",), ("doc",)) and (
            v[1].op == "this" or v[1] is x)
        say("page", "doc", None if good else "it is " + J.say(v))


def root(arg):
    from .. import facts
    prog = facts.load()
    u, follow = arg
    f = prog.functions[u]
    fo = Parts(prog)
    fo.follow = follow
    I = Interp(prog, fo, budget=600000)
    I.run_root(f)
    out = []
    judge(fo, out)
    return out


def run(prog, r, tier):
    r.rule("box", "at the place where an element is finished, each coordinate of its bounding box "
           "is the minimum (maximum) over all its parts, starting from a neutral value", 8)
    r.rule("page", "page, rotation, writing mode and document are those of the first part", 4)
    r.rule("text", "the text is that of all parts in order, with one blank between words and lines", 2)
    r.rule("font", "font and size are the most frequent ones: every part is counted once", 2)
    r.rule("part", "every part refers to the element", 2)
    roots = candidates(prog)
    if not roots:
        raise AnalysisError("no function creates text elements")
    for u in roots:
        r.analysed.add(prog.functions[u]["name"])
    for c, p in PARTS.items():
        r.ob("part", c.split("::")[-1] + "." + p, any(
            makes(prog.functions[u], n) == c for u in roots
            for n in prog.functions[u]["nodes"].values()),
            "no function gives a %s its %s" % (c.split("::")[-1], p))
    done = dict(zip(roots, pmap(root, [(u, None) for u in roots])))
    final(prog, r, done)


def candidates(prog):
    """The functions that change the list of the parts of an element themselves."""
    m = prog.fn("main")
    live = query.reachable(prog, [f["u"] for f in m])
    out = []
    for u in sorted(live):
        f = prog.functions[u]
        if f.get("ctor") or f.get("dtor") or f["name"].split("::")[-1].startswith("~"):
            continue
        if any(makes(f, n) for n in f["nodes"].values()):
            out.append(u)
    return out


def makes(f, n):
    """The class of the element whose list of parts a node changes."""
    if n["k"] != "call" or query.base(n) not in CHANGE:
        return None
    o = f["nodes"].get(n.get("o")) or f["nodes"].get((n.get("a") or [None])[0]) or {}
    if o.get("k") != "member" or PARTS.get(o.get("cls")) != o.get("name"):
        return None
    # An element that is held by value is scratch space of the function.
    e = f["nodes"].get(o.get("b"), {})
    return o["cls"] if e.get("t", "").rstrip("const ").endswith("*") else None


def final(prog, r, done):
    """What does not hold at the end of a function may still hold at the end of all its callers."""
    callers = {}
    for u, cs in query.callgraph(prog).items():
        for c in cs:
            callers.setdefault(c, set()).add(u)
    for u, obs in done.items():
        bad = [o for o in obs if not o[2]]
        if bad:
            ups = sorted(c for c in callers.get(u, ()) if c != u)
            try:
                up = [done[c] if c in done else root((c, None)) for c in ups]
            except Budget:
                ups = []
            keys = set((o[0], o[1]) for o in obs)
            if ups and all(keys <= set((o[0], o[1]) for o in x) and
                           all(o[2] for o in x if (o[0], o[1]) in keys) for x in up):
                obs = [o for x in up for o in x]
        for kind, key, good, msg in obs:
            r.ob(kind, key + "@" + prog.functions[u]["name"].split("::")[-1], good, msg)

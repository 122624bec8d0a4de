"""Linear flow of elements: which container receives each element, and how often.

On top of the grammar of loops (trav.py), every insertion of an element into a container and every
transfer of a whole container is recorded with canonical paths, and each container that only the
function itself owns carries a state:
  E  empty      P  holds elements that are nowhere else yet      D  its elements were handed on
A clear, an overwrite or the end of the scope of a container in state P loses elements; handing on
a container in state D, or adding to it, duplicates them.
"""
import re

from . import query
from .terms import C, NULL, ONE, T, ZERO, le_atom, mk
from .trav import Trav

KIND = re.compile(r"ppp::types::(Pdf\w+|Cut) \*")
MOVERS = ("push_back", "emplace_back", "push", "emplace", "push_front", "emplace_front")
PERMUTE = ("sort", "stable_sort", "reverse", "partial_sort")


def holds(t):
    """Does a container type hold pointers to elements?"""
    return bool(KIND.search(t)) and "stack<" not in t and ("vector<" in t or "map<" in t or "list<" in t or
                                     "deque<" in t or "set<" in t)


class Flow(Trav):
    def __init__(self, prog, roots=None, drain=None, track=True):
        super().__init__(prog, roots)
        self.drain = drain or set()
        self.track = track
        self.errs = set()
        self.seen = set()          # functions visited
        self.news = ()             # classes whose new objects must be placed
        self.copies = {}           # function -> (index of source argument, index of result)
        self.heap = set()          # what new returned
        self.touch = None          # functions worth following
        self.cvars = set()         # local containers of elements
        self.views = set()         # local containers whose content never goes anywhere
        self.link = self.linked = None   # fields that make one element a part of another
        self.links = {}            # (function, place) of such stores -> what is known there
        self.cuts = set()          # positions of cuts
        self.rngs = {}             # loop key -> (range, where the next one starts) of its turns
        self.starts = {}           # (loop key, variable) -> values before the loop
        self.exempt = ()           # fields of an element that tell what happens to it

    # ---------------------------------------------------------------- names
    def canon(self, I, fr, st, t, depth=0):
        if t.op == "dyncast":
            return self.canon(I, fr, st, t.a[0], depth + 1)
        if t.op == "obj":
            return "new:" + self.objname(t)
        if t.op not in ("V", "F", "E", "D", "&"):
            for l in self.cvars:
                if st.env.get(l) is t:
                    return "local:" + str(l.a[1])
            if t.op in ("phi", "sym") and depth < 30 and not self.current(st, t) or \
                    t.op == "phi" and depth < 30 and t.a[0][0] in self.active(st):
                for l, v in st.env.items():
                    if v is t and l.op in ("F", "E"):
                        return self.canon(I, fr, st, l, depth + 1)
        p = super().canon(I, fr, st, t, depth)
        if p.startswith("?") and depth < 30:
            for l, v in st.env.items():
                if v is t and l.op == "V":
                    q = dict(st.ext.get("nm", ())).get(l)
                    if q is not None:
                        return q[1]
            for l, v in st.env.items():
                if v is t and l.op in ("V", "F"):
                    q = self.canon(I, fr, st, l, depth + 5)
                    if "?" not in q:
                        return q
        return p

    @staticmethod
    def objname(t):
        return re.sub(r"[^A-Za-z]", "", str(t.a[-1]) if t.a else "obj") or "obj"

    def cond(self, I, fr, st, t, pol):
        if t.op == "dyncast":
            return ("cast", self.canon(I, fr, st, t), t.a[1]), pol
        if t.op == "eq" and NULL in t.a:
            x = t.a[0] if t.a[1] is NULL else t.a[1]
            if x.op == "dyncast":
                return ("cast", self.canon(I, fr, st, x), x.a[1]), not pol
        if t.op == "eq" and ZERO in t.a:
            x = t.a[0] if t.a[1] is ZERO else t.a[1]
            if x.op == "size":
                return ("empty", self.canon(I, fr, st, x.a[0])), pol
        return super().cond(I, fr, st, t, pol)

    def cond_le(self, I, fr, st, a):
        items = dict(a[1])
        if len(items) == 1:
            t, k = list(items.items())[0]
            if t.op == "size":
                if k == -1 and a[2] == 1:
                    return ("empty", self.canon(I, fr, st, t.a[0])), False
                if k == 1 and a[2] == 0:
                    return ("empty", self.canon(I, fr, st, t.a[0])), True
        return super().cond_le(I, fr, st, a)

    def conds(self, I, fr, st, facts=None):
        """Only what the rules on elements need."""
        out = set()
        for a in (st.facts if facts is None else facts):
            if a[0] in ("nz", "t", "z", "f"):
                pol = a[0] in ("nz", "t")
                t = a[1]
                if t.op == "eq":
                    if NULL not in t.a and ZERO not in t.a:
                        continue
                    x = t.a[0] if t.a[1] in (NULL, ZERO) else t.a[1]
                else:
                    x = t
                if x.op not in ("dyncast", "size") and not (
                        x.op == "iv" or
                        x.op in ("ld", "F", "fld") and x.a[1] in self.exempt):
                    continue
                r = self.cond(I, fr, st, t, pol)
            elif a[0] == "le":
                r = self.cond_le(I, fr, st, a)
            else:
                continue
            if r is not None and not any("?" in x for x in r[0] if isinstance(x, str)):
                out.add(r)
        return frozenset(out)

    # ---------------------------------------------------------------- states of containers
    def ghosts(self, st):
        return (st.ext.get("acc"), st.ext.get("obj"), st.ext.get("rv"))

    def join_ext(self, key, vals):
        if key == "nm":
            sets = [set(v or ()) for v in vals]
            both = set.intersection(*sets)
            return tuple(sorted(both, key=repr)) or None
        return vals[0]

    def naming(self, I, fr, st, loc, val):
        """Remembers which element a local pointer stands for."""
        if loc is None or loc.op != "V" or val is None:
            return
        nm = [x for x in st.ext.get("nm", ()) if x[0] is not loc]
        q = self.canon(I, fr, st, val)
        if not q.startswith(("?", "local:", "new:", "null")) and "?" not in q:
            nm.append((loc, (len(st.ext.get("stk", ())), q)))
        self.setnm(st, nm)

    def setnm(self, st, nm):
        if nm:
            st.ext["nm"] = tuple(sorted(nm, key=repr))
        else:
            st.ext.pop("nm", None)

    def forget_placed(self, st):
        """What a new element holds does not matter once it has its place."""
        d = dict(st.ext.get("obj", ()))
        gone = set(v for v in self.heap if d.get(v, 1))
        if not gone:
            return
        for l in [l for l in st.env if l.op != "V" and self.rootobj(l) in gone]:
            del st.env[l]
        rest = {v: n for v, n in d.items() if v not in gone}
        if rest:
            st.ext["obj"] = tuple(sorted(rest.items(), key=lambda x: repr(x[0])))
        else:
            st.ext.pop("obj", None)

    @staticmethod
    def rootobj(l):
        while l.op != "obj" and l.a and isinstance(l.a[0], T):
            l = l.a[0]
        return l

    def turn(self, I, fr, st, key):
        super().turn(I, fr, st, key)
        self.forget_placed(st)
        d = len(st.ext.get("stk", ()))
        self.setnm(st, [x for x in st.ext.get("nm", ()) if x[1][0] < d])

    def entered(self, I, fr, st, key):
        if I.reporting and "ppp::utils::" in fr.f["name"]:
            for l, v in st.env.items():
                if l.op == "V":
                    self.starts.setdefault((key, l.h), set()).add(v)

    def on_turn(self, I, fr, st, key, how):
        if I.reporting:
            rs = [e for e in st.ext.get("ev", ()) if e[0] == "range"]
            val = {}
            for l, v in st.env.items():
                if l.op == "V":
                    val[l.h] = v
            self.rngs.setdefault(key, []).append((rs, val))

    def owned(self, loc):
        """The variable or member of this object that loc lies in, or None."""
        x = loc
        while x.op == "E":
            x = x.a[0].a[0] if x.a[0].op == "&" else None
            if x is None:
                return None
        y = x
        while True:
            if y.op == "V":
                return x if not str(y.a[0]).endswith("*") and not str(y.a[0]).startswith("g:") \
                    else None
            if y.op == "F":
                b = y.a[0]
                if b.op == "this":
                    return x
                if b.op == "obj":
                    return None
                if b.op == "&":
                    y = b.a[0]
                    continue
                if b.op == "ld" and b.a[0].op == "this":
                    return None
            if y.op == "E" and y.a[0].op == "&":
                y = y.a[0].a[0]
                continue
            return None

    def get(self, st, loc):
        return dict(st.ext.get("acc", ())).get(loc)

    def put(self, st, loc, s):
        if not self.track or self.view(loc):
            return
        d = dict(st.ext.get("acc", ()))
        if s is None:
            d.pop(loc, None)
        else:
            d[loc] = s
        if d:
            st.ext["acc"] = tuple(sorted(d.items(), key=lambda x: repr(x[0])))
        else:
            st.ext.pop("acc", None)

    def err(self, I, fr, what, loc, msg):
        if I.reporting and self.track:
            self.errs.add((what, fr.f["name"], str(loc.a[1]) if loc.op in ("V", "F") else "?", msg))

    def view(self, c):
        return c.op == "V" and str(c.a[1]) in self.views

    def add(self, I, fr, st, loc):
        c = self.owned(loc)
        if c is None or not self.track or self.view(c):
            return
        if self.get(st, c) == "D":
            self.err(I, fr, "twice", c, "gets new elements while it still has elements that were "
                     "already handed on")
        self.put(st, c, "P")

    def hand_on(self, I, fr, st, loc):
        """The content of loc goes somewhere; its state before."""
        c = self.owned(loc) if loc is not None else None
        if c is None or not self.track:
            return None
        s = self.get(st, c)
        if c is not loc:
            return s           # a part of the container: decided by the loop around
        if s == "D":
            self.err(I, fr, "twice", c, "hands on its elements a second time")
        if s == "P":
            self.put(st, c, "D")
        return s

    def drop(self, I, fr, st, loc, how):
        c = self.owned(loc)
        if c is None or c is not loc or not self.track:
            return
        if self.get(st, c) == "P":
            self.err(I, fr, "lost", c, "%s although its elements are nowhere else" % how)

    def place(self, I, fr, st, v, where):
        c = self.owned(where)
        if c is not None and self.view(c):
            return
        d = dict(st.ext.get("obj", ()))
        while v.op == "dyncast":
            v = v.a[0]
        if v in d:
            d[v] += 1
            if d[v] > 1 and I.reporting:
                self.errs.add(("twice", fr.f["name"], self.objname(v), "a new element is put into "
                               "two containers"))
            d[v] = min(d[v], 2)
            st.ext["obj"] = tuple(sorted(d.items(), key=lambda x: repr(x[0])))

    def unplaced(self, I, st, v, name):
        d = dict(st.ext.get("obj", ()))
        if v in d:
            if d[v] == 0 and I.reporting:
                self.errs.add(("lost", name, self.objname(v),
                               "a new element is put into no container"))
            del d[v]
            if d:
                st.ext["obj"] = tuple(sorted(d.items(), key=lambda x: repr(x[0])))
            else:
                st.ext.pop("obj", None)

    def purge(self, I, st, t):
        self.unplaced(I, st, t, "?")

    def new(self, I, fr, st, node, val):
        n = fr.f["nodes"][node]
        self.heap.add(val)
        if n.get("at", "").split("::")[-1] in self.news:
            d = dict(st.ext.get("obj", ()))
            d[val] = 0
            st.ext["obj"] = tuple(sorted(d.items(), key=lambda x: repr(x[0])))

    def exit(self, I, fr, st):
        if fr.up is None:
            for v in dict(st.ext.get("obj", ())):
                self.unplaced(I, st, v, fr.f["name"])
            for l, s in st.ext.get("acc", ()):
                if s == "P" and l.op == "F":
                    self.err(I, fr, "lost", l, "still holds elements at the end that are nowhere "
                             "else")
        super().exit(I, fr, st)

    def peel(self, fr, i):
        """The node behind wrappers that change nothing."""
        n = fr.f["nodes"].get(i, {}) if i is not None else {}
        while n.get("k") in ("cast", "paren", "temp", "wrap", "bind", "mat") and "e" in n:
            i = n["e"]
            n = fr.f["nodes"].get(i, {})
        return i, n

    def ret(self, I, fr, st, el, val):
        """A container is returned: the caller gets what it holds."""
        t = fr.f["ret"]
        if fr.up is None or "v" not in el or not holds(t) or t.rstrip().endswith(("*", "&")):
            return
        i, n = self.peel(fr, el["v"])
        if n.get("k") == "construct" and (n.get("copy") or n.get("move")) and n.get("a"):
            i, n = self.peel(fr, n["a"][0])
        if not n.get("lv") and i not in st.lvs:
            return
        loc = I.loc(fr, st, i)
        st.ext["rv"] = (fr.f["u"], self.canon(I, fr, st, loc), self.get(st, loc))
        c = self.owned(loc)
        if c is loc:
            self.put(st, loc, None)

    def returned(self, I, fr, st, loc, i):
        """Takes what the call at node i returned into loc."""
        rv = st.ext.get("rv")
        i, n = self.peel(fr, i)
        if n.get("k") == "construct" and (n.get("copy") or n.get("move")) and n.get("a"):
            i, n = self.peel(fr, n["a"][0])
        if rv is None or n.get("k") != "call" or n.get("u") != rv[0]:
            return False
        st.ext.pop("rv")
        self.emit(st, [("app", self.canon(I, fr, st, loc), rv[1])])
        c = self.owned(loc)
        if c is not None and c is loc:
            self.put(st, loc, rv[2] or "P")
        return True

    def scope_end(self, I, fr, st, el):
        if el.get("adtor"):
            l = mk("V", el["adtor"], el.get("name"))
            if self.get(st, l) is not None:
                self.drop(I, fr, st, l, "goes out of scope")
                self.put(st, l, None)

    # ---------------------------------------------------------------- events
    def inline(self, I, fr, f):
        self.seen.add(f["u"])
        return f["name"] not in self.copies and (self.touch is None or f["u"] in self.touch)

    def call(self, I, fr, st, node, n, oloc, args):
        """The names in force before the call changes anything."""
        if n["k"] != "call" or oloc is None:
            return
        if query.base(n) in MOVERS + ("insert", "append") and args and \
                holds(fr.f["nodes"].get(n.get("o"), {}).get("t", "") + n.get("fn", "")):
            v = I.val(fr, st, args[-1])
            st.ext["arg"] = (node, self.canon(I, fr, st, oloc), self.canon(I, fr, st, v))

    def named(self, I, fr, st, node, oloc, v):
        a = st.ext.pop("arg", None)
        if a is not None and a[0] == node:
            return a[1], a[2]
        return self.canon(I, fr, st, oloc), self.canon(I, fr, st, v)

    def called(self, I, fr, st, node, n, oloc, args, val):
        name = query.base(n)
        fn = n.get("fn", "")
        if n["k"] == "call" and fn in self.copies:
            si, ri = self.copies[fn]
            src = I.loc(fr, st, args[si])
            res = I.deref(I.val(fr, st, args[ri]))
            self.emit(st, [("copy", self.canon(I, fr, st, res), self.canon(I, fr, st, src))])
            if self.hand_on(I, fr, st, src) != "E":
                self.add(I, fr, st, res)
            I.havoc_loc(fr, st, res, (node, "copy")) if res.op != "tmp" else None
            return
        ot = fr.f["nodes"].get(n.get("o"), {}).get("t", "") if n["k"] == "call" else ""
        if oloc is None or not holds(ot + fn):
            if n["k"] == "call" and oloc is None:
                self.free(I, fr, st, node, n, args)
            return
        if name in MOVERS and args:
            a = args[-1]
            v = I.val(fr, st, a)
            an = fr.f["nodes"].get(a, {})
            self.emit(st, [("put",) + self.named(I, fr, st, node, oloc, v)])
            if holds(an.get("t", "")):
                src = I.loc(fr, st, a) if an.get("lv") or a in st.lvs else None
                if src is None or self.hand_on(I, fr, st, src) != "E":
                    self.add(I, fr, st, oloc)
            else:
                self.place(I, fr, st, v, oloc)
                self.add(I, fr, st, oloc)
        elif name in ("insert", "append", "assign"):
            vs = [I.val(fr, st, a) for a in args]
            rng = [v for v in vs[-2:]]
            if len(vs) >= 2 and rng[0].op == "begin" and rng[1].op == "end" and \
                    rng[0].a[1] is rng[1].a[1]:
                src = I.deref(rng[0].a[1])
                self.emit(st, [("app", self.canon(I, fr, st, oloc), self.canon(I, fr, st, src))])
                if name == "assign":
                    self.drop(I, fr, st, oloc, "is overwritten")
                if self.hand_on(I, fr, st, src) != "E":
                    self.add(I, fr, st, oloc)
            elif len(vs) in (1, 2) and fr.f["nodes"].get(args[-1], {}).get("ptr"):
                self.emit(st, [("put",) + self.named(I, fr, st, node, oloc, vs[-1])])
                self.place(I, fr, st, vs[-1], oloc)
                self.add(I, fr, st, oloc)
            else:
                self.emit(st, [("odd", name, self.canon(I, fr, st, oloc))])
        elif name == "clear":
            self.emit(st, [("clear", self.canon(I, fr, st, oloc))])
            self.drop(I, fr, st, oloc, "is cleared")
            c = self.owned(oloc)
            if c is not None and c is oloc:
                self.put(st, c, "E")
        elif name == "operator=" and len(args) == 1:
            self.assign(I, fr, st, oloc, args[0], "is overwritten")
        elif name == "empty" and not args:
            s = self.get(st, oloc)
            if s is not None:
                st.vals[node] = ONE if s == "E" else ZERO
        elif name == "size" and not args:
            s = self.get(st, oloc)
            v = st.vals.get(node)
            if s == "E":
                st.vals[node] = ZERO
            elif s is not None and v is not None:
                st.add_atom(le_atom(ONE, v))
        elif name == "swap" and len(args) == 1:
            b = I.loc(fr, st, args[0])
            self.swap(I, fr, st, oloc, b)
        elif name in ("pop_back", "pop_front", "erase", "resize", "pop", "remove", "merge",
                      "splice", "extract", "unique", "emplace_hint", "try_emplace"):
            self.emit(st, [("odd", name, self.canon(I, fr, st, oloc))])

    def swap(self, I, fr, st, a, b):
        oa, ob = self.owned(a), self.owned(b)
        if oa is a and ob is b:
            sa, sb = self.get(st, a), self.get(st, b)
            self.put(st, a, sb)
            self.put(st, b, sa)
        elif oa is a or ob is b:
            if oa is a:
                a, b = b, a
            # what the other one held was handed on before, or counts as lost
            self.emit(st, [("app", self.canon(I, fr, st, a), self.canon(I, fr, st, b))])
            self.hand_on(I, fr, st, b)
        else:
            self.emit(st, [("odd", "swap", self.canon(I, fr, st, a))])

    def free(self, I, fr, st, node, n, args):
        """Functions of the library that may change what a container holds."""
        name = query.base(n)
        if n.get("own"):
            return
        if name == "swap" and len(args) == 2 and holds(fr.f["nodes"].get(args[0], {}).get("t", "")):
            self.swap(I, fr, st, I.loc(fr, st, args[0]), I.loc(fr, st, args[1]))
        if name in ("copy", "move") and len(args) == 3:
            a, b, o = [I.val(fr, st, x) for x in args]
            if a.op == "begin" and b.op == "end" and a.a[1] is b.a[1] and o.op in ("fn", "m") and \
                    str(o.a[0]).endswith("inserter") and isinstance(o.a[1], T):
                src, dst = I.deref(a.a[1]), I.deref(o.a[1])
                self.emit(st, [("app", self.canon(I, fr, st, dst), self.canon(I, fr, st, src))])
                if self.hand_on(I, fr, st, src) != "E":
                    self.add(I, fr, st, dst)
        for a in args:
            v = I.val(fr, st, a)
            if v.op in ("begin", "end", "it") and len(v.a) > 1 and isinstance(v.a[1], T) and \
                    v.a[1].op == "&" and "const" not in fr.f["nodes"].get(a, {}).get("t", "const") \
                    and KIND.search(fr.f["nodes"][a].get("t", "")):
                if name in ("remove", "remove_if", "unique", "fill", "swap_ranges", "replace", "replace_if", "generate"):
                    self.emit(st, [("odd", name, self.canon(I, fr, st, v.a[1]))])
                elif name in PERMUTE:
                    self.emit(st, [("perm", self.canon(I, fr, st, v.a[1]))])
                    return

    def assign(self, I, fr, st, dst, a, how):
        an = fr.f["nodes"].get(a, {})
        src = None
        if an.get("lv") or a in st.lvs:
            src = I.loc(fr, st, a)
        v = I.val(fr, st, a)
        if src is not None and src.op == "tmp":
            src = None
        if src is None:
            i, n = self.peel(fr, a)
            if n.get("k") == "construct" and (n.get("copy") or n.get("move")) and n.get("a") and \
                    self.peel(fr, n["a"][0])[1].get("lv"):
                return self.assign(I, fr, st, dst, n["a"][0], how)
        self.drop(I, fr, st, dst, how)
        if src is None and self.returned(I, fr, st, dst, a):
            return
        if src is not None:
            self.emit(st, [("app", self.canon(I, fr, st, dst), self.canon(I, fr, st, src))])
            s = self.hand_on(I, fr, st, src)
            c = self.owned(dst)
            if c is not None and c is dst:
                self.put(st, c, s if s is not None and s != "D" else "P")
            if dst.op == "V" and dst in self.cvars:
                # a copy is a container of its own
                I.havoc_loc(fr, st, dst, (str(dst.a[0]), "copy"))
        else:
            self.range_or_new(I, fr, st, dst, v)

    def range_or_new(self, I, fr, st, dst, v):
        b = None
        for f in st.facts:
            if f[0] == "t" and f[1].op == "built" and f[1].a[0] is v:
                b = f[1].a[1:]
        c = self.owned(dst)
        if b is not None and len(b) >= 2:
            if b[0].op == "begin" and b[1].op == "end" and b[0].a[1] is b[1].a[1]:
                src = I.deref(b[0].a[1])
                self.emit(st, [("app", self.canon(I, fr, st, dst), self.canon(I, fr, st, src))])
                s = self.hand_on(I, fr, st, src)
                if c is not None and c is dst:
                    self.put(st, c, s if s is not None and s != "D" else "P")
                return
            self.emit(st, [("range", self.canon(I, fr, st, dst), self.bound(I, fr, st, b[0]),
                            self.bound(I, fr, st, b[1]))])
            if c is not None and c is dst:
                self.put(st, c, "P")
            return
        if c is not None and c is dst:
            self.put(st, c, "E")

    def bound(self, I, fr, st, t):
        """(container, offset) of a position in a container."""
        if t.op == "begin":
            return (self.canon(I, fr, st, t.a[1]), ZERO)
        if t.op == "end":
            return (self.canon(I, fr, st, t.a[1]), mk("s", "end"))
        if t.op == "fn" and t.a[0] == "operator+" or t.op == "m:operator+":
            xs = t.a[1:] if t.op == "fn" else t.a
            if len(xs) == 2 and xs[0].op == "begin":
                return (self.canon(I, fr, st, xs[0].a[1]), xs[1])
        return ("?", t)

    def decl(self, I, fr, st, el, loc, val):
        if el.get("ptr") and KIND.search(el.get("t", "")):
            self.naming(I, fr, st, loc, val)
        if not holds(el.get("t", "")) or el.get("ptr") or el.get("ref") or "iterator" in el["t"]:
            return
        if loc.op != "V":
            return
        i = el.get("i")
        n = fr.f["nodes"].get(i, {}) if i is not None else {}
        self.put(st, loc, None)
        self.cvars.add(loc)
        if i is not None and self.returned(I, fr, st, loc, i):
            return
        if n.get("k") == "construct" and (n.get("copy") or n.get("move")) and n.get("a"):
            self.put(st, loc, "E")
            self.assign(I, fr, st, loc, n["a"][0], "")
        elif n.get("k") in ("construct",):
            self.range_or_new(I, fr, st, loc, val)
        elif i is None:
            self.put(st, loc, "E")

    def never(self, I, fr, st, base, field):
        """Is base.field known to be null, or empty?"""
        t = I.load(st, mk("F", base, field))
        if t is NULL or st.knows(t) is False or st.entails(le_atom(mk("size", t), ZERO)):
            return True

        def it(x):
            return x.op == "ld" and x.a[0] is base and x.a[1] == field

        for a in st.facts:      # also before an unrelated element was changed
            if a[0] == "z" and it(a[1]):
                return True
            if a[0] == "le" and a[2] == 0 and len(a[1]) == 1:
                x, k = list(dict(a[1]).items())[0]
                if k == 1 and x.op == "size" and it(x.a[0]):
                    return True
        return False

    def store(self, I, fr, st, node, loc, val, old):
        if loc.op == "F" and loc.a[1] == self.link and val is not NULL:
            x = loc.a[0]
            self.emit(st, [("link", self.canon(I, fr, st, x), self.canon(I, fr, st, val))])
            if I.reporting:
                n = fr.f["nodes"].get(node, {})
                self.links.setdefault((fr.f["name"], query.where(fr.f, n)), []).append((
                    old is NULL or old is not None and st.knows(old) is False or
                    self.never(I, fr, st, x, self.link),
                    self.never(I, fr, st, x, self.linked),
                    self.never(I, fr, st, val, self.link)))
        if loc.op == "F" and loc.a[1] == "posInElements" and I.reporting:
            self.cuts.add((fr.f["name"], self.canon(I, fr, st, val)))
        if loc.op == "V" and KIND.search(fr.f["nodes"].get(node, {}).get("t", "")):
            self.naming(I, fr, st, loc, val)

    def left(self, I, fr, st, key):
        self.forget_placed(st)
        d = len(st.ext.get("stk", ()))
        self.setnm(st, [x for x in st.ext.get("nm", ()) if x[1][0] <= d])
        if not self.ran_out or key not in self.drain or self.cont_addr is None:
            return
        self.hand_on(I, fr, st, I.deref(self.cont_addr))

    # stream output is of no interest
    def write(self, *a, **k):
        pass


PAYLOAD = {"characters", "words", "segments", "blocks", "textLines", "elements", "lines", "second",
           "figures", "graphics", "shapes"}
CARRY = ("words", "lines", "characters", "elements", "second")


def root(path):
    return re.match(r"[^.\[]*", path).group(0)


def live(dst, views=()):
    """Does an element in this container count as kept?"""
    if dst.startswith("local:"):
        return root(dst)[6:] not in views
    return re.sub(r"\[.*$", "", dst.split(".")[-1]) in PAYLOAD or "." not in dst


def own(el):
    return [el] + [el + "." + f for f in CARRY]


def draining(fl):
    """Keys of loops that hand on what they visit."""
    out = set()
    while True:
        new = set()
        for key, vs in fl.variants.items():
            for cont in fl.conts.get(key, ()):
                for ev, cs, how in vs:
                    if consumed(fl, ev, cont + "[]", out):
                        new.add(key)
        if new <= out:
            return out
        out |= new


def consumed(fl, ev, el, drain):
    """How often the events hand on element el (or what it carries)."""
    n = 0
    paths = own(el)
    for e in ev:
        if e[0] in ("put", "app", "copy") and e[2] in paths and live(e[1], fl.views):
            n += 1
        elif e[0] == "loop" and e[1] in drain and e[2] in paths:
            n += 1
    return n


def find_views(fl):
    """Local containers that no element leaves for good."""
    edges, names = {}, set()
    alls = [(ev, ()) for ev, _ in fl.ends] + \
        [(ev, fl.conts.get(k, ())) for k, vs in fl.variants.items() for ev, _, _ in vs]
    for ev, conts in alls:
        for e in ev:
            if e[0] in ("put", "app", "copy", "range"):
                for x in (e[1], e[2] if e[0] != "range" else ""):
                    if x.startswith("local:"):
                        names.add(root(x))
                if e[0] != "range" and e[2].startswith("local:"):
                    edges.setdefault(root(e[2]), set()).add(e[1])
    good = set()
    while True:
        new = set(x for x in names if any(
            (root(d) in good if d.startswith("local:") else live(d)) for d in edges.get(x, ())))
        if new == good:
            return set(x[6:] for x in names - good)
        good = new


def analyse(prog, f, make, names=()):
    """Three passes: the first finds local containers that are mere views, the second the loops
    that hand elements on."""
    from .interp import Interp

    def go(fl):
        fl.names = dict(names)
        I = Interp(prog, fl)
        I.max_depth = 10
        if names:
            fl.roots.update({mk(*k): v for k, v in names})
        I.run_root(f)
        fl.cut = I.cut
        fl.analysed = set(I.analysed)
        return fl

    first = make(None)
    first.track = False
    go(first)
    views = find_views(first)
    first.views = views
    d = draining(first)
    while True:
        fl = make(d)
        fl.views = views
        go(fl)
        fl.drain = d
        more = draining(fl) - d        # names differ once more is known
        if not more:
            return fl
        d = d | more

"""Folds: what a loop computes over the elements of a container, as a symbolic summary.

For each loop and each location that changes in it, the value at the end of a turn is recorded as a
normal form over the value at its start (the accumulator) and the current element, together with the
value before the loop.  Minima and maxima, concatenations and counters are kept apart, so that
"smallest leftX of all words" is one and the same fold however the loop is written.
"""
from . import query
from .interp import State, loops_of
from .terms import NULL, ONE, T, ZERO, C, isc, le_atom, mk
from .trav import Trav, basephi, headkey

PERMUTE = ("sort", "stable_sort", "reverse", "partial_sort", "shuffle", "rotate")
GROW = ("insert", "push_back", "emplace_back", "append", "copy")


class Fold(Trav):
    field_impl = True

    def __init__(self, prog, roots=None):
        super().__init__(prog, roots)
        self.upd = {}       # (loop key, location) -> set of (value at the end of a turn)
        self.init = {}      # (loop key, location) -> values before the loop
        self.terms = {}     # loop key -> contents the loop runs over (normal forms)
        self.left_early = set()
        self.perm = {}      # content -> content it is a permutation or an extension of
        self.sorted = {}    # content -> comparator it was sorted with
        self.maybe = {}     # content -> the contents it may be
        self.before = {}
        self.turns = {}     # loop key -> sets of events of its turns
        self.full = {}      # loop key -> (variable, start) of loops that ran to the end

    # ------------------------------------------------------------ normal forms
    def leaf(self, I, fr, st, t, depth=0):
        fields = []
        x = t
        while True:
            if x.op in ("ld", "fld", "F"):
                fields.append(str(x.a[1]))
                x = x.a[0]
            elif x.op in ("&", "D", "tmp", "get"):
                x = x.a[0]
            else:
                break
        fields = tuple(reversed(fields))
        if depth > 12:
            return ("?", repr(x)[:40])
        idx = None
        if x.op in ("elem", "E"):
            cont, idx = x.a[0], x.a[1]
            if x.op == "E":
                cont = I.load(st, I.deref(cont))
        elif x.op == "itd":
            y = x.a[0]
            while y.op == "itx":
                y = y.a[0]
            if y.op in ("it", "begin"):
                cont, idx = y.a[0], y
        if idx is not None:
            while idx.op == "itx":
                idx = idx.a[0]
            p, n = basephi(idx)
            if p is not None and p.op == "phi" and p.a[0][0] in self.active(st):
                if n == 0:
                    return ("el", p.a[0][0], self.leaf(I, fr, st, cont, depth + 1), fields)
                return ("el%+d" % n, p.a[0][0], self.leaf(I, fr, st, cont, depth + 1), fields)
            if isc(idx) or idx.op == "begin":
                return ("at", 0 if idx.op == "begin" else idx.a[0],
                        self.leaf(I, fr, st, cont, depth + 1), fields)
            return ("at", "?", self.leaf(I, fr, st, cont, depth + 1), fields)
        return ("t", x, fields)

    def nf(self, I, fr, st, v, acc=None, depth=0):
        """Normal form of a value; acc is the term that stands for the accumulator."""
        rec = lambda x: self.nf(I, fr, st, x, acc, depth + 1)
        if v is acc:
            return ("acc",)
        if depth > 14:
            return ("?", repr(v)[:60])
        op = v.op
        if op in ("min", "max"):
            return self.mm(op, [rec(x) for x in v.a])
        if op == "c" or op == "fp":
            return ("c", v.a[0])
        if v is NULL:
            return ("c", None)
        if op == "s":
            return ("cat", (("s", v.a[0]),)) if v.a[0] else ("cat", ())
        if op == "strof" and len(v.a) == 2 and isc(v.a[0]) and isc(v.a[1]):
            return ("cat", (("s", chr(v.a[1].a[0]) * v.a[0].a[0]),))
        if op == "strof" and len(v.a) == 1:
            return rec(v.a[0])
        if op == "cstr":
            return rec(v.a[0])
        if op == "fn" and v.a[0] == "operator+" and len(v.a) == 3:
            parts = []
            for x in v.a[1:]:
                if isc(x) and isinstance(x.a[0], int):
                    parts.append(("s", chr(x.a[0] & 255)))
                    continue
                r = rec(x)
                parts += r[1] if r[0] == "cat" else (r,)
            return ("cat", tuple(parts))
        head = op == "phi" and self.ishead(v.a[0][0])
        if op in ("phi", "ret") and not head:
            alts = self.alts(v, st)
            if alts:
                out = []
                for x, facts in alts:
                    out.append((self.when(I, fr, st, facts, x, alts), rec(x)))
                m = self.as_minmax(st, v, alts, out)
                if m is not None:
                    return m
                vals = set(o[1] for o in out)
                if len(vals) == 1:
                    return vals.pop()
                return ("alt", frozenset(out))
        if head:
            return ("outer" if v.a[0][0] in self.active(st) else "fold", v.a[0][0], v.a[0][1])
        if op == "ite":
            alts = [(v.a[1], (("t", v.a[0]),)), (v.a[2], (("f", v.a[0]),))]
            m = self.as_minmax(st, v, alts, [(None, rec(x)) for x, _ in alts])
            if m is not None:
                return m
            return ("alt", frozenset([
                (self.when(I, fr, st, (("t", v.a[0]),), v, ()), rec(v.a[1])),
                (self.when(I, fr, st, (("f", v.a[0]),), v, ()), rec(v.a[2]))]))
        if op == "fn":
            return ("fn", v.a[0]) + tuple(rec(x) for x in v.a[1:] if isinstance(x, T))
        if op.startswith("m:"):
            return ("fn", op[2:]) + tuple(rec(x) for x in v.a if isinstance(x, T))
        return self.leaf(I, fr, st, v)

    def alts(self, v, st):
        return st.impl.get(v)

    def ishead(self, key):
        f = self.prog.functions.get(key[2]) if len(key) == 4 and key[0] == "b" else None
        return f is not None and key[3] in loops_of(f)

    @staticmethod
    def mm(op, xs):
        flat = set()
        for x in xs:
            if x[0] == op:
                flat |= x[1]
            else:
                flat.add(x)
        return (op, frozenset(flat)) if len(flat) > 1 else next(iter(flat))

    def as_minmax(self, st, v, alts, out):
        """if (a < b) b = a  and the like."""
        if len(alts) != 2:
            return None
        (x, fx), (y, fy) = alts
        for (a, fa), (b, fb), na, nb in (((x, fx), (y, fy), out[0][1], out[1][1]),
                                         ((y, fy), (x, fx), out[1][1], out[0][1])):
            for f in fa:
                if f[0] in ("t", "nz", "f", "z") and f[1].op in ("lt", "le"):
                    p, q = f[1].a
                    pos = f[0] in ("t", "nz")
                    if (p, q) == (a, b):
                        return self.mm("min" if pos else "max", [na, nb])
                    if (p, q) == (b, a):
                        return self.mm("max" if pos else "min", [na, nb])
        return None

    def when(self, I, fr, st, facts, x, alts):
        """Canonical conditions: null tests and positions in the loop."""
        out = set()
        s2 = State()
        s2.facts = set(st.facts) | set(facts)
        for a in facts:
            pol = a[0] in ("t", "nz")
            if a[0] in ("t", "nz", "f", "z"):
                t = a[1]
                while t.op == "not":
                    t, pol = t.a[0], not pol
                if t.op == "eq" and NULL in t.a:
                    t, pol = (t.a[0] if t.a[1] is NULL else t.a[1]), not pol
                if t.op == "phi" and self.ishead(t.a[0][0]):
                    out.add((("flag", t.a[0][0], t.a[0][1]), pol))
                    continue
                out.add((self.leaf(I, fr, st, t) if t.op in ("ld", "elem", "fld", "F") else
                         ("t", t.op, ()), pol))
        for c in set(y for a in facts for x in a if isinstance(x, T) for y in contents(x)):
            if s2.entails(le_atom(mk("size", c), ZERO)):
                out.add((("empty", c), True))
        for key, cont, idx in self.indices(st):
            if any(mentions(a, idx) for a in facts):
                size = mk("size", cont)
                if s2.entails(le_atom(idx, size, 2)):
                    out.add((("last", key), False))
                elif s2.entails(le_atom(size, idx, -1)):
                    out.add((("last", key), True))
                if s2.entails(le_atom(ONE, idx)):
                    out.add((("first", key), False))
                elif s2.entails(le_atom(idx, ZERO)):
                    out.add((("first", key), True))
        return frozenset(out)

    def indices(self, st):
        out = []
        for key in self.active(st):
            for l, v, n in self.loopvars(st, key):
                p, _ = basephi(v)
                if p is not None and p.op == "phi" and n in (0, 1):
                    for a in st.facts:
                        if a[0] == "le":
                            for t, k in a[1]:
                                if t.op == "size" and st.entails(le_atom(p, t, 1)):
                                    out.append((key, t.a[0], p))
        return list(dict.fromkeys(out))

    # ------------------------------------------------------------ loops
    def entered(self, I, fr, st, key):
        if not I.reporting:
            return
        for c in list(st.impl):
            self.note(st, c)
        for l, v in st.env.items():
            if l.op in ("V", "F", "D"):
                self.init.setdefault((key, l.h), set()).add(self.nf(I, fr, st, v))

    def on_turn(self, I, fr, st, key, how):
        if not I.reporting:
            return
        for l, v in st.env.items():
            if l.op not in ("V", "F", "D"):
                continue
            p = I.phi(key, l)
            if p not in st.gen:
                continue
            self.upd.setdefault((key, l.h), set()).add(self.nf(I, fr, st, v, p))
        evs = st.ext.get("ev", ())
        self.turns.setdefault(key, set()).add(tuple(evs))

    def left(self, I, fr, st, key):
        super().left(I, fr, st, key)
        if self.ran_out and I.reporting:
            self.terms.setdefault(key, set()).add(self.leaf(I, fr, st, self.cont))
            self.note(st, self.cont)

    def note(self, st, c):
        """Remember what the content of a container may be."""
        if c in st.impl and c not in self.maybe:
            self.maybe[c] = [x for x, _ in st.impl[c] if x is not c]
            for x in self.maybe[c]:
                self.note(st, x)

    # ------------------------------------------------------------ events
    def store(self, I, fr, st, node, loc, val, old):
        if loc.op == "E" and old is not None and val.op == "lin" and \
                val.a[1] == 1 and val.a[0] == ((old, 1),):
            self.emit(st, [("inc", loc.a[0], self.nf(I, fr, st, loc.a[1]))])
        elif loc.op == "F":
            b = self.leaf(I, fr, st, loc.a[0])
            if b[0] == "el":
                self.emit(st, [("set", b, loc.a[1], self.nf(I, fr, st, val))])

    def ran(self, st, key, cont, var, start):
        self.full.setdefault(key, set()).add(
            (var, start.a[0] if isc(start) else 0))

    def called(self, I, fr, st, node, n, oloc, args, val):
        super().called(I, fr, st, node, n, oloc, args, val)
        if not n.get("cls") and query.base(n) in PERMUTE and args:
            v = self.before.pop((fr.ctx, node), None)
            if v is not None and v.op == "begin" and v.a[1].op == "&":
                new = I.load(st, v.a[1].a[0])
                self.perm[new] = v.a[0]
                if query.base(n) in ("sort", "stable_sort"):
                    self.sorted[new] = I.val(fr, st, args[2]) if len(args) > 2 else None
        elif oloc is not None and query.base(n) in GROW:
            old = self.before.pop((fr.ctx, node), None)
            new = I.load(st, oloc)
            if old is not None and new is not old:
                self.perm[new] = old

    def call(self, I, fr, st, node, n, oloc, args):
        if not n.get("cls") and query.base(n) in PERMUTE and args:
            self.before[(fr.ctx, node)] = I.val(fr, st, args[0])
        elif oloc is not None and query.base(n) in GROW:
            self.before[(fr.ctx, node)] = I.load(st, oloc)


def contents(t):
    """The containers whose size or ends a term mentions."""
    todo = [t]
    while todo:
        x = todo.pop()
        if x.op in ("size", "begin", "end") and isinstance(x.a[0], T):
            yield x.a[0]
        todo.extend(y for y in x.a if isinstance(y, T))


def mentions(a, t):
    if a[0] == "le":
        return any(x is t for x, _ in a[1])
    return inside(a[1], t)


def inside(x, t, d=0):
    if x is t:
        return True
    return d < 12 and any(isinstance(y, T) and inside(y, t, d + 1) for y in x.a)


"""Abstract interpreter over the extracted control flow graphs.

Domain: a symbolic store (location -> interned term), a set of atoms known to hold (linear
inequalities, null-ness, opaque predicates), and implications attached to joined values (which atoms
hold on the paths where a boolean, enum or pointer had a given value).  Calls to functions of the
repository are analysed in the caller's context (recursion and a depth bound fall back to a
may-modify summary); library calls are modelled or forget what they can modify.
Rules subclass Hooks; they see events together with the state, and may keep their own state in
State.ext (joined with Hooks.join_ext).
"""
import re
from . import terms as TM
from .terms import (T, C, NULL, TRUE, FALSE, ZERO, ONE, isc, add, mul, le_atom, entails_le, linparts,
                    show)

mk = TM.mk


class Budget(Exception):
    pass


UNSIGNED = set()
POINTER = set()


def nonneg(t):
    return t.op in ("size", "count") or t in UNSIGNED


class State:
    __slots__ = ("env", "ep", "facts", "impl", "vals", "lvs", "refs", "ext", "gen", "ret", "dead",
                 "_les", "forks")

    def __init__(self):
        self.env = {}
        self.ep = {}
        self.facts = set()
        self.impl = {}
        self.vals = {}
        self.lvs = {}
        self.refs = {}
        self.ext = {}
        self.gen = set()
        self.ret = None
        self.dead = False
        self._les = None
        self.forks = None

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.ep = dict(self.ep)
        s.facts = set(self.facts)
        s.impl = dict(self.impl)
        s.vals = dict(self.vals)
        s.lvs = dict(self.lvs)
        s.refs = dict(self.refs)
        s.ext = dict(self.ext)
        s.gen = set(self.gen)
        s.ret = self.ret
        s.dead = self.dead
        s._les = self._les
        s.forks = None
        return s

    def same(self, o):
        return (self.dead == o.dead and self.env == o.env and self.facts == o.facts
                and self.ep == o.ep and self.impl == o.impl and self.refs == o.refs
                and self.ext == o.ext and self.vals == o.vals and self.lvs == o.lvs)

    def key(self):
        return hash((frozenset(self.env.items()), frozenset(self.facts),
                     frozenset(self.ep.items()), frozenset(self.refs.items()),
                     frozenset(self.impl.items()),
                     frozenset(self.ext.items())))

    # ---------------------------------------------------------------- facts
    def add_atom(self, a):
        if a[0] == "le" and not a[1]:
            if a[2] > 0:
                self.dead = True
            return
        self.facts.add(a)
        self._les = None

    def les(self):
        if self._les is None:
            self._les = [a for a in self.facts if a[0] == "le"]
        return self._les

    def entails(self, a):
        k = a[0]
        if k == "le":
            if not a[1]:
                return a[2] <= 0
            if a in self.facts:
                return True
            return entails_le(self.les(), a, nonneg)
        if a in self.facts:
            return True
        if k == "nz":
            t = a[1]
            if isc(t):
                return t.a[0] != 0
            if t.op in ("&", "obj", "s", "this"):
                return True
            if t.op == "ite":
                tt, ff = t.a[1], t.a[2]
                ok1 = self.entails(("nz", tt)) or self.knows(t.a[0]) is False
                ok2 = self.entails(("nz", ff)) or self.knows(t.a[0]) is True
                return ok1 and ok2
            if t in POINTER:
                return False
            return (entails_le(self.les(), le_atom(ONE, t), nonneg)
                    or entails_le(self.les(), le_atom(t, C(-1)), nonneg))
        if k == "z":
            t = a[1]
            if isc(t):
                return t.a[0] == 0
            if t is NULL:
                return True
            return False
        return False

    def knows(self, t):
        """Truth value of a boolean/pointer/int term, or None."""
        op = t.op
        if op == "c":
            return t.a[0] != 0
        if op == "null":
            return False
        if op == "not":
            r = self.knows(t.a[0])
            return None if r is None else not r
        if op == "and":
            r = [self.knows(x) for x in t.a]
            if any(x is False for x in r):
                return False
            if all(x is True for x in r):
                return True
            if ("f", t) in self.facts:
                return False
            return None
        if op == "or":
            r = [self.knows(x) for x in t.a]
            if any(x is True for x in r):
                return True
            if all(x is False for x in r):
                return False
            return None
        if op in ("le", "lt"):
            x, y = t.a
            s = 1 if op == "lt" else 0
            if self.entails(le_atom(x, y, s)):
                return True
            if self.entails(le_atom(y, x, 1 - s)):
                return False
            return None
        if op in ("eq", "ne"):
            r = self.knows_eq(t.a[0], t.a[1])
            if r is None:
                return None
            return r if op == "eq" else not r
        if ("t", t) in self.facts or ("nz", t) in self.facts:
            return True
        if ("f", t) in self.facts or ("z", t) in self.facts:
            return False
        if t in POINTER:
            if self.entails(("nz", t)):
                return True
            return None
        if op == "ite":
            r = self.knows(t.a[0])
            if r is True:
                return self.knows(t.a[1])
            if r is False:
                return self.knows(t.a[2])
            return None
        return None

    def knows_eq(self, x, y):
        if x is y:
            return True
        if x is NULL or y is NULL:
            o = y if x is NULL else x
            if self.entails(("nz", o)):
                return False
            if self.entails(("z", o)):
                return True
            return None
        if isc(x) and isc(y):
            return x.a[0] == y.a[0]
        if x.op == "s" and y.op == "s":
            return x.a[0] == y.a[0]
        if ("t", mk("eq", x, y)) in self.facts or ("t", mk("eq", y, x)) in self.facts:
            return True
        if ("f", mk("eq", x, y)) in self.facts or ("f", mk("eq", y, x)) in self.facts:
            return False
        if x.op in ("c", "lin", "size", "count") or y.op in ("c", "lin", "size", "count") or \
                x in UNSIGNED or y in UNSIGNED:
            if self.entails(le_atom(x, y)) and self.entails(le_atom(y, x)):
                return True
            if self.entails(le_atom(x, y, 1)) or self.entails(le_atom(y, x, 1)):
                return False
        return None


class _Float(set):
    def add(self, t):
        if t.op != "c":      # one term stands for a constant of any type
            set.add(self, t)


_GET = re.compile(r"get<#V[a-zA-Z]+(\d+)#")
FLOATY = _Float()   # terms of floating type: no integer reasoning about them


def assume(st, t, pol, depth=0):
    """Refine st with the truth value pol of term t."""
    if st.dead or depth > 12:
        return
    k = st.knows(t)
    if k is not None and k != pol:
        st.dead = True
        return
    op = t.op
    if op == "not":
        return assume(st, t.a[0], not pol, depth + 1)
    if op == "and":
        if pol:
            for x in t.a:
                assume(st, x, True, depth + 1)
        else:
            unk = [x for x in t.a if st.knows(x) is not True]
            if len(unk) == 1:
                assume(st, unk[0], False, depth + 1)
            else:
                st.add_atom(("f", t))
        return
    if op == "or":
        if not pol:
            for x in t.a:
                assume(st, x, False, depth + 1)
        else:
            unk = [x for x in t.a if st.knows(x) is not False]
            if len(unk) == 1:
                assume(st, unk[0], True, depth + 1)
            else:
                st.add_atom(("t", t))
        return
    if op in ("le", "lt"):
        x, y = t.a
        if x in FLOATY or y in FLOATY:
            st.add_atom(("t" if pol else "f", t))
            return
        s = 1 if op == "lt" else 0
        if pol:
            st.add_atom(le_atom(x, y, s))
        else:
            st.add_atom(le_atom(y, x, 1 - s))
        return
    if op == "ne":
        return assume(st, mk("eq", *t.a), not pol, depth + 1)
    if op == "eq":
        x, y = t.a
        if isc(x) or x is NULL:
            x, y = y, x
        if y is NULL:
            return assume(st, x, not pol, depth + 1)
        if x in FLOATY or y in FLOATY:
            st.add_atom(("t" if pol else "f", t))
            return
        if x.op in ("and", "or", "not", "le", "lt", "eq", "ne") and isc(y):
            return assume(st, x, pol == (y.a[0] != 0), depth + 1)
        if pol:
            st.add_atom(("t", mk("eq", x, y)))
            st.add_atom(le_atom(x, y))
            st.add_atom(le_atom(y, x))
            # x and y are the same value: facts about the one hold for the other
            for p, q in ((x, y), (y, x)):
                if ("nz", p) in st.facts:
                    st.add_atom(("nz", q))
        else:
            st.add_atom(("f", mk("eq", x, y)))
            # sharpen a bound
            if st.entails(le_atom(x, y)):
                st.add_atom(le_atom(x, y, 1))
            elif st.entails(le_atom(y, x)):
                st.add_atom(le_atom(y, x, 1))
        for p, q in ((x, y), (y, x)):
            if p in st.impl and isc(q):
                _impl(st, p, lambda v: None if not isc(v) else (v.a[0] == q.a[0]) == pol, depth)
        if isc(y) and x.op == "ite":
            c, a, b = x.a
            for br, val in ((a, True), (b, False)):
                e = st.knows_eq(br, y)
                if e is not None and e != pol:
                    assume(st, c, not val, depth + 1)
        return
    if op == "ite":
        c, x, y = t.a
        kx, ky = st.knows(x), st.knows(y)
        if kx is not None and kx != pol:
            assume(st, c, False, depth + 1)
            assume(st, y, pol, depth + 1)
            return
        if ky is not None and ky != pol:
            assume(st, c, True, depth + 1)
            assume(st, x, pol, depth + 1)
            return
        st.add_atom(("nz" if pol else "z", t))
        return
    # pointer, bool symbol or integer used as a truth value
    if t in POINTER:
        st.add_atom(("nz" if pol else "z", t))
    elif op in ("size", "count") or t in UNSIGNED or op == "lin":
        if pol:
            return assume(st, mk("eq", t, ZERO), False, depth + 1)
        return assume(st, mk("eq", t, ZERO), True, depth + 1)
    else:
        st.add_atom(("t" if pol else "f", t))
        st.add_atom(("nz" if pol else "z", t))
    if t in st.impl:
        def sel(v):
            if isc(v):
                return (v.a[0] != 0) == pol
            if v is NULL:
                return not pol
            return None
        _impl(st, t, sel, depth)


def _impl(st, t, sel, depth):
    """Values of t: keep the alternatives compatible with what was learned."""
    alts = st.impl.get(t)
    keep = []
    for v, atoms in alts:
        r = sel(v)
        if r is False:
            continue
        keep.append((v, atoms))
    if not keep:
        st.dead = True
        return
    if len(keep) == len(alts):
        pass
    common = set(keep[0][1])
    for _, atoms in keep[1:]:
        common &= set(atoms)
    for a in common:
        st.add_atom(a)
    if len(keep) == 1:
        v = keep[0][0]
        if not isc(v) and v is not NULL and v is not t:
            # t is v on this path
            st.add_atom(("t", mk("eq", t, v)))
            for a in list(st.facts):
                if a[0] in ("nz", "z", "t", "f") and a[1] is t:
                    if a[0] in ("t", "f"):
                        assume(st, v, a[0] == "t", depth + 1)
                    else:
                        st.add_atom((a[0], v))
    st.impl[t] = tuple(keep)


def subst(t, m, memo):
    if t in m:
        return m[t]
    if not t.gen and t.op != "lin":
        # substitution maps may also contain ungenerated terms
        pass
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "lin":
        x = C(t.a[1])
        for s, k in t.a[0]:
            x = add(x, subst(s, m, memo), k)
        r = x
    else:
        ch = False
        na = []
        for x in t.a:
            if isinstance(x, T):
                y = subst(x, m, memo)
                if y is not x:
                    ch = True
                na.append(y)
            else:
                na.append(x)
        r = mk(t.op, *na) if ch else t
        if ch:
            if t in POINTER:
                POINTER.add(r)
            if t in UNSIGNED and r.op not in ("c", "lin"):
                UNSIGNED.add(r)
            if t in FLOATY:
                FLOATY.add(r)
    memo[t] = r
    return r


def subst_atom(a, m, memo):
    if a[0] == "le":
        x = C(a[2])
        for s, k in a[1]:
            x = add(x, subst(s, m, memo), k)
        d, c = linparts(x)
        return ("le", tuple(sorted(((t, v) for t, v in d.items() if v), key=lambda p: p[0].h)), c)
    return (a[0], subst(a[1], m, memo))


def atom_gen(a):
    if a[0] == "le":
        g = frozenset()
        for t, _ in a[1]:
            if t.gen:
                g = g | t.gen
        return g
    return a[1].gen


def atom_terms(a):
    if a[0] == "le":
        return [t for t, _ in a[1]]
    return [a[1]]


_ment = {}


def mentions(t, x):
    """Is x a part of t? (A term is made after its parts.)"""
    if t is x:
        return True
    if t.h < x.h:
        return False
    k = (t, x)
    r = _ment.get(k)
    if r is None:
        if t.op == "lin":
            r = any(mentions(s, x) for s, _ in t.a[0])
        else:
            r = any(isinstance(y, T) and mentions(y, x) for y in t.a)
        if len(_ment) > 2000000:
            _ment.clear()
        _ment[k] = r
    return r


# ------------------------------------------------------------------------------------ hooks

class Hooks:
    """Base class of a rule. Handlers may inspect and (through st.ext only) change the state."""
    all_impl = False     # remember the alternatives of every local at merge points
    field_impl = False   # ... and of every field
    opaque = ()          # qualified-name prefixes that are never analysed in context

    def deref(self, I, fr, st, node, ptr):
        pass

    def index(self, I, fr, st, node, cont, idx, how):
        pass

    def call(self, I, fr, st, node, callee, oloc, args):
        """Before a call is carried out."""

    def called(self, I, fr, st, node, callee, oloc, args, val):
        """After a call."""

    def store(self, I, fr, st, node, loc, val, old):
        pass

    def new(self, I, fr, st, node, val):
        pass

    def delete(self, I, fr, st, node, val):
        pass

    def element(self, I, fr, st, el):
        pass

    def decl(self, I, fr, st, el, loc, val):
        pass

    def scope_end(self, I, fr, st, el):
        pass

    def ret(self, I, fr, st, el, val):
        pass

    def exit(self, I, fr, st):
        """Function exit (root or inlined)."""

    def divide(self, I, fr, st, node, x, y):
        pass

    def branch(self, I, fr, st, block, cond, taken):
        pass

    def purge(self, I, st, t):
        """Generated symbol t gets a new meaning."""

    def edge(self, I, fr, st, p, succ, info):
        """An edge p -> succ is taken. info: back (head or None), enters (head or None), exits."""

    def partition(self, I, fr, st):
        """States with different partition values are kept apart at merge points."""
        return None

    def join_ext(self, key, vals):
        """vals: list of values (None when absent), one per incoming state."""
        return vals[0] if all(v == vals[0] for v in vals) else None

    def inline(self, I, fr, f):
        return True


class Frame:
    __slots__ = ("f", "ctx", "this", "up", "callnode")

    def __init__(self, f, ctx, this, up, callnode=None):
        self.f = f
        self.ctx = ctx
        self.this = this
        self.up = up
        self.callnode = callnode

    def stack(self):
        s = []
        x = self
        while x:
            s.append(x)
            x = x.up
        return s[::-1]

    def depth(self):
        d = 0
        x = self.up
        while x:
            d += 1
            x = x.up
        return d

    def has(self, u):
        x = self
        while x:
            if x.f["u"] == u:
                return True
            x = x.up
        return False


PURE_PREFIX = ("ppp::utils::math::", "ppp::utils::log::")
LOGGER = "ppp::utils::log::Logger"


def order(f):
    """Reverse post order, back-edge targets."""
    if "_rpo" in f:
        return f["_rpo"], f["_heads"]
    _order(f, None)
    loops = loops_of(f)
    if loops:
        # the blocks of a loop come before those after it
        out = {}
        for b in f["B"]:
            mine = [h for h in loops if b in loops[h]]
            ss = [s for s in f["B"][b]["s"] if s is not None]
            out[b] = sorted(ss, key=lambda s: sum(1 for h in mine if s in loops[h]))
        _order(f, out)
        del f["_loopset"]
        loops_of(f)
    return f["_rpo"], f["_heads"]


def _order(f, succs):
    B = f["B"]
    if succs is None:
        succs = {b: [s for s in B[b]["s"] if s is not None] for b in B}
    seen = {}
    post = []
    heads = set()
    stack = [(f["entry"], iter(succs[f["entry"]]))]
    seen[f["entry"]] = 1
    while stack:
        b, it = stack[-1]
        adv = False
        for s in it:
            if s not in seen:
                seen[s] = 1
                stack.append((s, iter(succs[s])))
                adv = True
                break
            elif seen[s] == 1:
                heads.add(s)
        if not adv:
            seen[b] = 2
            post.append(b)
            stack.pop()
    rpo = {b: i for i, b in enumerate(reversed(post))}
    f["_rpo"], f["_heads"] = rpo, heads
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in B[b]["s"]:
            if s is not None:
                preds[s].append(b)
    f["_preds"] = preds


def loops_of(f):
    """Natural loops: head -> set of blocks."""
    if "_loopset" in f:
        return f["_loopset"]
    rpo, heads = order(f)
    out = {}
    for h in heads:
        body = {h}
        stack = [p for p in f["_preds"][h] if rpo[p] >= rpo[h]]
        while stack:
            x = stack.pop()
            if x in body:
                continue
            body.add(x)
            stack.extend(f["_preds"][x])
        out[h] = body
    f["_loopset"] = out
    return out


def declared_in(f, h):
    """(id, name) of the variables declared in the body of the loop with head h."""
    c = f.setdefault("_declin", {})
    if h not in c:
        c[h] = [(e["d"], e["name"]) for b in loops_of(f)[h] for e in f["B"][b]["e"]
                if e.get("decl") and not e.get("slocal")]
    return c[h]


def advanced_in(f, h):
    """Variables a loop advances (++, --, +=, -=) that are declared outside its body."""
    c = f.setdefault("_advin", {})
    if h not in c:
        out = set()
        nodes = f["nodes"]
        for b in loops_of(f)[h]:
            for e in f["B"][b]["e"]:
                n = nodes.get(e.get("n", -1))
                if n is None or n.get("op") not in ("++", "--", "+=", "-="):
                    continue
                i = n.get("o", n.get("e", n.get("x")))
                while i is not None and nodes.get(i, {}).get("k") in ("cast", "paren"):
                    i = nodes[i]["e"]
                x = nodes.get(i, {})
                if x.get("k") == "var":
                    out.add(x.get("d"))
        c[h] = out - set(d for d, _ in declared_in(f, h))
    return c[h]


def locals_of(f):
    if "_locals" not in f:
        L = set(p["d"] for p in f["params"])
        for b in f["B"].values():
            for e in b["e"]:
                if e.get("decl"):
                    L.add(e["d"])
        f["_locals"] = L
    return f["_locals"]


class ModSummary:
    """Fields (by name) a function may store to or mutate, transitively."""

    def __init__(self, prog):
        self.prog = prog
        direct = {}
        calls = {}
        for u, f in prog.functions.items():
            m = set()
            cs = set()
            N = f["nodes"]

            def root(i):
                n = N.get(i)
                if n is None:
                    return
                if n["k"] == "member":
                    m.add(n["name"])
                elif n["k"] == "sub":
                    root(n["b"])
                elif n["k"] == "call" and "o" in n:
                    root(n["o"])
                elif n["k"] == "un" and n["op"] == "*":
                    m.add("*")
                    root(n["e"])
                elif n["k"] in ("cond",):
                    root(n["x"])
                    root(n["y"])
            for n in N.values():
                if n["k"] == "assign":
                    root(n["x"])
                elif n["k"] == "un" and n["op"] in ("++", "--"):
                    root(n["e"])
                elif n["k"] in ("call", "construct"):
                    if "u" in n:
                        cs.add(n["u"])
                    if n["k"] == "call" and "o" in n and not n.get("const"):
                        root(n["o"])
                    for a, pm in zip(n["a"], n.get("pm", "")):
                        if pm in "mp":
                            an = N.get(a)
                            if an and an["k"] == "un" and an["op"] == "&":
                                root(an["e"])
                            else:
                                root(a)
                            if pm == "m" or pm == "p":
                                m.add("*")
            direct[u] = m
            calls[u] = cs
        changed = True
        self.m = direct
        while changed:
            changed = False
            for u in direct:
                for c in calls[u]:
                    if c in direct and not direct[c] <= direct[u]:
                        direct[u] |= direct[c]
                        changed = True
        self.calls = calls


def entire(vs):
    """The content between the two positions, if they are its begin and its end."""
    if len(vs) == 2 and vs[0].op == "begin" and vs[1].op == "end" and vs[0].a[0] is vs[1].a[0]:
        return vs[0].a[0]
    return None


class Interp:
    def __init__(self, prog, hooks, max_depth=8, budget=400000, opaque=()):
        self.prog = prog
        self.hooks = hooks
        self.max_depth = max_depth
        self.budget = budget
        self.steps = 0
        self.reporting = False
        self.reports = {}
        self.memo = {}
        self.opaque = tuple(opaque) + tuple(hooks.opaque)
        if not hasattr(prog, "_mods"):
            prog._mods = ModSummary(prog)
        self.mods = prog._mods
        self.analysed = set()     # functions analysed (root or in context)
        self.sites = {}           # rule instances seen in the reporting pass
        self.cut = set()          # calls not analysed in context
        self.with_handlers = False

    # ------------------------------------------------------------ reports
    def report(self, key, msg):
        if self.reporting:
            self.reports.setdefault(key, msg)

    def site(self, kind, key):
        if self.reporting:
            self.sites.setdefault(kind, set()).add(key)

    def where(self, fr, node):
        if isinstance(node, int):
            node = fr.f["nodes"][node]
        l = node.get("l") if node else None
        s = "%s:%s" % ((node or {}).get("f") or fr.f["file"], l or fr.f["line"])
        return s

    def path(self, fr):
        out = []
        for x in fr.stack():
            out.append(x.f["name"].split("::")[-1] if not x.f.get("lambda") else "lambda")
        return " > ".join(out)

    # ------------------------------------------------------------ symbols
    def fresh(self, fr, st, site, tag, op="sym"):
        t = mk(op, (fr.ctx, fr.f["u"], site), tag)
        self.regen(st, t)
        return t

    def regen(self, st, t):
        if t in st.gen:
            self.purge(st, t)
        st.gen.add(t)

    def purge(self, st, t):
        self.hooks.purge(self, st, t)
        for loc in list(st.env):
            v = st.env[loc]
            if t in loc.gen:
                del st.env[loc]
            elif t in v.gen:
                if loc.op == "V":
                    s = mk("stale", loc, t.op)
                    st.env[loc] = s
                    if v in POINTER:
                        POINTER.add(s)
                        # keep what was known about its null-ness
                        if st.entails(("nz", v)):
                            st.facts.add(("nz", s))
                        else:
                            st.facts.discard(("nz", s))
                    if v in UNSIGNED:
                        UNSIGNED.add(s)
                else:
                    del st.env[loc]
        bad = [a for a in st.facts if t in atom_gen(a)]
        if bad:
            st.facts.difference_update(bad)
            st._les = None
        for k in list(st.impl):
            if t in k.gen:
                del st.impl[k]
            else:
                st.impl[k] = tuple((v, tuple(a for a in at if t not in atom_gen(a)))
                                   for v, at in st.impl[k] if t not in v.gen) or st.impl[k]
                if any(t in v.gen for v, _ in st.impl[k]):
                    del st.impl[k]
        for k in [k for k, v in st.vals.items() if v is not None and t in v.gen]:
            del st.vals[k]
        for k in [k for k, v in st.lvs.items() if t in v.gen]:
            del st.lvs[k]
        for d in [d for d, v in st.refs.items() if t in v.gen]:
            st.refs[d] = mk("staleref", d)

    # ------------------------------------------------------------ memory
    @staticmethod
    def addr(loc):
        if loc.op == "D":
            return loc.a[0]
        return mk("&", loc)

    @staticmethod
    def deref(p):
        if p.op == "&":
            return p.a[0]
        return mk("D", p)

    def ep(self, st, f):
        return st.ep.get(f) or mk("ep0", f)

    def load(self, st, loc):
        v = st.env.get(loc)
        if v is not None:
            return v
        op = loc.op
        if op == "V":
            return mk("iv", loc.a[0], loc.a[1])
        if op == "F":
            b, f = loc.a
            if b.op == "&":
                pv = st.env.get(b.a[0])
                if pv is not None:
                    return mk("fld", pv, f)
            return mk("ld", b, f, self.ep(st, f))
        if op == "E":
            c = self.load(st, self.deref(loc.a[0]))
            if c.op == "s" and isc(loc.a[1]) and 0 <= loc.a[1].a[0] <= len(c.a[0]):
                k = loc.a[1].a[0]
                return C(ord(c.a[0][k]) if k < len(c.a[0]) else 0)
            if c.op == "ilist" and isc(loc.a[1]) and 0 <= loc.a[1].a[0] < len(c.a):
                return c.a[loc.a[1].a[0]]
            return mk("elem", c, loc.a[1])
        if op == "D":
            p = loc.a[0]
            if p.op == "ite":
                return mk("ite", p.a[0], self.load(st, self.deref(p.a[1])),
                          self.load(st, self.deref(p.a[2])))
            return mk("ldp", p, self.ep(st, "*"))
        return mk("val", loc)

    def store(self, fr, st, loc, val, site):
        op = loc.op
        if op == "V":
            self._drop_sub(st, loc)
            st.env[loc] = val
        elif op == "F":
            self.kill_field(fr, st, loc.a[1], site, loc.a[0])
            self._drop_sub(st, loc)
            st.env[loc] = val
        elif op == "E":
            cl = self.deref(loc.a[0])
            old = self.load(st, cl)
            n = self.fresh(fr, st, (site, "elem"), "content")
            if old.gen and n in old.gen:
                old = None
            if old is not None:
                self.eqsize(st, n, old)
            for k in [k for k in st.env if k.op == "E" and k.a[0] is loc.a[0] and not (
                    isc(k.a[1]) and isc(loc.a[1]) and k is not loc)]:
                del st.env[k]
            self._set_content(fr, st, cl, n, (site, "ec"))
            st.env[loc] = val
        elif op == "D":
            st.ep["*"] = self.fresh(fr, st, (site, "ep*"), "ep")
            for k in [k for k in st.env if k.op == "D"]:
                if k is not loc:
                    del st.env[k]
            st.env[loc] = val

    def _set_content(self, fr, st, cl, n, site):
        """The object at cl now has content n (same object)."""
        if cl.op == "F":
            self.kill_field(fr, st, cl.a[1], site, cl.a[0])
        elif cl.op == "D":
            st.ep["*"] = self.fresh(fr, st, (site, "ep*"), "ep")
            for k in [k for k in st.env if k.op == "D" and k is not cl]:
                del st.env[k]
        elif cl.op == "E":
            pass
        st.env[cl] = n

    def eqsize(self, st, n, old, delta=0):
        a, b = mk("size", n), add(mk("size", old), C(delta))
        st.add_atom(le_atom(a, b))
        st.add_atom(le_atom(b, a))

    def _drop_sub(self, st, loc):
        a = mk("&", loc)
        bad = [k for k in st.env if _under(k, a)]
        for k in bad:
            del st.env[k]

    def kill_field(self, fr, st, f, site, base=None):
        st.ep[f] = self.fresh(fr, st, (site, "ep", f), "ep")
        bad = []
        for k in st.env:
            if k.op == "F" and k.a[1] == f:
                if base is not None and k.a[0] is not base and distinct(k.a[0], base):
                    continue
                bad.append(k)
        for k in bad:
            del st.env[k]

    def havoc_loc(self, fr, st, loc, site):
        n = self.fresh(fr, st, (site, "hv"), "havoc")
        if loc.op in ("V", "F", "D"):
            self._drop_sub(st, loc)
            self._set_content(fr, st, loc, n, (site, "hc"))
            for k in [k for k in st.env if k.op == "E" and k.a[0] is self.addr(loc)]:
                del st.env[k]
        elif loc.op == "E":
            self.store(fr, st, loc, n, (site, "he"))
        return n

    # ------------------------------------------------------------ node evaluation
    def N(self, fr, i):
        return fr.f["nodes"][i]

    def loc(self, fr, st, i):
        """Location denoted by an lvalue node."""
        l = st.lvs.get(i)
        if l is not None:
            return l
        n = fr.f["nodes"][i]
        k = n["k"]
        if k == "var":
            return self.varloc(st, n)
        if k == "member":
            b = fr.f["nodes"].get(n["b"])
            if n.get("arrow"):
                base = self.val(fr, st, n["b"])
            elif b is not None and (b.get("lv") or n["b"] in st.lvs):
                base = self.addr(self.loc(fr, st, n["b"]))
            else:
                base = self.val(fr, st, n["b"])
                if base.op != "obj":
                    base = mk("&", mk("tmp", base))
                    # fields of a temporary value
            return mk("F", base, n["name"])
        if k == "sub":
            bn = fr.f["nodes"][n["b"]]
            idx = self.val(fr, st, n["i"])
            if "n" in n or (bn.get("t", "").endswith("]")):
                return mk("E", self.addr(self.loc(fr, st, n["b"])), idx)
            return mk("E", self.val(fr, st, n["b"]), idx)
        if k == "un" and n["op"] == "*":
            return self.deref(self.val(fr, st, n["e"]))
        if k == "un" and n["op"] in ("++", "--"):
            return self.loc(fr, st, n["e"])
        if k == "assign":
            return self.loc(fr, st, n["x"])
        if k == "bin" and n["op"] == ",":
            return self.loc(fr, st, n["y"])
        if k == "cond":
            c = self.val(fr, st, n["c"])
            kk = st.knows(c)
            if kk is True:
                return self.loc(fr, st, n["x"])
            if kk is False:
                return self.loc(fr, st, n["y"])
            return mk("D", mk("ite", c, self.addr(self.loc(fr, st, n["x"])),
                              self.addr(self.loc(fr, st, n["y"]))))
        if k == "binding" and "e" in n:
            return self.loc(fr, st, n["e"])
        if k == "cast":
            return self.loc(fr, st, n["e"])
        if k == "str":
            return mk("D", mk("s", n["v"]))
        # an rvalue materialised as a temporary
        v = self.val(fr, st, i)
        if v.op == "obj":
            return mk("D", v)
        return mk("tmp", v)

    def varloc(self, st, n):
        if "d" in n:
            r = st.refs.get(n["d"])
            if r is not None:
                return self.deref(r)
            return mk("V", n["d"], n["name"])
        return mk("V", "g:" + n.get("qn", n["name"]), n["name"])

    def val(self, fr, st, i):
        if i is None or i < 0:
            return mk("nothing")
        v = st.vals.get(i)
        if v is not None:
            return v
        n = fr.f["nodes"][i]
        if i in st.lvs:
            t = self.load_typed(st, st.lvs[i], n)
            return t
        if n["k"] in ("var", "member", "sub", "binding") or (n["k"] == "un" and n["op"] == "*"):
            return self.rvalue(fr, st, i, n)
        return self.pure(fr, st, i, n)

    def load_typed(self, st, loc, n):
        if loc.op == "tmp":
            return loc.a[0]
        if n.get("t", "").endswith("]") and loc.op in ("V", "F"):
            return self.addr(loc)      # an array stands for its first element
        t = self.load(st, loc)
        self.tag(t, n)
        return t

    @staticmethod
    def tag(t, n):
        if n.get("ptr"):
            if t.op not in ("c",):
                POINTER.add(t)
        elif n.get("ki") == "uint" and t.op not in ("c", "lin"):
            UNSIGNED.add(t)
        elif n.get("ki") == "fp":
            FLOATY.add(t)

    def rvalue(self, fr, st, i, n):
        if n["k"] == "var" and n.get("vk") in ("global", "smember") and "cv" in n and \
                n.get("ki") in ("int", "uint", "bool"):
            return C(int(n["cv"]))
        t = self.load_typed(st, self.loc(fr, st, i), n)
        return t

    def pure(self, fr, st, i, n):
        """Value of a node without side effects (also used to recompute)."""
        k = n["k"]
        if k in ("int", "bool", "enum"):
            return C(int(n["v"]))
        if "cv" in n and n.get("ki") in ("int", "uint", "bool") and k not in ("var", "member"):
            return C(int(n["cv"]))
        if k == "fp":
            t = mk("fp", n["v"])
            FLOATY.add(t)
            return t
        if k == "str":
            return mk("s", n["v"])
        if k == "null":
            return NULL
        if k == "zero":
            return NULL if n.get("ptr") else ZERO
        if k == "this":
            return fr.this
        if k == "un":
            op = n["op"]
            if op == "!":
                return neg(self.val(fr, st, n["e"]))
            if op == "-":
                x = self.val(fr, st, n["e"])
                if n.get("ki") == "fp":
                    t = mk("fneg", x)
                    FLOATY.add(t)
                    return t
                return mul(x, -1)
            if op == "&":
                e = fr.f["nodes"][n["e"]]
                if e["k"] == "fnref":
                    return mk("fnptr", e["u"])
                return self.addr(self.loc(fr, st, n["e"]))
            if op in ("+", "__extension__"):
                return self.val(fr, st, n["e"])
            if op in ("++", "--"):
                return self.load_typed(st, self.loc(fr, st, n["e"]), n)
            t = mk("un", op, self.val(fr, st, n["e"]))
            self.tag(t, n)
            return t
        if k == "bin":
            return self.binop(st, n, n["op"], self.val(fr, st, n["x"]), self.val(fr, st, n["y"]))
        if k == "assign":
            return self.load_typed(st, self.loc(fr, st, n["x"]), n)
        if k == "cond":
            c = self.val(fr, st, n["c"])
            kk = st.knows(c)
            if n.get("t") == "void":
                return mk("nothing")
            if kk is True:
                return self.val(fr, st, n["x"])
            if kk is False:
                return self.val(fr, st, n["y"])
            x, y = self.val(fr, st, n["x"]), self.val(fr, st, n["y"])
            if x is y:
                return x
            t = mk("ite", c, x, y)
            mm = minmax_of(c, x, y)
            if mm is not None:
                t = mm
            self.tag(t, n)
            return t
        if k == "cast":
            v = self.val(fr, st, n["e"])
            if n.get("cast") == "dynamic":
                t = mk("dyncast", v, n["t"])
                POINTER.add(t)
                return t
            if n.get("ki") in ("int", "uint"):
                e = fr.f["nodes"][n["e"]]
                if e.get("ki") == "fp":
                    t = mk("trunc", v)
                    self.tag(t, n)
                    return t
                if n.get("bits") and e.get("bits") and n["bits"] < e["bits"]:
                    if not isc(v):
                        t = mk("narrow", v, n["bits"])
                        self.tag(t, n)
                        return t
                return v
            if n.get("ki") == "fp":
                t = mk("tofp", v)
                FLOATY.add(t)
                return t
            return v
        if k == "initlist":
            return mk("ilist", *[self.val(fr, st, a) for a in n["a"]])
        if k == "fnref":
            return mk("fnptr", n["u"])
        if k == "lambda":
            return mk("lambda", n["u"])
        if k == "sizeof":
            return C(int(n.get("cv", 0)))
        if k in ("call", "construct", "new"):
            t = mk("unk", (fr.ctx, fr.f["u"], i), k)
            self.tag(t, n)
            return t
        t = mk("node", (fr.f["u"], i), n.get("ck", k))
        self.tag(t, n)
        return t

    def binop(self, st, n, op, x, y):
        if op == "&&":
            return conj(x, y)
        if op == "||":
            return disj(x, y)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return cmpterm(op, x, y)
        if op == ",":
            return y
        if n.get("ptr"):
            # pointer arithmetic
            t = mk("padd", x, y if op == "+" else mul(y, -1) if not y.op == "nothing" else y)
            POINTER.add(t)
            return t
        if n.get("ki") == "fp" or (n.get("ki") is None):
            if op in ("+", "*") and x.h > y.h:
                x, y = y, x
            t = mk("f" + op, x, y)
            FLOATY.add(t)
            return t
        if op == "+":
            if x in POINTER or y in POINTER:
                t = mk("fadd", x, y)
                return t
            return add(x, y)
        if op == "-":
            if x in POINTER and y in POINTER:
                t = mk("pdiff", x, y)
                return t
            if n.get("ki") == "uint" and n.get("bits", 0) >= 32:
                if not st.entails(le_atom(y, x)):
                    t = mk("wrapsub", x, y)
                    UNSIGNED.add(t)
                    return t
            return add(x, y, -1)
        if op == "*":
            if isc(x):
                return mul(y, x.a[0])
            if isc(y):
                return mul(x, y.a[0])
        if op == "<<" and isc(y):
            return mul(x, 1 << y.a[0])
        if isc(x) and isc(y):
            a, b = x.a[0], y.a[0]
            try:
                if op == "&":
                    return C(a & b)
                if op == "|":
                    return C(a | b)
                if op == "/" and b:
                    return C(int(a / b))
                if op == "%" and b:
                    return C(a - int(a / b) * b)
                if op == ">>":
                    return C(a >> b)
            except Exception:
                pass
        t = mk("i" + op, x, y)
        if n.get("ki") == "uint":
            UNSIGNED.add(t)
        if op == "/" and isc(y) and y.a[0] > 1:
            # t = x / c, x >= 0 :  c*t <= x <= c*t + c-1
            if st.entails(le_atom(ZERO, x)):
                st.add_atom(le_atom(mul(t, y.a[0]), x))
                st.add_atom(le_atom(x, add(mul(t, y.a[0]), C(y.a[0] - 1))))
                st.add_atom(le_atom(ZERO, t))
        if op == "%" and isc(y) and y.a[0] > 0:
            if st.entails(le_atom(ZERO, x)):
                st.add_atom(le_atom(ZERO, t))
                st.add_atom(le_atom(t, C(y.a[0] - 1)))
        if op == "&" and (isc(x) or isc(y)):
            m = x.a[0] if isc(x) else y.a[0]
            if m >= 0:
                st.add_atom(le_atom(ZERO, t))
                st.add_atom(le_atom(t, C(m)))
        if op == "%" and st.entails(le_atom(ONE, y)) and st.entails(le_atom(ZERO, x)):
            st.add_atom(le_atom(ZERO, t))
            st.add_atom(le_atom(t, y, 1))
        return t

    # ------------------------------------------------------------ effects
    def ev(self, fr, st, i):
        """Evaluate node i as an element of the control flow graph (side effects happen here)."""
        n = fr.f["nodes"][i]
        k = n["k"]
        H = self.hooks
        if k in ("var", "binding", "fnref", "memfn", "declref"):
            st.vals.pop(i, None)
            st.lvs.pop(i, None)
            return
        if k == "member":
            st.vals.pop(i, None)
            st.lvs.pop(i, None)
            if n.get("arrow"):
                H.deref(self, fr, st, i, self.val(fr, st, n["b"]))
            l = self.loc(fr, st, i)
            st.lvs[i] = l
            return
        if k == "sub":
            st.vals.pop(i, None)
            st.lvs.pop(i, None)
            l = self.loc(fr, st, i)
            H.index(self, fr, st, i, l.a[0], l.a[1], "[]")
            st.lvs[i] = l
            return
        if k == "un":
            op = n["op"]
            if op == "*":
                st.vals.pop(i, None)
                st.lvs.pop(i, None)
                p = self.val(fr, st, n["e"])
                H.deref(self, fr, st, i, p)
                st.lvs[i] = self.deref(p)
                return
            if op in ("++", "--"):
                l = self.loc(fr, st, n["e"])
                old = self.load_typed(st, l, n)
                if n.get("ptr"):
                    new = mk("padd", old, C(1 if op == "++" else -1))
                    POINTER.add(new)
                elif n.get("ki") == "fp":
                    new = mk("f+", old, C(1 if op == "++" else -1))
                    FLOATY.add(new)
                elif n.get("ki") in ("int", "uint"):
                    new = add(old, C(1 if op == "++" else -1))
                    if op == "--" and n.get("ki") == "uint" and not st.entails(le_atom(ONE, old)):
                        new = mk("wrapsub", old, ONE)
                        UNSIGNED.add(new)
                else:
                    new = mk("inc", old)
                H.store(self, fr, st, i, l, new, old)
                self.store(fr, st, l, new, i)
                if n.get("post"):
                    st.vals[i] = old
                else:
                    st.vals.pop(i, None)
                    st.lvs[i] = l
                return
            st.vals.pop(i, None)
            v = self.pure(fr, st, i, n)
            st.vals[i] = v
            return
        if k == "assign":
            self.do_assign(fr, st, i, n)
            return
        if k == "bin":
            st.vals.pop(i, None)
            if n["op"] in ("/", "%"):
                H.divide(self, fr, st, i, self.val(fr, st, n["x"]), self.val(fr, st, n["y"]))
            if n["op"] in ("&&", "||"):
                return
            st.vals[i] = self.pure(fr, st, i, n)
            return
        if k == "call":
            self.do_call(fr, st, i, n)
            return
        if k == "construct":
            self.do_construct(fr, st, i, n)
            return
        if k == "new":
            v = None
            if "e" in n and not n.get("n"):
                e = fr.f["nodes"][n["e"]]
                if e["k"] == "construct":
                    cv = st.vals.get(n["e"])
                    if cv is not None and cv.op == "obj":
                        v = cv
            if v is None:
                v = self.fresh(fr, st, (i, "new"), n["at"].split("::")[-1], "obj")
                if "n" in n:
                    sz = self.val(fr, st, n["n"])
                    st.add_atom(le_atom(mk("asize", v), sz))
                    st.add_atom(le_atom(sz, mk("asize", v)))
            POINTER.add(v)
            st.vals[i] = v
            H.new(self, fr, st, i, v)
            return
        if k == "delete":
            H.delete(self, fr, st, i, self.val(fr, st, n["e"]))
            return
        if k == "lambda":
            st.vals[i] = mk("lambda", n["u"])
            return
        if k == "cond":
            st.vals.pop(i, None)
            if n.get("lv") and n.get("t") != "void":
                st.lvs.pop(i, None)
                st.lvs[i] = self.loc(fr, st, i)
                return
            st.vals[i] = self.pure(fr, st, i, n)
            return
        if k == "cast" and n.get("lv"):
            return
        st.vals.pop(i, None)
        st.vals[i] = self.pure(fr, st, i, n)

    def do_assign(self, fr, st, i, n):
        op = n["op"]
        l = self.loc(fr, st, n["x"])
        xn = fr.f["nodes"][n["x"]]
        y = self.val(fr, st, n["y"])
        if op == "=":
            new = y
        else:
            old = self.load_typed(st, l, xn)
            m = dict(n)
            m["ki"] = xn.get("ki")
            m["ptr"] = xn.get("ptr", False)
            m["bits"] = xn.get("bits")
            if op[:-1] in ("/", "%"):
                self.hooks.divide(self, fr, st, i, old, y)
            new = self.binop(st, m, op[:-1], old, y)
        old = self.load(st, l)
        self.hooks.store(self, fr, st, i, l, new, old)
        self.store(fr, st, l, new, i)
        st.vals.pop(i, None)
        st.lvs[i] = l

    # ------------------------------------------------------------ calls
    def argaddr(self, fr, st, a):
        n = fr.f["nodes"].get(a)
        if n is not None and (n.get("lv") or a in st.lvs):
            return self.addr(self.loc(fr, st, a))
        return None

    def do_construct(self, fr, st, i, n):
        H = self.hooks
        u = n.get("u")
        f = self.prog.functions.get(u)
        cls = n.get("cls", "")
        args = n["a"]
        st.vals.pop(i, None)
        st.lvs.pop(i, None)
        if f is not None and f.get("ctor") and not (fr.has(u)) and fr.depth() < self.max_depth:
            ob = self.fresh(fr, st, (i, "obj"), cls.split("::")[-1], "obj")
            POINTER.add(ob)
            H.call(self, fr, st, i, n, mk("D", ob), args)
            self.inline(fr, st, i, f, ob, args)
            for s in [st] + (st.forks or []):
                s.vals[i] = ob
                if not s.dead:
                    H.called(self, fr, s, i, n, mk("D", ob), args, ob)
            return
        if n.get("own") or n.get("t", "").startswith("ppp::"):
            # class of the repository without a user-written constructor
            if (n.get("copy") or n.get("move")) and len(args) >= 1:
                src = self.val(fr, st, args[0])
                H.call(self, fr, st, i, n, None, args)
                st.vals[i] = src if src.op != "obj" else mk("copyof", src)
                return
            ob = self.fresh(fr, st, (i, "obj"), cls.split("::")[-1], "obj")
            POINTER.add(ob)
            H.call(self, fr, st, i, n, mk("D", ob), args)
            st.vals[i] = ob
            return
        H.call(self, fr, st, i, n, None, args)
        if (n.get("copy") or n.get("move")) and len(args) >= 1:
            st.vals[i] = self.val(fr, st, args[0])
            return
        if cls in ("std::vector", "std::basic_string") and len(args) >= 2:
            v = entire([self.val(fr, st, a) for a in args[:2]])
            if v is not None:
                st.vals[i] = v
                return
        vals = [self.val(fr, st, a) for a in args if a is not None and a >= 0]
        if cls in ("std::basic_string",):
            if not args and "wchar" not in n.get("t", ""):
                st.vals[i] = mk("s", "")
                return
            if vals and vals[0].op == "s" and len([a for a in args]) <= 2 and \
                    (len(vals) == 1 or vals[1].op in ("unk", "node", "sym", "nothing", "obj", "cobj")):
                v = vals[0]
                st.vals[i] = v
                return
        if cls == "std::function" and len(vals) == 1 and vals[0].op in ("lambda", "fnptr"):
            st.vals[i] = vals[0]
            return
        v = self.fresh(fr, st, (i, "obj"), cls.split("::")[-1])
        szs = None
        if args and not cls.startswith("std::") and len(vals) == len(args):
            st.add_atom(("t", mk("built", v, *vals)))
        if cls.startswith("std::"):
            real = [x for x in vals if x.op not in ("unk",) or True]
            if not args:
                szs = ZERO
            elif cls == "std::vector" and fr.f["nodes"][args[0]].get("ki") in ("int", "uint"):
                szs = vals[0]
            elif vals and vals[0].op == "ilist":
                szs = C(len(vals[0].a)) if cls == "std::vector" else None
            elif cls == "std::basic_string" and vals:
                v2 = mk("strof", *vals)
                st.vals[i] = v2
                return
            elif len(args) >= 1:
                st.add_atom(("t", mk("built", v, *vals)))
        if szs is not None:
            st.add_atom(le_atom(mk("size", v), szs))
            st.add_atom(le_atom(szs, mk("size", v)))
        st.vals[i] = v
        if n.get("lv"):
            pass

    def do_call(self, fr, st, i, n):
        H = self.hooks
        args = n["a"]
        st.vals.pop(i, None)
        st.lvs.pop(i, None)
        name = n.get("fn", "")
        short = name.split("::")[-1] if not n.get("op") else "operator" + n["op"]
        oloc = None
        optr = None
        if "o" in n:
            on = fr.f["nodes"][n["o"]]
            if n.get("arrow"):
                optr = self.val(fr, st, n["o"])
                H.deref(self, fr, st, i, optr)
                oloc = self.deref(optr)
            else:
                oloc = self.loc(fr, st, n["o"])
                optr = self.addr(oloc)
        u = n.get("u")
        f = self.prog.functions.get(u) if u else None
        # a call through a lambda object or std::function holding a known function
        if f is None and short == "operator()" and oloc is not None:
            ov = self.load(st, oloc) if oloc.op != "tmp" else oloc.a[0]
            if ov.op in ("lambda", "fnptr"):
                f = self.prog.functions.get(ov.a[0])
            elif ov.op == "strof" or ov.op == "sym":
                f = None
        if f is None and "ce" in n:
            cv = self.val(fr, st, n["ce"])
            if cv.op in ("fnptr", "lambda"):
                f = self.prog.functions.get(cv.a[0])
        H.call(self, fr, st, i, n, oloc, args)
        if st.dead:
            return
        if n.get("noret"):
            return
        if n.get("op") == "=" and oloc is not None and len(args) == 1 and \
                n.get("cls") in self.prog.records and (f is None or f.get("implicit")):
            a = self.argaddr(fr, st, args[0])
            v = self.val(fr, st, args[0])
            src = self.deref(a) if a is not None else (mk("D", v) if v.op == "obj" else None)
            if src is not None and oloc.op != "tmp":
                H.store(self, fr, st, i, oloc, v, None)
                self.copy_struct(st, n["cls"], oloc, src)
                st.lvs[i] = oloc
                H.called(self, fr, st, i, n, oloc, args, None)
                return
        if f is not None and self.can_inline(fr, f, n):
            self.inline(fr, st, i, f, optr if not f.get("lambda") else fr.this, args)
            for s in [st] + (st.forks or []):
                if not s.dead:
                    H.called(self, fr, s, i, n, oloc, args, s.vals.get(i))
            return
        if f is not None or n.get("own"):
            self.own_opaque(fr, st, i, n, f, oloc, optr)
            H.called(self, fr, st, i, n, oloc, args, st.vals.get(i))
            return
        self.library(fr, st, i, n, short, oloc, optr)
        H.called(self, fr, st, i, n, oloc, args, st.vals.get(i))

    def overridden(self, name):
        o = getattr(self.prog, "overridden", None)
        if o is None:
            o = self.prog.overridden = set(x for f in self.prog.functions.values()
                                           for x in f.get("overrides", ()))
        return name in o

    def can_inline(self, fr, f, n):
        if f.get("dtor"):
            return False
        nm = f["name"]
        if nm.startswith(PURE_PREFIX) or any(nm.startswith(p) for p in self.opaque):
            return False
        if fr.has(f["u"]):
            self.cut.add(nm)
            return False
        if fr.depth() >= self.max_depth:
            self.cut.add(nm)
            return False
        if n.get("virt") and not n.get("qual") and self.overridden(nm):
            return False
        return nm.startswith("std::") or self.hooks.inline(self, fr, f)

    def copy_struct(self, st, cls, dst, src, depth=0):
        """Memberwise copy of an object of a class of the repository."""
        rec = self.prog.records.get(cls)
        if rec is None or depth > 3:
            return
        self._drop_sub(st, dst)
        for b in rec.get("bases", ()):
            self.copy_struct(st, b if isinstance(b, str) else b.get("name"), dst, src, depth + 1)
        da, sa = self.addr(dst), self.addr(src)
        for fl in rec["fields"]:
            fd, fs = mk("F", da, fl["name"]), mk("F", sa, fl["name"])
            st.env[fd] = self.load(st, fs)
            t = fl.get("t", "")
            if t in self.prog.records:
                self.copy_struct(st, t, fd, fs, depth + 1)

    def own_opaque(self, fr, st, i, n, f, oloc, optr):
        name = n.get("fn", "") or (f["name"] if f else "")
        vals = [self.val(fr, st, a) for a in n["a"]]
        pure = name.startswith(PURE_PREFIX)
        if name.startswith("ppp::utils::math::"):
            s = name.split("::")[-1]
            if s in ("minimum", "maximum"):
                t = minmax("min" if s == "minimum" else "max", vals)
            else:
                t = mk("fn", s, *vals)
            self.tag(t, n)
            st.vals[i] = t
            return
        if pure:
            t = mk("fn", name.split("::")[-1], *vals)
            if n.get("lv"):
                st.lvs[i] = mk("D", t)
                POINTER.add(t)
            else:
                st.vals[i] = t
                self.tag(t, n)
            return
        mods = self.mods.m.get(f["u"] if f else n.get("u"), None)
        if mods is None:
            mods = ()
        for fld in sorted(mods):
            if fld == "*":
                for k in [k for k in st.env if k.op == "D"]:
                    del st.env[k]
                st.ep["*"] = self.fresh(fr, st, (i, "ep*"), "ep")
            else:
                self.kill_field(fr, st, fld, (i, "mod"))
        for a, pm in zip(n["a"], n.get("pm", "")):
            self.havoc_arg(fr, st, i, a, pm)
        if n.get("const") and not mods and all(c in "vck" for c in n.get("pm", "")):
            t = mk("fn", name.split("::")[-1], *(([optr] if optr is not None else []) + vals))
            # reads memory: make it depend on this point
            t2 = self.fresh(fr, st, (i, "res"), name.split("::")[-1])
            t = t2
        else:
            t = self.fresh(fr, st, (i, "res"), name.split("::")[-1])
        if n.get("lv"):
            POINTER.add(t)
            st.lvs[i] = mk("D", t)
        else:
            self.tag(t, n)
            st.vals[i] = t

    def havoc_arg(self, fr, st, site, a, pm):
        if pm == "m":
            n = fr.f["nodes"][a]
            if n.get("lv") or a in st.lvs:
                self.havoc_loc(fr, st, self.loc(fr, st, a), (site, "arg", a))
        elif pm == "p":
            v = self.val(fr, st, a)
            if v.op == "&":
                self.havoc_loc(fr, st, v.a[0], (site, "argp", a))
            elif v.op in ("obj",):
                pass

    def inline(self, fr, st, i, f, this, args):
        """Analyse f in the context of this call; updates st in place."""
        n = fr.f["nodes"][i]
        ctx = fr.ctx + ((fr.f["u"], i),)
        fr2 = Frame(f, ctx, this if this is not None else mk("nothis"), fr, i)
        if f.get("lambda") or this is None and f["name"].startswith("std::"):
            fr2.this = fr.this
        saved_vals, saved_lvs = st.vals, st.lvs
        binds = []
        for p, a in zip(f["params"], args):
            if p.get("ref"):
                ad = self.argaddr(fr, st, a)
                if ad is not None:
                    binds.append((p, "ref", ad))
                else:
                    v = self.val(fr, st, a)
                    binds.append((p, "ref", v) if v.op == "obj" else (p, "val", v))
            else:
                binds.append((p, "val", self.val(fr, st, a)))
        for p, kind, v in binds:
            l = mk("V", p["d"], p["name"])
            self._drop_sub(st, l)
            if kind == "ref":
                st.refs[p["d"]] = v
                st.env.pop(l, None)
            else:
                st.refs.pop(p["d"], None)
                st.env[l] = v
                if p.get("ptr") and v.op != "c":
                    POINTER.add(v)
        st.vals, st.lvs = {}, {}
        exits = self.run(fr2, st)
        if not exits:
            st.vals, st.lvs = saved_vals, saved_lvs
            st.dead = True
            return
        groups = {}
        for x in exits:
            groups.setdefault(self.hooks.partition(self, fr, x), []).append(x)
        L = locals_of(f)
        forks = []
        for gi, g in enumerate(groups.values()):
            out, rv = self.join_exits(fr, g, i, n)
            # leave the callee's scope
            for k in [k for k in out.env if _local_of(k, L)]:
                del out.env[k]
            for d in L:
                out.refs.pop(d, None)
            tgt = st if gi == 0 else State()
            for k in State.__slots__:
                if k not in ("vals", "lvs"):
                    setattr(tgt, k, getattr(out, k))
            tgt.vals, tgt.lvs = dict(saved_vals), dict(saved_lvs)
            tgt.ret = None
            tgt.forks = None
            if n["k"] == "construct":
                tgt.vals[i] = this
            elif rv is None:
                tgt.vals[i] = mk("nothing")
            elif n.get("lv"):
                tgt.lvs[i] = self.deref(rv)
                tgt.vals.pop(i, None)
            else:
                self.tag(rv, n)
                tgt.vals[i] = rv
                if rv.op == "tmp":
                    tgt.vals[i] = rv.a[0]
            if gi:
                forks.append(tgt)
        if forks:
            st.forks = forks

    def join_exits(self, fr, exits, site, n):
        if len(exits) == 1:
            s = exits[0].copy()
            return s, s.ret
        R = mk("ret", (fr.ctx, fr.f["u"], site), (n.get("fn") or "ctor").split("::")[-1])
        exits = [s.copy() for s in exits]
        for s in exits:
            if R in s.gen:
                self.purge(s, R)
        vals = [s.ret for s in exits]
        hasval = all(v is not None for v in vals)
        if hasval and n.get("ptr"):
            POINTER.add(R)
            for v in vals:
                if v.op != "c":
                    POINTER.add(v)
        extra = None
        if hasval and not all(v is vals[0] for v in vals):
            extra = (mk("V", "<ret>", "<ret>"), R)
            for s, v in zip(exits, vals):
                s.env[extra[0]] = v
        out = self.join(exits, ("x", fr.ctx, fr.f["u"], site), forced={extra[0]: R} if extra else {})
        rv = None
        if hasval:
            if extra:
                out.env.pop(extra[0], None)
                rv = R
                self.tag(R, n)
                out.gen.add(R)
            else:
                rv = vals[0]
        return out, rv

    # ------------------------------------------------------------ library models
    def library(self, fr, st, i, n, short, oloc, optr):
        args = n["a"]
        cls = n.get("cls", "")
        H = self.hooks
        name = n.get("fn", "")

        def setv(t):
            if n.get("lv"):
                # unknown lvalue result
                POINTER.add(t)
                st.lvs[i] = mk("D", t)
            else:
                self.tag(t, n)
                st.vals[i] = t
        if oloc is not None:
            c = oloc.a[0] if oloc.op == "tmp" else self.load(st, oloc)
            if short in ("size", "length") and not args:
                t = mk("size", c) if c.op != "s" else C(len(c.a[0]))
                if c.op == "s":
                    t = C(len(c.a[0]))
                st.vals[i] = t
                return
            if short == "empty" and not args:
                st.vals[i] = mk("eq", mk("size", c), ZERO) if c.op != "s" else C(not c.a[0])
                return
            if short in ("at", "operator[]") and len(args) == 1 and n.get("lv"):
                idx = self.val(fr, st, args[0])
                H.index(self, fr, st, i, optr, idx, short)
                if short == "operator[]" and cls in ("std::map", "std::unordered_map") and \
                        not n.get("const"):
                    # may insert: the content changes unless the key is known to be present
                    if oloc.op != "tmp":
                        nn = self.fresh(fr, st, (i, "mapc"), "content")
                        self._set_content(fr, st, oloc, nn, (i, "map"))
                        st.add_atom(le_atom(ONE, mk("size", nn)))
                st.lvs[i] = mk("E", optr, idx)
                return
            if short in ("back", "front", "top") and not args:
                H.index(self, fr, st, i, optr, None, short)
                sz = mk("size", c)
                idx = ZERO if short == "front" else add(sz, C(-1))
                if n.get("lv"):
                    st.lvs[i] = mk("E", optr, idx)
                else:
                    setv(mk("elem", c, idx))
                return
            if short in ("push_back", "emplace_back", "push", "push_front", "emplace"):
                nn = self.fresh(fr, st, (i, "pb"), "content")
                elems = self._known_elems(st, optr)
                self._set_content(fr, st, oloc, nn, (i, "pb")) if oloc.op != "tmp" else None
                if c.gen and nn in c.gen:
                    st.add_atom(le_atom(ONE, mk("size", nn)))
                else:
                    self.eqsize(st, nn, c, 1)
                if args and n.get("lv"):
                    pass
                st.vals[i] = mk("nothing")
                return
            if short in ("pop_back", "pop", "pop_front"):
                H.index(self, fr, st, i, optr, None, short)
                nn = self.fresh(fr, st, (i, "pp"), "content")
                if oloc.op != "tmp":
                    self._set_content(fr, st, oloc, nn, (i, "pp"))
                if not (c.gen and nn in c.gen):
                    if st.entails(le_atom(ONE, mk("size", c))):
                        self.eqsize(st, nn, c, -1)
                st.vals[i] = mk("nothing")
                return
            if short == "clear" and not args:
                nn = self.fresh(fr, st, (i, "cl"), "content")
                if oloc.op != "tmp":
                    self._set_content(fr, st, oloc, nn, (i, "cl"))
                st.add_atom(le_atom(mk("size", nn), ZERO))
                st.vals[i] = mk("nothing")
                return
            if short == "resize" and args:
                nn = self.fresh(fr, st, (i, "rs"), "content")
                sz = self.val(fr, st, args[0])
                if oloc.op != "tmp":
                    self._set_content(fr, st, oloc, nn, (i, "rs"))
                st.add_atom(le_atom(mk("size", nn), sz))
                st.add_atom(le_atom(sz, mk("size", nn)))
                st.vals[i] = mk("nothing")
                return
            if short == "reserve" or short == "shrink_to_fit":
                st.vals[i] = mk("nothing")
                return
            v = None
            if short == "operator=" and len(args) == 1 or short == "assign" and len(args) == 1 and \
                    cls == "std::basic_string":
                v = self.val(fr, st, args[0])
            elif short == "assign" and len(args) == 2:
                v = entire([self.val(fr, st, a) for a in args])
            elif short == "insert" and len(args) == 3 and cls == "std::vector" and \
                    st.entails(le_atom(mk("size", c), ZERO)):
                v = entire([self.val(fr, st, a) for a in args[1:]])
            if v is not None:
                old = c
                H.store(self, fr, st, i, oloc, v, old)
                if oloc.op != "tmp":
                    for k in [k for k in st.env if k.op == "E" and k.a[0] is optr]:
                        del st.env[k]
                    self.store(fr, st, oloc, v, i)
                st.lvs[i] = oloc
                return
            if short in ("operator+=", "append", "insert", "assign"):
                nn = self.fresh(fr, st, (i, "ap"), "content")
                vals = [self.val(fr, st, a) for a in args]
                if cls == "std::basic_string" and len(args) == 1 and \
                        short in ("operator+=", "append"):
                    nn = mk("fn", "operator+", c, vals[0])
                if cls == "std::basic_string" and short == "operator+=":
                    H.store(self, fr, st, i, oloc, nn, c)
                if oloc.op != "tmp":
                    self._set_content(fr, st, oloc, nn, (i, "ap"))
                if short != "assign" and not (c.gen and nn in c.gen):
                    st.add_atom(le_atom(mk("size", c), mk("size", nn)))
                elif short == "insert" and cls in ("std::set", "std::unordered_set", "std::map",
                                                   "std::unordered_map") and len(args) == 1:
                    st.add_atom(le_atom(ONE, mk("size", nn)))
                setv(mk("nothing")) if not n.get("lv") else st.lvs.__setitem__(i, oloc)
                return
            if short in ("begin", "cbegin", "rbegin", "end", "cend", "rend"):
                t = mk(short.lstrip("c"), c, optr)
                st.vals[i] = t
                return
            if short in ("get",) and not args and "_ptr" in cls:
                t = mk("get", c)
                POINTER.add(t)
                st.vals[i] = t
                return
            if short == "operator->" and not args:
                if "_ptr" in cls:
                    t = mk("get", c)
                else:
                    t = mk("&", mk("itd", c))
                    st.vals[i] = self.iterelem(st, c)[1]
                    return
                POINTER.add(t)
                st.vals[i] = t
                return
            if short == "operator*" and not args:
                if "_ptr" in cls:
                    t = mk("get", c)
                    POINTER.add(t)
                    H.deref(self, fr, st, i, t)
                    st.lvs[i] = mk("D", t)
                    return
                loc, ad = self.iterelem(st, c)
                st.lvs[i] = loc
                return
            if short == "operator bool" and not args and "_ptr" in cls:
                t = mk("get", c)
                POINTER.add(t)
                st.vals[i] = t
                return
            if short == "count" and len(args) == 1 and n.get("const"):
                st.vals[i] = mk("count", c, self.val(fr, st, args[0]))
                return
            if short in ("c_str", "data"):
                t = mk("cstr", c)
                POINTER.add(t)
                st.vals[i] = t
                return
            if short in ("operator++", "operator--"):
                H.store(self, fr, st, i, oloc, mk("inc", c), c)
                old = c
                if oloc.op != "tmp":
                    self.store(fr, st, oloc, mk("inc" if short == "operator++" else "dec", c), i)
                if n.get("lv"):
                    st.lvs[i] = oloc
                else:
                    st.vals[i] = old
                return
            if short in ("operator==", "operator!=") and len(args) == 1:
                st.vals[i] = cmpterm("==" if short == "operator==" else "!=", c,
                                     self.val(fr, st, args[0]))
                return
            vals = [self.val(fr, st, a) for a in args]
            if n.get("const") or n.get("static"):
                t = mk("m:" + short, c, *vals)
                if n.get("lv"):
                    POINTER.add(t)
                    st.lvs[i] = mk("D", t)
                else:
                    self.tag(t, n)
                    st.vals[i] = t
                for a, pm in zip(args, n.get("pm", "")):
                    self.havoc_arg(fr, st, i, a, pm)
                return
            # non-const method: forget the object's content
            for a, pm in zip(args, n.get("pm", "")):
                self.havoc_arg(fr, st, i, a, pm)
            if oloc.op != "tmp" and (cls.startswith("std::") or cls.startswith("__gnu")):
                keep_stream = "stream" in cls
                if not keep_stream:
                    self.havoc_loc(fr, st, oloc, (i, "nc"))
            if short == "operator<<" or "stream" in cls:
                if n.get("lv"):
                    st.lvs[i] = oloc
                else:
                    t = self.fresh(fr, st, (i, "res"), short)
                    setv(t)
                return
            t = self.fresh(fr, st, (i, "res"), short)
            setv(t)
            return
        if name.startswith("std::numeric_limits<") and not args:
            t = mk("lim", short, name.split("<", 1)[1].split(">")[0])
            self.tag(t, n)
            st.vals[i] = t
            return
        # free functions
        vals = [self.val(fr, st, a) for a in args]
        if short == "operator<<" and args and n.get("lv"):
            st.lvs[i] = self.loc(fr, st, args[0])
            return
        if short in ("move", "forward", "as_const") and len(args) == 1:
            an = fr.f["nodes"][args[0]]
            if an.get("lv") or args[0] in st.lvs:
                st.lvs[i] = self.loc(fr, st, args[0])
            else:
                st.vals[i] = vals[0]
            return
        if name == "std::get" and len(args) == 1 and \
                ("pair" in n.get("u", "") or "tuple" in n.get("u", "")):
            m = _GET.search(n["u"])         # an element of a pair, as of a structured binding
            if m is not None:
                an = fr.f["nodes"][args[0]]
                if an.get("lv") or args[0] in st.lvs:
                    base = self.addr(self.loc(fr, st, args[0]))
                else:
                    base = vals[0] if vals[0].op == "obj" else mk("&", mk("tmp", vals[0]))
                l = mk("F", base, "#" + m.group(1) if "tuple" in n["u"] else
                       "second" if m.group(1) == "1" else "first")
                if n.get("lv"):
                    st.lvs[i] = l
                else:
                    st.vals[i] = self.load(st, l)
                return
        if short in ("min", "max") and name.startswith("std::") and len(args) == 1 and \
                vals[0].op == "ilist" and vals[0].a:
            vals = list(vals[0].a)
        if short in ("min", "max") and name.startswith("std::") and (len(args) == 2 or len(vals) > 1):
            t = minmax(short, vals)
            if n.get("ki") in ("int", "uint"):
                for v in vals:
                    st.add_atom(le_atom(t, v) if short == "min" else le_atom(v, t))
                if n.get("ki") == "uint":
                    UNSIGNED.add(t)
            self.tag(t, n)
            st.vals[i] = t
            return
        if short in ("operator==", "operator!=") and len(args) == 2:
            st.vals[i] = cmpterm("==" if short == "operator==" else "!=", vals[0], vals[1])
            return
        if short in ("operator<", "operator>", "operator<=", "operator>=") and len(args) == 2:
            t = mk("fn", short, *vals)
            st.vals[i] = t
            return
        if short in ("abs", "fabs"):
            t = mk("fabs" if n.get("ki") == "fp" else "iabs", *vals)
            self.tag(t, n)
            st.vals[i] = t
            return
        if short == "strlen" and len(vals) == 1 and vals[0].op == "s":
            st.vals[i] = C(len(vals[0].a[0]))
            return
        if short in ("begin", "cbegin", "rbegin", "end", "cend", "rend") and len(args) == 1:
            l = self.argaddr(fr, st, args[0])
            st.vals[i] = mk(short.lstrip("c"), vals[0], l if l is not None else NULL)
            return
        for v in vals:
            if v.op in ("begin", "end") and short not in ("distance", "find", "count", "equal",
                                                          "accumulate", "any_of", "all_of",
                                                          "find_if", "copy", "max_element",
                                                          "min_element") and v.a[1] is not NULL:
                l = self.deref(v.a[1])
                if l.op != "tmp":
                    c = self.load(st, l)
                    if c is v.a[0]:
                        nn = self.fresh(fr, st, (i, "alg", v.op), "content")
                        if short == "transform" and len(vals) == 4 and v.op == "begin" and \
                                vals[1] is mk("end", *v.a) and vals[2] is v and \
                                vals[3].op in ("fnptr", "&") and "toupper" in repr(vals[3]):
                            nn = mk("fn", "upper", c)
                            for k in [k for k in st.env if k.op == "E" and k.a[0] is v.a[1]]:
                                del st.env[k]
                            st.env[l] = nn
                            break
                        if not (c.gen and nn in c.gen):
                            self.eqsize(st, nn, c)
                        self._set_content(fr, st, l, nn, (i, "alg"))
        pms = n.get("pm", "")
        joins = short == "operator+" and "basic_string" in n.get("t", "")
        for a, pm in zip(args, pms):
            if not joins:
                self.havoc_arg(fr, st, i, a, pm)
        if vals and joins or vals and all(c in "vck" for c in pms) and short not in ("rand", "system", "getenv", "time"):
            t = mk("fn", short, *vals)
        else:
            t = self.fresh(fr, st, (i, "res"), short)
        setv(t)

    def _known_elems(self, st, optr):
        return None

    def iterelem(self, st, c):
        """Location (and address) of the element an iterator value designates."""
        if c.op in ("it", "begin", "inc"):
            base = c
            while base.op == "inc":
                base = base.a[0]
            if base.op in ("it", "begin") and len(base.a) >= 2 and isinstance(base.a[1], T) and \
                    base.a[1] is not NULL:
                if c.op == "begin":
                    idx = mk("itx", c)
                else:
                    idx = mk("itx", c)
                # element of the container content the iterator was taken from
                l = mk("E", base.a[1], idx)
                return l, mk("&", l)
        l = mk("D", mk("itd", c))
        return l, mk("itd", c)

    # ------------------------------------------------------------ running a function
    def run_root(self, f, setup=None):
        """Analyse f on its own; returns its exit states."""
        this = mk("this", f.get("cls", ""))
        POINTER.add(this)
        fr = Frame(f, (), this, None)
        st = State()
        for p in f["params"]:
            l = mk("V", p["d"], p["name"])
            v = mk("iv", p["d"], p["name"])
            if p.get("ref"):
                a = mk("&", mk("V", p["d"] + "*", p["name"]))
                st.refs[p["d"]] = a
            else:
                st.env[l] = v
                if p.get("ptr"):
                    POINTER.add(v)
                elif p.get("ki") == "uint":
                    UNSIGNED.add(v)
        if setup:
            setup(self, fr, st)
        self.reporting = False
        self.steps = 0
        ex = self.run(fr, st, report=True)
        self.reporting = False
        return ex

    def run(self, fr, st0, report=None):
        f = fr.f
        self.analysed.add(f["name"])
        top = report is True
        rep = self.reporting
        if not top and not rep:
            k_ = (f["u"], fr.ctx, fr.this, st0.key())
            m = self.memo.get(k_)
            if m is not None:
                # restore caller-visible parts
                return [s.copy() for s in m]
        B = f["B"]
        rpo, heads = order(f)
        loops = loops_of(f)
        entry = f["entry"]
        self.reporting = False
        part = self.hooks.partition
        P = lambda s: part(self, fr, s)
        s0 = st0.copy()
        k0 = P(s0)
        first = {(entry, k0): s0}
        if self.with_handlers:
            for b, x in B.items():
                if x.get("tk") == "CXXTryStmt" and not any(b in (y["s"] or ()) for y in B.values()):
                    # exception handlers: entered from an unknown point of the try block
                    h = State()
                    h.refs = dict(st0.refs)
                    h.ext = dict(st0.ext)
                    h.ext["n:handler"] = b + 1
                    first[(b, P(h))] = h
                    rpo.setdefault(b, 1 << 20)
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        for s_ in B[x]["s"]:
                            if s_ is not None and s_ not in rpo:
                                rpo[s_] = (1 << 20) + len(rpo)
                                f["_preds"].setdefault(s_, [])
                                stk.append(s_)
        outs = {}        # (b, k) -> [(succ, key, state)]
        feeds = {}       # (succ, key) -> set of (b, k)
        ins = {}
        work = set(first)
        headinfo = {}
        iters = {}
        entries = {}
        total = 0
        order_ = lambda x: (rpo.get(x[0], 1 << 30), repr(x[1]))
        while work:
            w = min(work, key=order_) if len(work) > 1 else next(iter(work))
            work.discard(w)
            b, k = w
            iters[w] = iters.get(w, 0) + 1
            total += 1
            if iters[w] > 60 or total > 60000:
                raise Budget("no fixpoint in %s" % f["name"])
            if b == f["exit"]:
                continue
            if b in loops:
                # a loop entered with other states is analysed from the start
                ent = [first[w]] if w in first else []
                for src in sorted(feeds.get(w, ()), key=lambda x: (rpo[x[0]], repr(x[1]))):
                    if src[0] not in loops[b]:
                        ent += [s for succ, k2, s in outs[src] if succ == b and k2 == k]
                last = entries.get(w)
                entries[w] = ent
                if last is not None and not (len(last) == len(ent) and
                                             all(x.same(y) for x, y in zip(last, ent))):
                    R = {w}
                    todo = [w]
                    while todo:
                        for succ, k2, _ in outs.get(todo.pop(), ()):
                            if succ in loops[b] and (succ, k2) not in R:
                                R.add((succ, k2))
                                todo.append((succ, k2))
                    hit = set(R)
                    for w2 in R:
                        for succ, k2, _ in outs.pop(w2, ()):
                            feeds.get((succ, k2), set()).discard(w2)
                            hit.add((succ, k2))
                        for d in (ins, headinfo, iters):
                            d.pop(w2, None)
                        if w2 != w:
                            entries.pop(w2, None)
                    for w2 in hit:
                        if feeds.get(w2) or w2 in first or w2 not in R:
                            work.add(w2)
                        else:
                            work.discard(w2)
                    work.discard(w)
            s = self.block_in(fr, w, first, outs, feeds, heads, rpo, headinfo)
            if s is None:
                if w in ins:
                    del ins[w]
                    for succ, k2, _ in outs.pop(w, ()):
                        feeds.get((succ, k2), set()).discard(w)
                        work.add((succ, k2))
                continue
            if w in ins and ins[w].same(s) and iters[w] > 1:
                continue
            ins[w] = s
            res = []
            for succ, s2 in self.transfer(fr, b, s):
                if succ == f["exit"] or s2 is None or s2.dead:
                    continue
                s2 = self.take_edge(fr, s2, b, succ, rpo, loops)
                if s2.dead:
                    continue
                res.append((succ, P(s2), s2))
            for succ, k2, _ in outs.get(w, ()):
                feeds.get((succ, k2), set()).discard(w)
                work.add((succ, k2))
            outs[w] = res
            for succ, k2, _ in res:
                feeds.setdefault((succ, k2), set()).add(w)
                work.add((succ, k2))
        # final pass with the stable in-states
        exits = []
        self.reporting = rep or top
        for w in sorted(ins, key=order_):
            b = w[0]
            if b == f["exit"]:
                continue
            for succ, s2 in self.transfer(fr, b, ins[w]):
                if s2 is None or s2.dead:
                    continue
                if succ == f["exit"] and B[b].get("tk") == "CXXTryStmt":
                    continue        # no handler: the exception leaves the function
                s2 = self.take_edge(fr, s2, b, succ, rpo, loops)
                if succ == f["exit"] and not s2.dead:
                    self.hooks.exit(self, fr, s2)
                    exits.append(s2)
        self.reporting = rep
        if not top and not rep:
            self.memo[k_] = [s.copy() for s in exits]
        return exits

    def take_edge(self, fr, s, b, succ, rpo, loops):
        back = succ if succ in loops and b in loops[succ] else None
        enters = succ if succ in loops and b not in loops[succ] else None
        ex = [h for h in loops if b in loops[h] and succ not in loops[h]]
        self.hooks.edge(self, fr, s, b, succ, {"back": back, "enters": enters, "exits": ex})
        # variables declared in the body end with the turn
        if back is not None:
            for d, name in declared_in(fr.f, back):
                l = mk("V", d, name)
                if l in s.env:
                    del s.env[l]
                    self._drop_sub(s, l)
                s.refs.pop(d, None)
        return s

    def block_in(self, fr, w, first, outs, feeds, heads, rpo, headinfo):
        f = fr.f
        b, k = w
        inc = []
        back = []
        if w in first:
            inc.append(first[w])
            back.append(False)
        for src in sorted(feeds.get(w, ()), key=lambda x: (rpo[x[0]], repr(x[1]))):
            for succ, k2, s in outs[src]:
                if succ == b and k2 == k:
                    inc.append(s)
                    back.append(rpo[src[0]] >= rpo[b])
        if not inc:
            return None
        key = ("b", fr.ctx, f["u"], b)
        if b in heads:
            inner = all(back)
            if inner:
                # a partition reached only through the loop itself
                back = [False] * len(back)
            return self.join_head(fr, key, [s.copy() for s in inc], back, headinfo, w, inner)
        if len(inc) == 1:
            return inc[0].copy()
        return self.join([s.copy() for s in inc], key)

    def phi(self, key, loc):
        return mk("phi", (key, loc.h), _locname(loc))

    def join(self, states, key, forced=None):
        """Join of states at a merge point."""
        states = [s for s in states if not s.dead]
        if len(states) == 1:
            s = states[0]
            if forced:
                for l, R in forced.items():
                    v = s.env[l]
                    self._retag(R, [v])
                    # a single live state: R is v
                    s.gen.add(R)
                    s.facts.add(("t", mk("eq", R, v)))
                    for a in [a for a in s.facts if a[0] in ("nz", "z", "t", "f") and a[1] is v]:
                        s.facts.add((a[0], R))
                    s.impl[R] = ((v, ()),)
                    s._les = None
            return s
        forced = forced or {}
        out = State()
        s0 = states[0]
        for s in states:
            out.gen |= s.gen
        # epochs
        flds = set()
        for s in states:
            flds.update(s.ep)
        for fld in flds:
            vs = [self.ep(s, fld) for s in states]
            if all(v is vs[0] for v in vs):
                out.ep[fld] = vs[0]
            else:
                e = mk("ep", (key, "ep", fld), "ep")
                for s in states:
                    if e in s.gen:
                        self.purge(s, e)
                out.ep[fld] = e
                out.gen.add(e)
        # store
        locs = set()
        for s in states:
            locs.update(s.env)
        phis = []
        for l in locs:
            vs = [self.load(s, l) if l not in s.env else s.env[l] for s in states]
            if l in forced:
                phis.append((l, forced[l], vs))
            elif all(v is vs[0] for v in vs):
                if all(l in s.env for s in states) or l.op == "V":
                    out.env[l] = vs[0]
                else:
                    out.env[l] = vs[0]
            else:
                P = self.phi(key, l)
                phis.append((l, P, vs))
        stale = set()
        for l, P, vs in phis:
            for s in states:
                if P in s.gen:
                    stale.add(P)
        if stale:
            for s in states:
                for P in stale:
                    self.purge(s, P)
            phis = [(l, P, [self.load(s, l) if l not in s.env else s.env[l] for s in states])
                    for l, P, _ in phis]
            for l in list(out.env):
                if stale & out.env[l].gen:
                    vs = [self.load(s, l) for s in states]
                    out.env[l] = vs[0]
        for l, P, vs in phis:
            out.env[l] = P
            out.gen.add(P)
            self._retag(P, vs)
        for s in states:
            s._les = None
        # facts
        common = self.join_facts(states, phis)
        out.facts = common
        # implications: carried over, and new ones for joined booleans / pointers / enums
        for k in s0.impl:
            if all(s.impl.get(k) == s0.impl[k] for s in states[1:]):
                out.impl[k] = s0.impl[k]
        extras = None
        for l, P, vs in phis:
            if l.op == "E":
                continue
            if any(isc(v) or v is NULL for v in vs) or l in forced or P in POINTER or \
                    (self.hooks.all_impl and l.op == "V") or \
                    (self.hooks.field_impl and l.op == "F"):
                if extras is None:
                    extras = [tuple(sorted((a for a in s.facts if a not in common),
                                           key=_atomkey)[:60]) for s in states]
                alts = []
                for s, v, ex in zip(states, vs, extras):
                    if v in s.impl:
                        for v2, a2 in s.impl[v]:
                            alts.append((v2, tuple(dict.fromkeys(ex + a2))))
                    else:
                        alts.append((v, ex))
                if len(alts) <= 40:
                    out.impl[P] = tuple(alts)
        # references, node values
        for d in s0.refs:
            vs = [s.refs.get(d) for s in states]
            if all(v is vs[0] for v in vs):
                out.refs[d] = vs[0]
            else:
                out.refs[d] = mk("refphi", (key, d))
        for s in states[1:]:
            for d in s.refs:
                if d not in out.refs:
                    out.refs[d] = s.refs[d]
        self.join_vals(states, out, key)
        self.join_exts(states, out)
        rets = [s.ret for s in states]
        out.ret = rets[0] if all(r is rets[0] for r in rets) else None
        return out

    def _retag(self, P, vs):
        if any(v in POINTER for v in vs):
            POINTER.add(P)
        elif any(v in FLOATY for v in vs):
            FLOATY.add(P)
        elif all(v in UNSIGNED or v.op in ("size", "count") or (isc(v) and v.a[0] >= 0) for v in vs) \
                and any(not isc(v) for v in vs):
            UNSIGNED.add(P)

    def join_vals(self, states, out, key):
        ks = set()
        for s in states:
            ks.update(s.vals)
        for k in ks:
            vs = [s.vals[k] for s in states if k in s.vals]
            if all(v is vs[0] for v in vs):
                out.vals[k] = vs[0]
        ks = set()
        for s in states:
            ks.update(s.lvs)
        for k in ks:
            vs = [s.lvs[k] for s in states if k in s.lvs]
            if all(v is vs[0] for v in vs):
                out.lvs[k] = vs[0]

    def join_exts(self, states, out):
        ks = set()
        for s in states:
            ks.update(s.ext)
        for k in ks:
            v = self.hooks.join_ext(k, [s.ext.get(k) for s in states])
            if v is not None:
                out.ext[k] = v

    def join_facts(self, states, phis):
        s0 = states[0]
        subs = []
        for j in range(len(states)):
            subs.append({P: vs[j] for l, P, vs in phis})
        back = {}
        for l, P, vs in phis:
            if not isc(vs[0]) and vs[0] is not NULL and vs[0].op not in ("s", "nothing"):
                back.setdefault(vs[0], []).append(P)
        cands = set()
        for a in s0.facts:
            cands.add(a)
            if back:
                for t in atom_terms(a):
                    for v, Ps in back.items():
                        if mentions(t, v):
                            for P in Ps:
                                cands.add(subst_atom(a, {v: P}, {}))
        for s in states[1:]:
            for l, P, vs in phis:
                v = vs[states.index(s)]
                if isc(v) or v is NULL or v.op in ("s", "nothing"):
                    continue
                for a in s.facts:
                    if a[0] != "le" and a[1] is v:
                        cands.add((a[0], P))
        for l, P, vs in phis:
            if P in POINTER:
                cands.add(("nz", P))
            elif all(isc(v) for v in vs):
                lo, hi = min(v.a[0] for v in vs), max(v.a[0] for v in vs)
                cands.add(le_atom(C(lo), P))
                cands.add(le_atom(P, C(hi)))
            elif P not in FLOATY:
                for v in vs:
                    if isc(v):
                        cands.add(le_atom(v, P))
                        cands.add(le_atom(P, v))
                cands.add(le_atom(ZERO, P))
        keep = set()
        memos = [{} for _ in states]
        for a in cands:
            if a[0] == "le" and not a[1]:
                continue
            ok = True
            for j, s in enumerate(states):
                if a in s.facts and not (phis and any(P in atom_gen(a) for _, P, _ in phis)):
                    continue
                b = subst_atom(a, subs[j], memos[j]) if phis else a
                if not s.entails(b):
                    ok = False
                    break
            if ok:
                keep.add(a)
        return keep

    def join_head(self, fr, key, states, back, headinfo, b, inner=False):
        """Join at a loop head: locations modified in the loop become phi terms of the head.

        inner: every state comes from a turn of this loop, so that its phis stand for the values
        at the start of that turn.
        """
        info = headinfo.setdefault(b, {"phi": {}, "ep": set(), "facts": None})
        ent = [s for s, k in zip(states, back) if not k]
        if not ent:
            return None
        # symbols of this head that entered from outside are from an earlier run of the loop
        allphi = set(info["phi"].values()) | set(mk("ep", (key, "ep", f), "ep") for f in info["ep"])
        H = set()
        if inner:
            for s in states:
                H |= set(g for g in s.gen if g.op == "phi" and g.a[0][0] == key or
                         g.op == "ep" and isinstance(g.a[0], tuple) and g.a[0][0] == key)
        for s in ent if not inner else ():
            for P in [g for g in s.gen if g.op == "phi" and g.a[0][0] == key]:
                self.purge(s, P)
                s.gen.discard(P)
            for e in [g for g in s.gen if g.op == "ep" and isinstance(g.a[0], tuple)
                      and g.a[0][0] == key]:
                self.purge(s, e)
                s.gen.discard(e)
        adv = advanced_in(fr.f, b[0])
        forced = set(l for l, v in states[0].env.items() if l.op == "V" and l.a[0] in adv and
                     v.op != "acc")
        if len(states) == 1 and info["facts"] is None and not info["phi"] and not H and \
                not forced:
            return states[0]
        out = State()
        for s in states:
            out.gen |= s.gen
        flds = set(info["ep"])
        for s in states:
            flds.update(s.ep)
        epsub = [dict() for _ in states]
        for fld in flds:
            vs = [self.ep(s, fld) for s in states]
            e = mk("ep", (key, "ep", fld), "ep")
            if fld in info["ep"] or not all(v is vs[0] for v in vs) or vs[0].gen & H:
                info["ep"].add(fld)
                out.ep[fld] = e
                out.gen.add(e)
                for j, v in enumerate(vs):
                    epsub[j][e] = v
            else:
                out.ep[fld] = vs[0]
        locs = set(info["phi"])
        for s in states:
            locs.update(s.env)
        phis = []
        for l in locs:
            vs = [s.env[l] if l in s.env else self.load(s, l) for s in states]
            if l in info["phi"]:
                phis.append((l, info["phi"][l], vs))
            elif l not in forced and all(v is vs[0] for v in vs) and \
                    not ((vs[0].gen | l.gen) & H):
                out.env[l] = vs[0]
            elif l.gen & H:
                continue
            else:
                # iterators keep their container
                bases = set()
                for v in vs:
                    x = v
                    while x.op in ("inc", "dec"):
                        x = x.a[0]
                    bases.add(x)
                P = self.phi(key, l)
                x = next(iter(bases))
                if all(y.op in ("begin", "it") and y.a[0] is x.a[0] and y.a[1] is x.a[1]
                       for y in bases):
                    P = mk("it", x.a[0], x.a[1], P)
                info["phi"][l] = P
                phis.append((l, P, vs))
        for l, P, vs in phis:
            out.env[l] = P
            out.gen |= P.gen
            self._retag(P, vs)
        for s in states:
            s._les = None
        # facts: those of the previous head state (or of the entry) that every edge re-establishes
        subs = []
        for j in range(len(states)):
            m = dict(epsub[j])
            for l, P, vs in phis:
                m[P] = vs[j]
            subs.append(m)
        cands = set(info["facts"]) if info["facts"] is not None else set()
        # facts known on entry, about the values that are now phis
        e0 = states.index(ent[0])
        for a in ent[0].facts:
            cands.add(a)
        for l, P, vs in phis:
            v = vs[e0]
            if P in POINTER:
                cands.add(("nz", P))
                continue
            if P in FLOATY:
                continue
            if isc(v):
                cands.add(le_atom(v, P))
                cands.add(le_atom(P, v))
                cands.add(("nz", P))
                cands.add(("z", P))
                cands.add(("t", P))
                cands.add(("f", P))
            elif v is not NULL and v.op not in ("s", "nothing"):
                cands.add(le_atom(v, P))
                cands.add(le_atom(P, v))
                for a in ent[0].facts:
                    for t in atom_terms(a):
                        if mentions(t, v):
                            cands.add(subst_atom(a, {v: P}, {}))
                            break
            if v.op in ("sym", "strof") or P.op == "phi":
                # sizes of containers
                sz = mk("size", P)
                if ent[0].entails(le_atom(ONE, mk("size", v))):
                    cands.add(le_atom(ONE, sz))
                elif ent[0].entails(le_atom(mk("size", v), ZERO)):
                    cands.add(le_atom(sz, ZERO))
        # relations between a phi and the other phis of the head (difference constraints)
        for a in list(cands):
            if a[0] == "le":
                pass
        keep = set()
        memos = [{} for _ in states]
        phiset = set(P for _, P, _ in phis) | set(x for m in epsub for x in m)
        for a in cands:
            if a[0] == "le" and not a[1]:
                continue
            g = atom_gen(a)
            bad = set(x for p in phiset for x in p.gen)
            if g & (H - bad):
                continue
            hasphi = bool(g & bad)
            ok = True
            for j, s in enumerate(states):
                x = subst_atom(a, subs[j], memos[j]) if hasphi else a
                if not s.entails(x):
                    ok = False
                    break
            if ok:
                keep.add(a)
        if info["facts"] is not None and info.get("n", 0) > 6:
            keep &= info["facts"]
        info["facts"] = keep
        info["n"] = info.get("n", 0) + 1
        out.facts = set(keep)
        s0 = states[0]
        bad = set(x for p in phiset for x in p.gen) | H
        for k in s0.impl:
            if all(s.impl.get(k) == s0.impl[k] for s in states[1:]) and not (k.gen & bad):
                if not any((v.gen & bad) or any(atom_gen(a) & bad for a in at)
                           for v, at in s0.impl[k]):
                    out.impl[k] = s0.impl[k]
        for d in s0.refs:
            vs = [s.refs.get(d) for s in states]
            if all(v is vs[0] for v in vs) and not (vs[0] is not None and vs[0].gen & H):
                out.refs[d] = vs[0]
        self.join_vals_head(states, out)
        self.join_exts(states, out)
        if H:
            for d in (out.vals, out.lvs):
                for k in [k for k, v in d.items() if v.gen & H]:
                    d.pop(k)
        return out

    def join_vals_head(self, states, out):
        s0 = states[0]
        for k, v in s0.vals.items():
            if all(s.vals.get(k) is v for s in states[1:]):
                out.vals[k] = v
        for k, v in s0.lvs.items():
            if all(s.lvs.get(k) is v for s in states[1:]):
                out.lvs[k] = v

    # ------------------------------------------------------------ transfer of one block
    def transfer(self, fr, b, s_in):
        f = fr.f
        blk = f["B"][b]
        states = [s_in.copy()]
        for e in blk["e"]:
            nxt = []
            for st in states:
                self.element(fr, st, e)
                if st.forks:
                    nxt.extend(x for x in st.forks if not x.dead)
                    st.forks = None
                if not st.dead:
                    nxt.append(st)
            states = nxt
            if not states:
                break
        out = []
        for st in states:
            out.extend(self.terminator(fr, b, blk, st))
        return out

    def element(self, fr, st, e):
        f = fr.f
        H = self.hooks
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("budget exhausted in %s" % f["name"])
        H.element(self, fr, st, e)
        if "n" in e:
            self.ev(fr, st, e["n"])
        elif e.get("decl"):
            self.do_decl(fr, st, e)
        elif e.get("ret"):
            v = None
            if "v" in e:
                if f["ret"].endswith("&"):
                    v = self.addr(self.loc(fr, st, e["v"]))
                else:
                    v = self.val(fr, st, e["v"])
                    rn = f["nodes"][e["v"]]
                    self.tag(v, rn)
            st.ret = v
            H.ret(self, fr, st, e, v)
        elif e.get("init"):
            self.do_init(fr, st, e)
        elif "adtor" in e:
            H.scope_end(self, fr, st, e)

    def terminator(self, fr, b, blk, st):
        f = fr.f
        H = self.hooks
        if blk.get("nr"):
            return [(s, None) for s in blk["s"] if s is not None]
        succs = blk["s"]
        tk = blk.get("tk")
        if tk == "SwitchStmt" and "c" in blk:
            c = self.val(fr, st, blk["c"])
            out = []
            cases = []
            for s in succs:
                if s is not None and f["B"][s].get("label") == "case":
                    cases.append(int(f["B"][s].get("cv", 0)))
            for s in succs:
                if s is None:
                    continue
                s2 = st.copy()
                tb = f["B"][s]
                if tb.get("label") == "case" and "cv" in tb:
                    assume(s2, mk("eq", c, C(int(tb["cv"]))), True)
                else:
                    for v in cases:
                        assume(s2, mk("eq", c, C(v)), False)
                        if s2.dead:
                            break
                out.append((s, s2))
            return out
        if len(succs) == 2 and "c" in blk and tk not in ("CXXTryStmt", "GotoStmt"):
            c = self.val(fr, st, blk["c"])
            cn = f["nodes"][blk["c"]]
            if cn.get("ptr"):
                POINTER.add(c) if c.op != "c" else None
            out = []
            for s, pol in ((succs[0], True), (succs[1], False)):
                if s is None:
                    continue
                s2 = st.copy()
                assume(s2, c, pol)
                if not s2.dead:
                    H.branch(self, fr, s2, b, c, pol)
                out.append((s, s2))
            return out
        return [(s, st.copy()) for s in succs if s is not None]

    def do_decl(self, fr, st, e):
        l = mk("V", e["d"], e["name"])
        self._drop_sub(st, l)
        st.refs.pop(e["d"], None)
        for k in [k for k in st.env if k.op == "E" and k.a[0] is mk("&", l)]:
            del st.env[k]
        if "i" not in e:
            v = self.fresh(fr, st, ("decl", e["d"]), "uninit")
            st.env[l] = v
            self.hooks.decl(self, fr, st, e, l, v)
            return
        i = e["i"]
        n = fr.f["nodes"][i]
        if e.get("ref"):
            if n.get("lv") or i in st.lvs:
                st.refs[e["d"]] = self.addr(self.loc(fr, st, i))
            else:
                v = self.val(fr, st, i)
                if v.op == "obj":
                    st.refs[e["d"]] = v
                else:
                    st.env[l] = v
            self.hooks.decl(self, fr, st, e, l, None)
            return
        v = self.val(fr, st, i)
        if e.get("ptr") and v.op != "c":
            POINTER.add(v)
        if v.op == "obj" and n["k"] == "construct":
            st.refs[e["d"]] = v
            self.hooks.decl(self, fr, st, e, mk("D", v), v)
            return
        if v.op == "obj" and not e.get("ptr"):
            st.refs[e["d"]] = v
            self.hooks.decl(self, fr, st, e, mk("D", v), v)
            return
        if e.get("slocal"):
            v = self.fresh(fr, st, ("decl", e["d"]), e["name"])
        st.env[l] = v
        self.hooks.decl(self, fr, st, e, l, v)

    def do_init(self, fr, st, e):
        if "field" in e:
            l = mk("F", fr.this, e["field"])
            v = self.val(fr, st, e["v"]) if "v" in e else mk("nothing")
            self.hooks.store(self, fr, st, e.get("v"), l, v, None)
            # direct strong update: the object is under construction
            vn = fr.f["nodes"].get(e.get("v"))
            if v.op == "obj" and vn is not None and vn["k"] == "construct":
                # an embedded object: its fields live inside this one
                a = mk("&", l)
                for k in list(st.env):
                    if k.op == "F" and k.a[0] is v:
                        st.env[mk("F", a, k.a[1])] = st.env.pop(k)
            st.env[l] = v
        elif "base" in e and "v" in e:
            # base class constructor: run it on this object
            n = fr.f["nodes"].get(e["v"])
            if n and n["k"] == "construct":
                f = self.prog.functions.get(n.get("u"))
                if f is not None and not fr.has(f["u"]):
                    v = st.vals.get(e["v"])
                    if v is not None and v.op == "obj":
                        # the constructor already ran on a temporary: move its fields over
                        for k in list(st.env):
                            if k.op == "F" and k.a[0] is v:
                                st.env[mk("F", fr.this, k.a[1])] = st.env.pop(k)


def neg(t):
    if t.op == "not":
        return t.a[0]
    if t.op == "c":
        return C(0 if t.a[0] else 1)
    if t is NULL:
        return TRUE
    return mk("not", t)


def conj(x, y):
    if isc(x):
        return y if x.a[0] else FALSE
    if isc(y):
        return x if y.a[0] else FALSE
    xs = x.a if x.op == "and" else (x,)
    ys = y.a if y.op == "and" else (y,)
    return mk("and", *dict.fromkeys(xs + ys))


def disj(x, y):
    if isc(x):
        return TRUE if x.a[0] else y
    if isc(y):
        return TRUE if y.a[0] else x
    xs = x.a if x.op == "or" else (x,)
    ys = y.a if y.op == "or" else (y,)
    return mk("or", *dict.fromkeys(xs + ys))


def cmpterm(op, x, y):
    if op == "==":
        if x is y:
            return TRUE
        if isc(x) and isc(y) or x.op == "s" and y.op == "s":
            return C(x.a[0] == y.a[0])
        if x.h > y.h and not isc(y) and y is not NULL or (isc(x) or x is NULL):
            x, y = y, x
        return mk("eq", x, y)
    if op == "!=":
        return neg(cmpterm("==", x, y))
    if op == ">":
        return cmpterm("<", y, x)
    if op == ">=":
        return cmpterm("<=", y, x)
    if isc(x) and isc(y):
        return C(x.a[0] < y.a[0] if op == "<" else x.a[0] <= y.a[0])
    return mk("lt" if op == "<" else "le", x, y)


def minmax(op, vals):
    flat = []
    for v in vals:
        if v.op == op:
            flat.extend(v.a)
        else:
            flat.append(v)
    flat = sorted(dict.fromkeys(flat), key=lambda t: t.h)
    if len(flat) == 1:
        return flat[0]
    t = mk(op, *flat)
    if any(x in FLOATY for x in flat):
        FLOATY.add(t)
    return t


def minmax_of(c, x, y):
    """c ? x : y as min/max."""
    if c.op == "not":
        return minmax_of(c.a[0], y, x)
    if c.op in ("lt", "le"):
        if c.a == (x, y):
            return minmax("min", [x, y])
        if c.a == (y, x):
            return minmax("max", [x, y])
    if c.op == "fn" and c.a[0] in ("smaller", "equalOrSmaller", "larger", "equalOrLarger") and \
            len(c.a) >= 3:
        small = c.a[0] in ("smaller", "equalOrSmaller")
        if (c.a[1], c.a[2]) == (x, y):
            return minmax("min" if small else "max", [x, y])
        if (c.a[1], c.a[2]) == (y, x):
            return minmax("max" if small else "min", [x, y])
    return None


def distinct(a, b):
    """Two object identities that cannot be the same object."""
    if a.op == "obj" and b.op == "obj" and a is not b:
        return True
    if a.op == "&" and b.op == "&":
        x, y = a.a[0], b.a[0]
        if x.op == "V" and y.op == "V" and x is not y:
            return True
        if x.op == "F" and y.op == "F" and x.a[1] != y.a[1]:
            return True
        if {x.op, y.op} == {"V", "F"}:
            return True
    if {a.op, b.op} == {"&", "obj"}:
        return True
    # an object created in this run is not one that was reached through memory before
    for p, q in ((a, b), (b, a)):
        if p.op == "obj" and q.op in ("iv", "this"):
            return True
    return False


def _under(k, a):
    """Is location k a part of the object with address a (fields of embedded objects)?"""
    if k.op == "F":
        b = k.a[0]
        while True:
            if b is a:
                return True
            if b.op == "&" and b.a[0].op == "F":
                b = b.a[0].a[0]
                continue
            return False
    return False


def _local_of(k, L):
    if k.op == "V":
        return k.a[0] in L
    if k.op in ("F", "E"):
        b = k.a[0]
        while b.op == "&" and b.a[0].op in ("F", "E"):
            b = b.a[0].a[0]
        if b.op == "&" and b.a[0].op == "V":
            return b.a[0].a[0] in L
    return False


def _locname(l):
    return show(l)


def _atomkey(a):
    if a[0] == "le":
        return (0, tuple((t.h, v) for t, v in a[1]), a[2])
    return (1, a[0], a[1].h)

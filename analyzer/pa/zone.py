"""Difference bounds between the integers, iterators and container sizes of a function: an abstract
interpretation of its control-flow graph over the zone domain, with the values of the booleans that
matter kept apart."""
from . import query
from .effects import READERS
from .interp import loops_of, order

ZERO = ("0",)
SIZES = {"size", "length", "ssize"}
FIRST = {"begin", "cbegin", "rbegin", "crbegin"}
LAST = {"end", "cend", "rend", "crend"}
GROW = {"push_back", "emplace_back", "push", "emplace", "push_front", "emplace_front"}
SHRINK = {"pop_back", "pop", "pop_front"}
KEEP = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "crbegin", "crend", "at", "front", "back",
        "operator[]", "data", "find", "lower_bound", "upper_bound", "equal_range", "get", "size",
        "length", "empty", "reserve", "shrink_to_fit", "top", "count", "substr", "compare", "c_str",
        "contains", "capacity", "find_first_of", "find_first_not_of", "find_last_of",
        "find_last_not_of", "rfind", "operator->", "operator*", "ssize"}
ASSOC = ("std::map", "std::unordered_map", "std::set", "std::unordered_set", "std::multimap",
         "std::multiset")
INF = None
# ("m", k): where the search that gave k its value found something, if it did;
# ("z", k) >= 1: k is not zero
GHOSTS = ("m", "z")
WHOLE = ("ppp::utils::math::minimum", "ppp::utils::math::maximum")
NPOS = (2 ** 64 - 1, 2 ** 32 - 1, -1)
SEARCH = {"find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"}


class Z:
    """a - b <= c for pairs of keys, closed under addition."""
    __slots__ = ("up", "dn")

    def __init__(self):
        self.up = {}
        self.dn = {}

    def copy(self):
        z = Z()
        z.up = {k: dict(v) for k, v in self.up.items()}
        z.dn = {k: dict(v) for k, v in self.dn.items()}
        return z

    def ub(self, a, b):
        """The least known c with a - b <= c, or None."""
        if a == b:
            return 0
        return self.up.get(a, {}).get(b)

    def _set(self, a, b, c):
        self.up.setdefault(a, {})[b] = c
        self.dn.setdefault(b, {})[a] = c

    def add(self, a, b, c):
        """Learn a - b <= c; False when that cannot be."""
        if a == b:
            return c >= 0
        o = self.ub(a, b)
        if o is not None and o <= c:
            return True
        r = self.ub(b, a)
        if r is not None and r + c < 0:
            return False
        xs = [(a, 0)] + list(self.dn.get(a, {}).items())
        ys = [(b, 0)] + list(self.up.get(b, {}).items())
        for x, p in xs:
            for y, q in ys:
                if x == y:
                    continue
                v = p + c + q
                w = self.ub(x, y)
                if w is None or w > v:
                    self._set(x, y, v)
        return True

    def forget(self, k):
        for b in self.up.pop(k, {}):
            self.dn[b].pop(k, None)
        for a in self.dn.pop(k, {}):
            self.up[a].pop(k, None)
        if k[0] not in GHOSTS:
            self.ghosts(k)

    def ghosts(self, k):
        for g in GHOSTS:
            if (g, k) in self.up or (g, k) in self.dn:
                self.forget((g, k))

    def shift(self, k, c):
        if k in self.up:
            for b in self.up[k]:
                self.up[k][b] += c
                self.dn[b][k] += c
        if k in self.dn:
            for a in self.dn[k]:
                self.dn[k][a] -= c
                self.up[a][k] -= c
        self.ghosts(k)

    def keys(self):
        return set(self.up) | set(self.dn)

    def pairs(self):
        for a, m in self.up.items():
            for b, c in m.items():
                yield a, b, c


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    z = Z()
    for x, m in a.up.items():
        n = b.up.get(x)
        if n:
            for y, c in m.items():
                d = n.get(y)
                if d is not None:
                    z._set(x, y, c if c >= d else d)
    return z


def same(a, b):
    if a is None or b is None:
        return a is b
    fa = {(x, y): c for x, y, c in a.pairs()}
    fb = {(x, y): c for x, y, c in b.pairs()}
    return fa == fb


def widen(old, new, banned, marks=()):
    z = Z()
    for x, y, c in old.pairs():
        if (x, y) in banned:
            continue
        d = new.ub(x, y)
        if d is not None and d <= c:
            z._set(x, y, c)
            continue
        t = next((t for t in ((-1, 0) + marks if y == ZERO else (-1, 0))
                  if d is not None and d <= t), None)
        if t is not None:
            z._set(x, y, t)
        else:
            banned.add((x, y))
    return z


# ------------------------------------------------------------------ what a call may change

def declaring(prog):
    """The class that declares the field at the end of a path, where it was met."""
    if not hasattr(prog, "_declaring"):
        prog._declaring = {}
    return prog._declaring


def fieldmods(prog):
    """usr -> (fields (class, name), outer variables, parameters by index) its calls may change, transitively."""
    if hasattr(prog, "_fieldmods"):
        return prog._fieldmods
    cg = query.callgraph(prog)
    direct, passes = {}, {}
    for u, f in prog.functions.items():
        flds, outer, pars = set(), set(), set()
        pas = []
        own = set(p["d"] for p in f["params"])
        index = {p["d"]: k for k, p in enumerate(f["params"])}
        local = set(e["d"] for b in f["B"].values() for e in b["e"] if e.get("decl"))
        fn = Fn(prog, f)

        def hit(p, i=None, flds=flds, outer=outer, pars=pars, index=index, own=own, local=local,
                fn=fn):
            if p is None:
                n = fn.nodes.get(i, {})
                while n.get("k") == "cast":
                    n = fn.nodes.get(n["e"], {})
                if n.get("k") == "member":
                    flds.add((n.get("cls"), n["name"]))
                return
            for x in comps(p):
                if x[0] == "f":
                    # said by the field, whatever object it is in
                    flds.add((declaring(prog).get(x), x[2]))
                    return
            r = root(p)
            if r[0] == "v":
                if r[1] in index:
                    pars.add(index[r[1]])
                elif r[1] not in local and r[1] not in own:
                    outer.add(r[1])
        for n in f["nodes"].values():
            k = n["k"]
            if k == "assign":
                hit(fn.path(n["x"]), n["x"])
            elif k == "un" and n["op"] in ("++", "--"):
                hit(fn.path(n["e"]), n["e"])
            elif k == "call":
                name = query.base(n)
                if not n.get("own") and n.get("o") is not None and not n.get("const") and \
                        (name not in KEEP or adds(n)):
                    p = fn.path(n["o"])
                    hit(("d", p) if n.get("arrow") and p else p, n["o"])
                for j, a in enumerate(n.get("a", [])):
                    pm = n.get("pm", "")[j:j + 1] or "v"
                    if pm in ("m", "p"):
                        p = fn.path(a)
                        if n.get("u") in prog.functions:
                            pas.append((n["u"], j, p, a))
                        elif name not in READERS:
                            hit(p, a)
        direct[u] = [flds, outer, pars]
        passes[u] = (pas, hit)
    changed = True
    while changed:
        changed = False
        for u in prog.functions:
            d = direct[u]
            before = (len(d[0]), len(d[1]), len(d[2]))
            for c in cg.get(u, ()):
                d[0] |= direct[c][0]
                d[1] |= direct[c][1]
            pas, hit = passes[u]
            for c, j, p, a in pas:
                if j in direct[c][2]:
                    hit(p, a)
            if (len(d[0]), len(d[1]), len(d[2])) != before:
                changed = True
    prog._fieldmods = direct
    return direct


def comps(p):
    while True:
        yield p
        if p[0] in ("f", "d", "a"):
            p = p[1]
        else:
            return


def callers(prog):
    """usr -> [(caller, call expression)]."""
    if not hasattr(prog, "_sites"):
        prog._sites = {}
        for g in prog.functions.values():
            for i, n in g["nodes"].items():
                if n["k"] in ("call", "construct") and n.get("u") in prog.functions:
                    prog._sites.setdefault(n["u"], []).append((g, i))
    return prog._sites


def entries(prog, f, keys, depth=2):
    """(a, b, c): a - b <= c whenever f is called, for keys named after its parameters and object."""
    ks = sorted(set(keys) | {ZERO}, key=repr)
    best = None
    for g, i in callers(prog).get(f["u"], ()):
        if g is f:
            return ()
        zg = Zones(prog, g)
        if depth > 1:
            zg.entry = entries(prog, g, inputs(zg), depth - 1)
        if not zg.run():
            return ()
        n = g["nodes"][i]
        s = before(zg, i)
        if s is None:
            continue
        at = {k: translated(zg, s, f, n, k) for k in ks}
        now = {}
        for a in ks:
            for b in ks:
                if a == b or at[a] is None or at[b] is None:
                    continue
                (p, c), (q, d) = at[a], at[b]
                x = s.ub(p, q)
                if x is None and q == ZERO == b and p[0] == "s":
                    continue
                if x is None and p == ZERO and q[0] == "s":
                    x = 0
                if x is not None:
                    now[a, b] = x + c - d
        best = now if best is None else {k: max(v, now[k]) for k, v in best.items() if k in now}
    return [(a, b, c) for (a, b), c in (best or {}).items()]


def inputs(z):
    """Keys of the numbers and containers a function is given: in its parameters, its object and, for
    a lambda, the variables around it."""
    f = z.f
    mine = set(e["d"] for b in f["B"].values() for e in b["e"] if e.get("decl") and "d" in e)
    out = set(("i", ("v", p["d"])) for p in f["params"] if integral(p))
    handed = set(a for n in z.nodes.values() if n["k"] == "call" and n.get("u") in z.prog.functions
                 for a in n.get("a", []))
    for i, n in z.nodes.items():
        k = None
        if n["k"] == "call" and n.get("o") is not None and "std::" in n.get("cls", ""):
            k = z.contkey(n)
        elif i in handed and n.get("lv") and n["k"] in ("var", "member") and \
                n.get("t", "").replace("const ", "").startswith("std::vector"):
            p = z.path(i)
            k = ("s", p) if p is not None else None
        elif n["k"] in ("var", "member") and integral(n):
            k = z.scalar(i)
        if k is not None and (root(k[1]) == ("this",) or
                              root(k[1])[0] == "v" and root(k[1])[1] not in mine):
            out.add(k)
    return out


def before(z, i):
    """What holds before expression i is evaluated."""
    for b, st in z.at.items():
        es = z.f["B"][b]["e"]
        if not any(e.get("n") == i and not e.get("decl") for e in es):
            continue
        st = {q: s.copy() for q, s in st.items()}
        for e in es:
            if e.get("n") == i and not e.get("decl"):
                out = None
                for s in st.values():
                    out = join(out, s)
                return out
            st = z.element(st, e)
            if not st:
                return None
    return None


def translated(z, s, f, n, k):
    """Key k of the called f, as (key, constant) of the caller z."""
    if k == ZERO:
        return (ZERO, 0)
    r = root(k[1])
    if r == ("this",):
        if n.get("o") is None:
            return None
        p = z.path(n["o"])
        if p is None:
            return None
        p = p if n.get("arrow") else (p[1] if p[0] == "d" else ("a", p))
        q = swapped(k[1], r, p)
    else:
        j = next((j for j, p in enumerate(f["params"]) if ("v", p["d"]) == r), None)
        if j is None:
            return (k, 0)
        if j >= len(n.get("a", [])):
            return None
        if k[0] == "i" and k[1] == r:
            return z.lin(s, n["a"][j])
        if k[0] == "s" and k[1] == r:
            v = z.sizeof(s, n["a"][j])
            if v is not None:
                return v
        p = z.path(n["a"][j])
        if p is None:
            return None
        q = swapped(k[1], r, p)
    return ((k[0], plain(q)), 0)


def plain(p):
    """The name p, with no address taken and followed at once."""
    if p[0] in ("f", "d", "a"):
        b = plain(p[1])
        if p[0] == "d" and b[0] == "a" or p[0] == "a" and b[0] == "d":
            return b[1]
        return (p[0], b) + p[2:]
    return p


def selfmod(prog, u):
    """Is the method one of a kind of container, and changes the container itself?"""
    memo = prog.__dict__.setdefault("_selfmod", {})
    if u not in memo:
        memo[u] = False
        f = prog.functions.get(u)
        memo[u] = f is not None and bool(f.get("cls")) and any(
            n["k"] == "call" and n.get("o") is not None and not n.get("const") and
            query.base(n) not in KEEP and f["nodes"][n["o"]]["k"] == "this" and
            not (n.get("own") and not selfmod(prog, n["u"]) if n.get("u") != u else False)
            for n in f["nodes"].values())
    return memo[u]


def growth(prog, u, j):
    """By how many elements the function, which has no branches, grows the container it is given as
    parameter j, and does nothing else to it; None where that is not known."""
    memo = prog.__dict__.setdefault("_growth", {})
    if (u, j) in memo:
        return memo[u, j]
    memo[u, j] = None
    f = prog.functions.get(u)
    if f is None or j >= len(f["params"]) or any(len(b["s"]) > 1 for b in f["B"].values()):
        return None
    d = f["params"][j]["d"]
    nodes, seen, total = f["nodes"], set(), 0

    def means(i):
        n = nodes.get(i, {})
        while n.get("k") == "cast" or n.get("k") == "un" and n["op"] == "*":
            i = n["e"]
            n = nodes.get(i, {})
        return i if n.get("k") == "var" and n.get("d") == d else None

    for i, n in nodes.items():
        if n["k"] == "call" and n.get("o") is not None and means(n["o"]) is not None and \
                n.get("cls", "").startswith("std::"):
            b = query.base(n)
            if b in GROW and not n["cls"].startswith(ASSOC):
                total += 1
            elif b in SHRINK:
                total -= 1
            elif not n.get("const") and b not in KEEP:
                return None
            seen.add(means(n["o"]))
    if any(n["k"] == "lambda" or n["k"] == "var" and n.get("d") == d and i not in seen
           for i, n in nodes.items()):
        return None
    memo[u, j] = total
    return total


def filled(prog, u):
    """Does the method leave the container it is called on with an element?"""
    memo = prog.__dict__.setdefault("_filled", {})
    if u in memo:
        return memo[u]
    memo[u] = False
    f = prog.functions.get(u)
    k = ("s", ("d", ("this",)))
    if not selfmod(prog, u):
        return False
    z = Zones(prog, f, {k})
    if not z.run():
        return False
    st, later = None, None
    out = []
    for b in z.at:
        st, _ = z.block({p: s.copy() for p, s in z.at[b].items()}, b)
        if f["exit"] in f["B"][b]["s"]:
            out += list(st.values())
    memo[u] = bool(out) and all((s.ub(ZERO, k) or 0) <= -1 for s in out)
    return memo[u]


def adds(n):
    """Does [] add the key that is not there?"""
    return n.get("op") == "[]" and n.get("cls", "").startswith(ASSOC)


def swapped(p, q, r):
    """The name p with its beginning q replaced by r."""
    if p == q:
        return r
    if p[0] in ("f", "d", "a"):
        return (p[0], swapped(p[1], q, r)) + p[2:]
    return p


def root(p):
    for x in comps(p):
        pass
    return x


class Fn:
    """Names of the storage a function's expressions denote."""

    def __init__(self, prog, f):
        self.prog = prog
        self.f = f
        self.nodes = f["nodes"]
        if "_alias" not in f:
            f["_alias"] = {}
            for b in f["B"].values():
                for e in b["e"]:
                    if e.get("decl") and e.get("ref") and e.get("i") is not None:
                        p = self.path(e["i"])
                        if p is not None:
                            f["_alias"][e["d"]] = p
        self.alias = f["_alias"]

    def path(self, i, depth=0):
        if i is None or i < 0 or depth > 20:
            return None
        n = self.nodes.get(i)
        if n is None:
            return None
        k = n["k"]
        if k == "var":
            d = n.get("d")
            if d is None:
                return ("g", n["name"])
            al = self.f.get("_alias", {})
            if d in al:
                return al[d]
            return ("v", d)
        if k == "this":
            return ("this",)
        if k == "member":
            b = self.path(n["b"], depth + 1)
            if b is None:
                return None
            if n.get("arrow"):
                b = b[1] if b[0] == "a" else ("d", b)
            p = ("f", b, n["name"])
            if n.get("cls"):
                declaring(self.prog).setdefault(p, n["cls"])
            return p
        if k == "un" and n["op"] == "*" and self.nodes[n["e"]].get("ptr"):
            b = self.path(n["e"], depth + 1)
            if b is None:
                return None
            return b[1] if b[0] == "a" else ("d", b)
        if k == "un" and n["op"] == "&":
            b = self.path(n["e"], depth + 1)
            if b is None:
                return None
            return b[1] if b[0] == "d" else ("a", b)
        if k == "cast":
            return self.path(n["e"], depth + 1)
        if k == "call" and n.get("op") == "->" and n.get("o") is not None:
            return self.path(n["o"], depth + 1)
        if k == "call" and query.base(n) == "get" and n.get("o") is not None and not n.get("a"):
            return self.path(n["o"], depth + 1)
        return None


def integral(n):
    return n.get("ki") in ("int", "uint", "bool", "enum") or n.get("ki") == "char"


def iterator(t):
    return "iterator" in (t or "")


class Zones(Fn):
    """One function; `keys` limits what is followed (None: everything)."""

    def __init__(self, prog, f, keys=None, bools=()):
        super().__init__(prog, f)
        self.keys = keys
        self.bools = set(bools)
        self.mods = fieldmods(prog)
        self.seen = set()       # keys met
        self.touched = None     # set collecting changed keys
        self.entry = ()         # (a, b, c): a - b <= c when the function is called

    # -------------------------------------------------------------- keys
    def want(self, k):
        self.seen.add(k)
        return self.keys is None or k in self.keys

    def contkey(self, n):
        """Size key of the container a method call is on."""
        p = self.path(n.get("o"))
        if p is None:
            return None
        if n.get("arrow"):
            p = p[1] if p[0] == "a" else ("d", p)
        return ("s", p)

    def getter(self, n):
        """Key of the value of a method of a foreign class that only tells something."""
        if n.get("own") or n.get("o") is None or n.get("a") or n.get("ki") not in ("int", "uint"):
            return None
        b = query.base(n)
        if not (n.get("const") or b.startswith(("get", "num"))) or "stream" in n.get("cls", "") or \
                n.get("cls", "").startswith("std::"):
            return None
        p = self.path(n["o"])
        if p is None:
            return None
        if n.get("arrow"):
            p = p[1] if p[0] == "a" else ("d", p)
        return ("i", ("f", p, b + "()"))

    def scalar(self, i):
        """Key of an integer or iterator variable or field."""
        n = self.nodes.get(i)
        if n is None:
            return None
        if n["k"] == "cast":
            return self.scalar(n["e"])
        if n["k"] in ("var", "member") or (n["k"] == "un" and n["op"] == "*"):
            if integral(n) or iterator(n.get("t")) or n.get("name") == "pageNum":
                p = self.path(i)
                if p is not None:
                    return ("i", p)
        return None

    def lin(self, z, i):
        """(key, constant) with value = key + constant, or None."""
        n = self.nodes.get(i)
        if n is None:
            return None
        k = n["k"]
        if "cv" in n and n.get("ki") in ("int", "uint"):
            try:
                return (ZERO, int(n["cv"]))
            except ValueError:
                pass
        if k == "int":
            return (ZERO, int(n["v"]))
        if k == "bool":
            return (ZERO, int(n["v"]))
        if k == "cast":
            if n.get("ki") == "fp":
                return None
            return self.lin(z, n["e"])
        if k in ("var", "member") or (k == "un" and n["op"] == "*"):
            s = self.scalar(i)
            if s is not None and self.want(s):
                return (s, 0)
            return None
        if k == "un":
            if n["op"] in ("++", "--"):
                s = self.scalar(n["e"])
                if s is None or not self.want(s):
                    return None
                if n.get("post"):
                    return (("t", i), 0)
                return (s, 0)
            if n["op"] == "-":
                x = self.lin(z, n["e"])
                if x is not None and x[0] == ZERO:
                    return (ZERO, -x[1])
                return None
            if n["op"] == "+":
                return self.lin(z, n["e"])
            return None
        if k == "assign":
            s = self.scalar(n["x"])
            return (s, 0) if s is not None and self.want(s) else None
        if k == "bin" and n["op"] == "%":
            return (("t", i), 0)
        if k == "bin" and n["op"] in ("+", "-"):
            return self.sum(z, n["op"], n["x"], n["y"], n.get("ki") == "uint")
        if k == "construct" and len(n.get("a", [])) == 1 and iterator(n.get("t")):
            return self.lin(z, n["a"][0])
        if k == "call":
            b = query.base(n)
            if n.get("op") in ("++", "--"):
                return self.stepval(i, n)
            if n.get("op") in ("+", "-") and n.get("a"):
                args = ([n["o"]] if n.get("o") is not None else []) + n["a"]
                if len(args) == 2 and (iterator(n.get("t")) or n.get("ki") == "int"):
                    return self.sum(z, n["op"], args[0], args[1], False)
                return None
            if n.get("o") is not None and not n.get("own"):
                if b in SIZES or b in LAST or b in FIRST:
                    if b in FIRST:
                        return (ZERO, 0)
                    ck = self.contkey(n)
                    return (ck, 0) if ck is not None and self.want(ck) else None
            elif n.get("a") and len(n["a"]) <= 2:
                if b in ("next", "prev") and n.get("fn", "").startswith("std::"):
                    x = self.lin(z, n["a"][0])
                    d = 1
                    if len(n["a"]) == 2:
                        y = self.lin(z, n["a"][1])
                        if y is None or y[0] != ZERO:
                            return None
                        d = y[1]
                    return (x[0], x[1] + (d if b == "next" else -d)) if x else None
                if len(n["a"]) == 1 and b in SIZES | FIRST | LAST and \
                        n.get("fn", "").startswith("std::"):
                    if b in FIRST:
                        return (ZERO, 0)
                    p = self.path(n["a"][0])
                    ck = ("s", p) if p else None
                    return (ck, 0) if ck and self.want(ck) else None
            g = self.getter(n)
            if g is not None:
                return (g, 0) if self.want(g) else None
            return (("t", i), 0) if n.get("ki") in ("int", "uint") or iterator(n.get("t")) or \
                n.get("fn") in WHOLE else None
        if k in ("cond", "sub", "bin") and n.get("ki") in ("int", "uint"):
            return (("t", i), 0)
        return None

    def stepval(self, i, n):
        args = ([n["o"]] if n.get("o") is not None else []) + n.get("a", [])
        s = self.scalar(args[0]) if args else None
        if s is None or not self.want(s):
            return None
        if len(args) == 2:        # postfix: a dummy operand
            return (("t", i), 0)
        return (s, 0)

    def sum(self, z, op, x, y, unsigned):
        a, b = self.lin(z, x), self.lin(z, y)
        if a is None or b is None:
            return None
        if op == "+":
            if b[0] == ZERO:
                return (a[0], a[1] + b[1])
            if a[0] == ZERO:
                return (b[0], a[1] + b[1])
            return None
        if b[0] == ZERO:
            r = (a[0], a[1] - b[1])
        elif a[0] == b[0]:
            r = (ZERO, a[1] - b[1])
        else:
            return None
        if unsigned and z is not None:
            lo = z.ub(ZERO, r[0])          # 0 - k <= c
            if r[0] == ZERO:
                return r if r[1] >= 0 else None
            if lo is None or -lo + r[1] < 0:
                return None
        return r

    # -------------------------------------------------------------- changing a state
    def touch(self, k):
        if self.touched is not None:
            self.touched.add(k)

    def forget(self, z, k):
        self.touch(k)
        z.forget(k)
        if k[0] == "s":
            z.add(ZERO, k, 0)

    def kin(self, p, q):
        """May the fields at the ends of two paths be the same field of a class?"""
        known = declaring(self.prog)
        return p[2] == q[2] and (p not in known or q not in known or known[p] == known[q])

    def aliases(self, z, p):
        """Other keys whose storage may be p's."""
        if p[0] != "f":
            return
        for k in z.keys() | (self.keys or set()):
            if k[0] in ("i", "s") and k[1] != p and k[1][0] == "f" and self.kin(k[1], p):
                yield k

    def drop(self, z, p, whole=True):
        """Forget every key that depends on the storage p."""
        for k in list(z.keys() | (self.keys or set())):
            if k[0] in ("i", "s") and any(x == p for x in comps(k[1])):
                self.forget(z, k)

    def among(self, x, fields):
        """May the field at the end of path x be one of the fields (class, name)?"""
        if x[0] != "f":
            return False
        c = declaring(self.prog).get(x)
        if c is None:
            return any(y == x[2] for _, y in fields)
        return (c, x[2]) in fields or (None, x[2]) in fields

    def dropfields(self, z, fields, outer):
        """Forget what depends on one of the fields (class, name) or outer variables."""
        for k in list(z.keys() | (self.keys or set())):
            if k[0] not in ("i", "s"):
                continue
            for x in comps(k[1]):
                if self.among(x, fields) or (x[0] == "v" and x[1] in outer):
                    self.forget(z, k)
                    break

    def assign(self, z, key, val, unsigned):
        if not self.want(key):
            return
        for o in list(self.aliases(z, key[1])):
            self.forget(z, o)
        self.touch(key)
        if val is not None and val[0] == key:
            z.shift(key, val[1])
            return
        z.forget(key)
        if val is not None:
            z.add(key, val[0], val[1])
            z.add(val[0], key, -val[1])
            if val[1] == 0 and val[0][0] != "0" and self.keys is None:
                for g in GHOSTS:
                    if (g, val[0]) in z.up or (g, val[0]) in z.dn:
                        z.add((g, key), (g, val[0]), 0)
                        z.add((g, val[0]), (g, key), 0)
        if unsigned:
            z.add(ZERO, key, 0)

    def step(self, z, i, s, d, n, post):
        """++ and -- on the key s."""
        if s is None or not self.want(s):
            return
        t = ("t", i)
        if post:
            z.forget(t)
            z.add(t, s, 0)
            z.add(s, t, 0)
        uns = n.get("ki") == "uint"
        if d < 0 and uns:
            lo = z.ub(ZERO, s)
            if lo is None or lo > -1:        # may wrap below zero
                self.touch(s)
                z.forget(s)
                z.add(ZERO, s, 0)
                if post:
                    self.later[s] = t
                return
        if d > 0 and n.get("bits", 32) < 32 and not iterator(n.get("t")):
            hi = z.ub(s, ZERO)
            if hi is None or hi + d > 127:
                self.touch(s)
                z.forget(s)
                return
        self.assign(z, s, (s, d), uns)

    def element(self, st, e):
        """Apply one element to every state of st (partition -> Z)."""
        self.later = {}
        if e.get("decl") and "bindings" not in e:
            return self.declare(st, e)
        if e.get("decl"):
            for z in st.values():
                for x in e["bindings"]:
                    self.drop(z, ("v", x["d"]))
            return st
        if "n" not in e:
            return st
        i = e["n"]
        n = self.nodes[i]
        k = n["k"]
        if k == "assign":
            return self.assignment(st, i, n)
        if k == "un" and n["op"] in ("++", "--"):
            s = self.scalar(n["e"])
            x = self.nodes[n["e"]]
            for z in st.values():
                self.step(z, i, s, 1 if n["op"] == "++" else -1, x, n.get("post"))
                if s is None:
                    p = self.path(n["e"])
                    if p is not None:
                        self.drop(z, p)
            return st
        if k == "bin" and n["op"] == "%" and n.get("ki") in ("int", "uint"):
            for z in st.values():
                self.modulo(z, i, n)
        if k == "call" or k == "construct":
            return self.call(st, i, n)
        return st

    def modulo(self, z, i, n):
        """x % y is below y, and not negative unless x is."""
        t = ("t", i)
        z.forget(t)
        x, y = self.lin(z, n["x"]), self.lin(z, n["y"])
        low = lambda v: None if v is None else v[1] if v[0] == ZERO else \
            None if z.ub(ZERO, v[0]) is None else v[1] - z.ub(ZERO, v[0])
        m = self.nodes.get(n["x"], {})
        while m.get("k") == "cast":
            m = self.nodes.get(m["e"], {})
        uns = n.get("ki") == "uint"
        if uns or m.get("k") == "call" and query.base(m) == "rand" or low(x) is not None and low(x) >= 0:
            z.add(ZERO, t, 0)
        if y is not None and (uns or (low(y) or 0) >= 1):
            z.add(t, y[0], y[1] - 1)

    def declare(self, st, e):
        d = e["d"]
        p = ("v", d)
        if e.get("ref"):
            if d not in self.alias:
                for z in st.values():
                    self.drop(z, p)
            return st
        i = e.get("i")
        if d in self.bools and i is not None and not e.get("ptr"):
            return self.setbool(st, d, i)
        if d in self.bools:
            st = self.setptr(st, d, i)
        for z in st.values():
            if integral(e) or iterator(e.get("t")):
                v = self.lin(z, i) if i is not None else None
                self.assign(z, ("i", p), v, e.get("ki") == "uint")
                continue
            self.drop(z, p)
            if e.get("ptr"):
                q = self.path(i) if i is not None else None
                if q is not None:
                    q = q[1] if q[0] == "a" else ("d", q)
                    if not any(y == p for y in comps(q)):
                        self.copied(z, q, ("d", p))
                continue
            k = ("s", p)
            if not self.want(k):
                continue
            self.touch(k)
            v = self.sizeof(z, i)
            if v is not None:
                z.add(k, v[0], v[1])
                z.add(v[0], k, -v[1])
            z.add(ZERO, k, 0)
        return st

    def sizeof(self, z, i):
        """Size of the container an initializer builds."""
        n = self.nodes.get(i)
        if n is None:
            return None
        if n["k"] == "cast":
            return self.sizeof(z, n["e"])
        if n["k"] == "str" and "len" in n:
            return (ZERO, n["len"])
        if n["k"] == "initlist":
            return (ZERO, len(n["a"]))
        if n["k"] in ("var", "member") or (n["k"] == "un" and n["op"] == "*"):
            p = self.path(i)
            if p is not None and self.want(("s", p)):
                return (("s", p), 0)
            return None
        if n["k"] == "construct":
            a = n.get("a", [])
            t = [self.nodes.get(x, {}) for x in a]
            if not a:
                return (ZERO, 0)
            cls = n.get("cls", "")
            if t[0].get("k") == "initlist":
                return (ZERO, len(t[0]["a"]))
            if cls == "std::basic_string":
                if t[0].get("k") == "str" and "len" in t[0] and len(a) <= 2:
                    return (ZERO, t[0]["len"])
                if t[0].get("cls", t[0].get("t", "")).find("basic_string") >= 0 and len(a) == 1:
                    return self.sizeof(z, a[0])
                if len(a) >= 2 and integral(t[0]) and not t[0].get("ptr"):    # string(n, 'c')
                    return self.lin(z, a[0])
                return None
            if cls.startswith("std::") and not cls.startswith("std::pair"):
                if integral(t[0]) and cls in ("std::vector", "std::deque"):
                    return self.lin(z, a[0])
                if len(a) == 1:
                    return self.sizeof(z, a[0])
                if len(a) == 2 and "allocator" in t[1].get("t", "")[:20]:
                    return self.sizeof(z, a[0])
                if len(a) >= 2:
                    x, y = self.lin(z, a[0]), self.lin(z, a[1])
                    if x == (ZERO, 0) and y is not None:
                        return y
            return None
        if n["k"] == "call" and query.base(n) in ("move", "forward") and n.get("a"):
            return self.sizeof(z, n["a"][0])
        return None

    def setptr(self, st, d, i):
        """A followed pointer is assigned: null, a copy of another one, or something unknown."""
        n = self.nodes.get(i, {}) if i is not None else {}
        while n.get("k") == "cast":
            n = self.nodes.get(n["e"], {})
        out = {}
        for part, z in st.items():
            new = frozenset(x for x in part if x[0] != d)
            if n.get("k") == "null":
                new |= {(d, False)}
            elif n.get("k") in ("new", "this") or (n.get("k") == "un" and n["op"] == "&"):
                new |= {(d, True)}
            elif n.get("k") == "var":
                new |= {(d, v) for x, v in part if x == n.get("d")}
            out[new] = join(out[new], z) if new in out else z
        return out

    def setbool(self, st, d, i):
        out = {}
        for part, z in st.items():
            rest = frozenset(x for x in part if x[0] != d)
            for v in (True, False):
                w = self.assume(part, z.copy(), i, v)
                if w is not None:
                    key = rest | {(d, v)}
                    out[key] = join(out.get(key), w)
        return out

    def assignment(self, st, i, n):
        x = self.nodes[n["x"]]
        if x["k"] == "var" and x.get("d") in self.bools and n["op"] == "=" and \
                not x.get("ptr"):
            return self.setbool(st, x["d"], n["y"])
        s = self.scalar(n["x"])
        p = self.path(n["x"])
        if x["k"] == "var" and x.get("d") in self.bools and n["op"] == "=":
            st = self.setptr(st, x["d"], n["y"])
        for z in st.values():
            if s is not None:
                if n["op"] == "=":
                    v = self.lin(z, n["y"])
                elif n["op"] in ("+=", "-="):
                    v = self.lin(z, n["y"])
                    if v is not None and v[0] == ZERO:
                        c = v[1] if n["op"] == "+=" else -v[1]
                        v = (s, c)
                        if c < 0 and x.get("ki") == "uint":
                            lo = z.ub(ZERO, s)
                            if lo is None or -lo + c < 0:
                                v = None
                    elif v is not None and n["op"] == "+=" and z.ub(ZERO, v[0]) is not None and \
                            -z.ub(ZERO, v[0]) + v[1] >= 0 and self.want(s):
                        # grows by something that is not negative
                        lo = -z.ub(ZERO, v[0]) + v[1]
                        t = ("t", i)
                        z.forget(t)
                        z.add(t, s, 0)
                        z.add(s, t, 0)
                        self.assign(z, s, None, x.get("ki") == "uint")
                        z.add(t, s, -lo)
                        continue
                    else:
                        v = None
                else:
                    v = None
                self.assign(z, s, v, x.get("ki") == "uint")
            elif p is not None:
                q = self.path(n["y"]) if n["op"] == "=" and x.get("ptr") else None
                q = None if q is None or q == p else q[1] if q[0] == "a" else ("d", q)
                if q is not None and any(y == p for y in comps(q)):
                    q = None
                self.drop(z, p)
                if q is not None:
                    self.copied(z, q, ("d", p))
                if p[0] == "f":
                    for o in list(z.keys()):
                        if o[0] in ("i", "s") and any(y[0] == "f" and self.kin(y, p)
                                                      for y in comps(o[1])):
                            self.forget(z, o)
        return st

    def copied(self, z, q, p):
        """p is now another name of the storage q."""
        for k in list(z.keys()):
            if k[0] not in ("i", "s") or not any(y == q for y in comps(k[1])):
                continue
            o = (k[0], swapped(k[1], q, p))
            if self.want(o):
                z.forget(o)
                z.add(o, k, 0)
                z.add(k, o, 0)

    def call(self, st, i, n):
        b = query.base(n)
        own = n.get("u") in self.prog.functions
        args = n.get("a", [])
        op = n.get("op")
        if op in ("++", "--") and not own:
            al = ([n["o"]] if n.get("o") is not None else []) + args
            s = self.scalar(al[0])
            for z in st.values():
                self.step(z, i, s, 1 if op == "++" else -1, {"t": "iterator"}, len(al) == 2)
            return st
        if op in ("+=", "-=") and not own:
            al = ([n["o"]] if n.get("o") is not None else []) + args
            s = self.scalar(al[0])
            if s is not None:
                for z in st.values():
                    v = self.lin(z, al[1])
                    c = v[1] if v is not None and v[0] == ZERO else None
                    self.assign(z, s, (s, c if op == "+=" else -c) if c is not None else None, False)
                return st
        if op == "=" and not own and n["k"] == "call":
            al = ([n["o"]] if n.get("o") is not None else []) + args
            s = self.scalar(al[0])
            p = self.path(al[0])
            for z in st.values():
                if s is not None:
                    self.assign(z, s, self.lin(z, al[1]), False)
                elif p is not None:
                    k = ("s", p)
                    v = self.sizeof(z, al[1])
                    if v is not None and v[0] == k:
                        continue
                    moved = None
                    self.drop(z, p)
                    if self.want(k):
                        for o in list(self.aliases(z, p)):
                            self.forget(z, o)
                        self.touch(k)
                        if v is not None:
                            z.add(k, v[0], v[1])
                            z.add(v[0], k, -v[1])
                        z.add(ZERO, k, 0)
                    y = self.nodes.get(al[1], {})
                    if y.get("k") == "call" and query.base(y) == "move" and y.get("a"):
                        moved = self.path(y["a"][0])
                        if moved is not None:
                            self.forget(z, ("s", moved))
            return st
        for z in st.values():
            if n["k"] == "call" and not own and n.get("o") is not None:
                self.method(z, i, n, b)
            elif own:
                m = self.mods.get(n["u"])
                if m is not None and (m[0] or m[1]):
                    self.dropfields(z, m[0], m[1])
                if n.get("o") is not None and selfmod(self.prog, n["u"]):
                    k = self.contkey(n)
                    if k is not None and self.want(k):
                        self.forget(z, k)
                        if filled(self.prog, n["u"]):
                            z.add(ZERO, k, -1)
            self.arguments(z, n, b, own)
            self.value(z, i, n, b)
        return st

    def arguments(self, z, n, b, own):
        pms = n.get("pm", "")
        for j, a in enumerate(n.get("a", [])):
            pm = pms[j] if j < len(pms) else "v"
            x = self.nodes.get(a, {})
            if x.get("k") == "lambda" and x.get("u") in self.mods:
                m = self.mods[x["u"]]
                self.dropfields(z, m[0], m[1])
            if pm not in ("m", "p"):
                continue
            if n["k"] == "call" and not own and b in READERS | GROW:
                continue
            if own and j not in self.mods[n["u"]][2]:
                continue
            p = self.path(a)
            if p is None:
                continue
            if pm == "p":
                p = p[1] if p[0] == "a" else ("d", p)
            d = growth(self.prog, n["u"], j) if own else None
            if d is not None and self.want(("s", p)):
                k, t = ("s", p), ("t", ("old", a))
                self.assign(z, t, (k, 0), False)
                self.drop(z, p)
                self.assign(z, k, (t, d), False)
                z.add(ZERO, k, 0)
                z.forget(t)
                continue
            self.drop(z, p)
            if not own and b == "move":
                pass

    def method(self, z, i, n, b):
        if n.get("const") or b in KEEP and not adds(n) or self.getter(n) is not None:
            return
        k = self.contkey(n)
        if k is None:
            return
        if not self.want(k):
            self.drop(z, k[1])
            return
        for o in list(self.aliases(z, k[1])):
            self.forget(z, o)
        cls = n.get("cls", "")
        assoc = cls.startswith(ASSOC)
        args = n.get("a", [])
        if assoc and b in ("operator[]", "insert", "emplace", "try_emplace", "insert_or_assign"):
            self.forgetup(z, i, k, 0, 1)
        elif b in GROW:
            self.assign(z, k, (k, 1), False)
        elif b in SHRINK:
            lo = z.ub(ZERO, k)
            if lo is not None and lo <= -1:
                self.assign(z, k, (k, -1), False)
            else:                   # popping an empty container is not defined: it has an element
                z.add(ZERO, k, -1)
                self.assign(z, k, (k, -1), False)
        elif b == "clear":
            self.assign(z, k, (ZERO, 0), False)
        elif b == "resize" and args:
            self.assign(z, k, self.lin(z, args[0]), False)
            z.add(ZERO, k, 0)
        elif b == "erase" and len(args) == 1 and iterator(self.nodes.get(args[0], {}).get("t")):
            v = self.lin(z, args[0])
            self.assign(z, k, (k, -1), False)
            t = ("t", i)
            z.forget(t)
            if v is not None:
                z.add(t, v[0], v[1])
                z.add(v[0], t, -v[1])
        elif b == "insert" and args and not cls.startswith("std::basic_string"):
            if len(args) == 2:
                self.assign(z, k, (k, 1), False)
            else:
                self.forgetup(z, i, k, 0, None)
        elif b in ("append", "operator+=", "insert"):
            self.forgetup(z, i, k, 0, None)
        else:
            self.forget(z, k)

    def forgetup(self, z, i, k, lo, hi):
        """k grows by at least lo, at most hi."""
        t = ("t", i)
        z.forget(t)
        z.add(t, k, 0)
        z.add(k, t, 0)
        self.touch(k)
        z.forget(k)
        z.add(t, k, -lo)
        if hi is not None:
            z.add(k, t, hi)
        z.add(ZERO, k, 0)
        z.forget(t)

    def value(self, z, i, n, b):
        """What is known of the value of a call."""
        t = ("t", i)
        uns = n.get("ki") == "uint"
        if n["k"] == "call" and b == "erase":
            return
        z.forget(t)
        if uns:
            z.add(ZERO, t, 0)
        args = n.get("a", [])
        if b == "mapUnicode" and len(args) == 3 and not n.get("own"):
            v = self.lin(z, args[2])     # writes at most that many bytes
            if v is not None:
                z.add(t, v[0], v[1])
        if not n.get("own") and n.get("o") is not None:
            if b in SEARCH and uns and self.keys is None and args and \
                    n.get("cls", "").startswith("std::basic_string"):
                k = self.contkey(n)
                if k is not None:
                    x = self.nodes.get(args[0], {})
                    w = 0 if b in ("find", "rfind") else -1
                    if w == 0 and x.get("k") == "str" and x.get("len", len(x.get("v", ""))):
                        w = -x.get("len", 1)
                    elif w == 0 and x.get("ki") in ("int", "uint"):
                        w = -1
                    z.add(("m", t), k, w)
                    z.add(ZERO, ("m", t), 0)
                    if b != "rfind" and not b.startswith("find_last") and len(args) >= 2:
                        v = self.lin(z, args[1])
                        if v is not None:
                            z.add(v[0], ("m", t), -v[1])
            if b in ("find_first_of", "find_first_not_of", "find") and len(args) == 2 and uns:
                v = self.lin(z, args[1])
                if v is not None:
                    z.add(v[0], t, -v[1])
            if iterator(n.get("t")) and b in ("find", "lower_bound", "upper_bound"):
                k = self.contkey(n)
                z.add(ZERO, t, 0)
                if k is not None and self.want(k):
                    z.add(t, k, 0)
            return
        if n.get("own"):
            if n.get("fn", "").startswith("ppp::utils::math::"):
                if b in ("minimum", "maximum") and len(args) >= 2:
                    self.extremum(z, t, b[:3], args)
            else:
                self.result(z, n, t)
            return
        if n.get("fn", "").startswith("std::"):
            if b in ("min", "max") and len(args) == 1:
                x = self.nodes.get(args[0], {})
                while x.get("k") in ("cast", "construct") and (x.get("e") or x.get("a")):
                    x = self.nodes.get(x["e"] if "e" in x else x["a"][0], {})
                if x.get("k") == "initlist" and x.get("a"):
                    self.extremum(z, t, b, x["a"])
            if b in ("min", "max") and len(args) >= 2:
                self.extremum(z, t, b, args[:2])
            if iterator(n.get("t")) and len(args) >= 2 and b in (
                    "find", "find_if", "find_if_not", "find_first_of", "lower_bound", "upper_bound",
                    "remove", "remove_if", "unique", "min_element", "max_element", "partition",
                    "stable_partition", "adjacent_find", "search", "rotate"):
                v, w = self.lin(z, args[0]), self.lin(z, args[1])
                if v is not None:
                    z.add(v[0], t, -v[1])
                if w is not None:
                    z.add(t, w[0], w[1])

    def extremum(self, z, t, b, args):
        vs = [self.lin(z, a) for a in args]
        near = []
        for v in vs:
            if v is not None:
                m = (z.dn if b == "min" else z.up).get(v[0], {})
                near.append({k: c - v[1] if b == "min" else c + v[1]
                             for k, c in [(v[0], 0)] + list(m.items())})
        if near and len(near) == len(vs):
            # what is below (above) each of them is below (above) the least (largest)
            for k in set.intersection(*[set(x) for x in near]):
                c = max(x[k] for x in near)
                if k != t and k[0] not in GHOSTS:
                    z.add(*((k, t, c) if b == "min" else (t, k, c)))
        for v in vs:
            if v is not None:
                if b == "min":
                    z.add(t, v[0], v[1])
                else:
                    z.add(v[0], t, -v[1])

    def result(self, z, n, t):
        """What a function of the program guarantees: see `ensures`."""

    # -------------------------------------------------------------- conditions
    def assume(self, part, z, i, truth):
        """z with the condition i being `truth`, or None."""
        n = self.nodes.get(i)
        if n is None or z is None:
            return z
        k = n["k"]
        if k == "cast":
            return self.assume(part, z, n["e"], truth)
        if k == "bool":
            return z if (n["v"] == "1") == truth else None
        if k == "un" and n["op"] == "!":
            return self.assume(part, z, n["e"], not truth)
        if k == "bin" and n["op"] in ("&&", "||"):
            if (n["op"] == "&&") == truth:
                z = self.assume(part, z, n["x"], truth)
                return self.assume(part, z, n["y"], truth)
            a = self.assume(part, z.copy(), n["x"], truth)
            b = self.assume(part, z.copy(), n["x"], not truth)
            b = self.assume(part, b, n["y"], truth)
            return join(a, b)
        t = self.tested(i, truth)
        if t is not None:
            for d, v in part:
                if d == t[0] and v != t[1]:
                    return None
            return z
        op = n.get("op")
        x = y = None
        if k == "bin" and op in ("<", "<=", ">", ">=", "==", "!="):
            x, y = n["x"], n["y"]
        elif k == "call" and op in ("<", "<=", ">", ">=", "==", "!=") and not n.get("own"):
            al = ([n["o"]] if n.get("o") is not None else []) + n.get("a", [])
            if len(al) == 2:
                x, y = al
        elif k == "call" and query.base(n) == "empty" and n.get("o") is not None and \
                not n.get("own"):
            ck = self.contkey(n)
            if ck is not None and self.want(ck):
                if truth:
                    ok = z.add(ck, ZERO, 0)
                else:
                    ok = z.add(ZERO, ck, -1)
                return z if ok else None
            return z
        elif n.get("ki") in ("int", "uint") or (k == "un" and op in ("++", "--")):
            v = self.lin(z, i)
            if v is None:
                return z
            return self.compare(z, "!=" if truth else "==", v, (ZERO, 0))
        if x is None:
            return z
        a, b = self.lin(z, x), self.lin(z, y)
        if a is None and b is not None and b[0] == ZERO:
            a, b = self.apart(z, x, b)
        elif b is None and a is not None and a[0] == ZERO:
            b, a = self.apart(z, y, a)
        if a is None or b is None:
            return z
        neg = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
        return self.compare(z, op if truth else neg[op], a, b)

    def apart(self, z, i, c):
        """i op c, for a difference i = x - y: x op y + c."""
        n = self.nodes.get(i, {})
        while n.get("k") == "cast":
            n = self.nodes.get(n["e"], {})
        if n.get("k") != "bin" or n["op"] != "-":
            return None, c
        a, b = self.lin(z, n["x"]), self.lin(z, n["y"])
        if a is None or b is None:
            return None, c
        if n.get("ki") == "uint":        # no wrapping below zero
            u = z.ub(b[0], a[0])
            if u is None or u + b[1] - a[1] > 0:
                return None, c
        return a, (b[0], b[1] + c[1])

    def tested(self, i, truth):
        """(variable, truth) of a condition that only tests a followed boolean or pointer."""
        n = self.nodes.get(i, {})
        while n.get("k") == "cast" or (n.get("k") == "un" and n["op"] == "!"):
            if n["k"] == "un":
                truth = not truth
            i = n["e"]
            n = self.nodes.get(i, {})
        if n.get("k") == "bin" and n["op"] in ("==", "!="):
            x, y = n["x"], n["y"]
            for a, b in ((x, y), (y, x)):
                if self.isnull(b):
                    n = self.nodes.get(a, {})
                    truth = truth == (n is not None and self.nodes[i]["op"] == "!=")
                    break
            else:
                return None
        if n.get("k") == "var" and n.get("d") in self.bools:
            return n["d"], truth
        return None

    def isnull(self, i):
        n = self.nodes.get(i, {})
        while n.get("k") == "cast":
            n = self.nodes.get(n["e"], {})
        return n.get("k") == "null"

    def refine(self, part, i, truth):
        t = self.tested(i, truth)
        if t is None or any(d == t[0] for d, _ in part):
            return part
        return part | {t}

    def compare(self, z, op, a, b):
        (k, c), (l, d) = a, b
        e = d - c           # k - l  op  e
        if op == "<":
            ok = z.add(k, l, e - 1)
        elif op == "<=":
            ok = z.add(k, l, e)
        elif op == ">":
            ok = z.add(l, k, -e - 1)
        elif op == ">=":
            ok = z.add(l, k, -e)
        elif op == "==":
            ok = z.add(k, l, e) and z.add(l, k, -e)
        else:
            ok = True
            if k == l:
                ok = e != 0
            else:
                u, w = z.ub(k, l), z.ub(l, k)
                if u is not None and u == e:
                    ok = z.add(k, l, e - 1)
                if ok and w is not None and w == -e:
                    ok = z.add(l, k, -e - 1)
                if self.keys is None and ZERO in (k, l):
                    x, v = (k, e) if l == ZERO else (l, -e)
                    if v == 0:
                        z.add(ZERO, ("z", x), -1)
                    elif v in NPOS:
                        ok = ok and self.found(z, x)
        if ok and self.keys is None:
            for x in (k, l):
                if ("m", x) in z.up and any(
                        y[0] == "s" or y == ZERO and c < 2 ** 31 for y, c in z.up.get(x, {}).items()):
                    ok = ok and self.found(z, x)
        if ok:
            for x in (k, l):
                m = self.steps().get(x)
                if m:
                    u = z.ub(x, ZERO)
                    if u is not None and (u - m[1]) % m[0]:
                        ok = ok and z.add(x, ZERO, u - (u - m[1]) % m[0])
        return z if ok else None

    def marks(self):
        """The numbers up to which counters of the function run that end when they are equal to it."""
        f = self.f
        if "_marks" not in f:
            out = set()
            for n in f["nodes"].values():
                if n["k"] == "bin" and n["op"] in ("!=", "=="):
                    for x in (n["x"], n["y"]):
                        c = self.const(x)
                        if c is not None and 0 < c <= 4096:
                            out.add(c)
            f["_marks"] = tuple(sorted(out)[:4])
        return f["_marks"]

    def found(self, z, x):
        if ("m", x) in z.up:
            return z.add(x, ("m", x), 0) and z.add(("m", x), x, 0)
        return True

    def steps(self):
        """key -> (m, r) of local counters that are always r modulo m."""
        f = self.f
        if "_steps" not in f:
            f["_steps"] = out = {}
            at, by, bad = {}, {}, set()
            for b in f["B"].values():
                for e in b["e"]:
                    if e.get("decl") and e.get("ki") in ("int", "uint") and "d" in e and \
                            not e.get("ref"):
                        c = self.const(e.get("i"))
                        if c is None:
                            bad.add(e["d"])
                        else:
                            at.setdefault(e["d"], set()).add(c)
            for n in f["nodes"].values():
                k, d = n["k"], None
                if k == "assign" or k == "un" and n["op"] in ("++", "--", "&"):
                    x = f["nodes"].get(n["x"] if k == "assign" else n["e"], {})
                    d = x.get("d") if x.get("k") == "var" else None
                    c = self.const(n["y"]) if k == "assign" else 1
                    if d is None:
                        continue
                    if c is None or n["op"] == "&" or k == "assign" and \
                            n["op"] not in ("=", "+=", "-="):
                        bad.add(d)
                    elif n["op"] == "=":
                        at.setdefault(d, set()).add(c)
                    else:
                        by.setdefault(d, set()).add(c)
                elif k == "call":
                    for j, a in enumerate(n.get("a", [])):
                        if n.get("pm", "")[j:j + 1] in ("m", "p"):
                            x = f["nodes"].get(a, {})
                            if x.get("k") == "var":
                                bad.add(x.get("d"))
                elif k == "lambda":
                    bad |= set(at)
            import math
            for d in by:
                if d in at and d not in bad:
                    r = min(at[d])
                    m = math.gcd(*by[d], *[c - r for c in at[d]])
                    if m > 1:
                        out[("i", ("v", d))] = (m, r % m)
        return f["_steps"]

    def const(self, i):
        n = self.nodes.get(i, {})
        while n.get("k") == "cast":
            n = self.nodes.get(n["e"], {})
        try:
            return int(n["cv"]) if "cv" in n else int(n["v"]) if n.get("k") == "int" else None
        except ValueError:
            return None

    # -------------------------------------------------------------- running
    def block(self, st, b):
        B = self.f["B"][b]
        later = {}
        for e in B["e"]:
            st = self.element(st, e)
            later.update(self.later)
            if not st:
                return st, later
        return st, later

    def edges(self, st, b, later):
        """(successor, state) after block b."""
        B = self.f["B"][b]
        succ = B["s"]
        c = B.get("c")
        out = []
        if c is not None and len(succ) == 2 and B.get("tk") not in ("SwitchStmt",):
            for s, truth in zip(succ, (True, False)):
                if s is None or s < 0:
                    continue
                ns = {}
                for part, z in st.items():
                    p2 = part
                    w = self.assume(part, z.copy(), c, truth)
                    if w is None:
                        continue
                    p2 = self.refine(part, c, truth)
                    for s_, t in later.items():
                        lo = w.ub(ZERO, t)
                        if lo is not None and lo <= -1:
                            w.add(s_, t, -1)
                            w.add(t, s_, 1)
                    ns[p2] = join(ns.get(p2), w)
                if ns:
                    out.append((s, ns))
            return out
        for s in succ:
            if s is not None and s >= 0:
                out.append((s, {p: z.copy() for p, z in st.items()}))
        return out

    def init(self):
        z = Z()
        if self.keys is None:
            for n in self.nodes.values():
                if n["k"] == "call" and n.get("o") is not None and not n.get("own") and \
                        "std::" in n.get("cls", "") and \
                        query.base(n) in ("size", "length", "empty", "substr"):
                    k = self.contkey(n)
                    if k is not None:
                        z.add(ZERO, k, 0)
        for k in self.keys or ():
            if k[0] == "s":
                z.add(ZERO, k, 0)
        for k, t in getattr(self, "unsigned", {}).items():
            z.add(ZERO, k, 0)
        for k, l, c in self.entry:
            z.add(k, l, c)
        return {frozenset(): z}

    def run(self, mark=None, visit=None, limit=60):
        """Fixpoint from the entry. `mark` (head, measures): at that head ghost keys take the value of
        the measures; visit(head, source, state) is told what arrives over the edges to it at the end."""
        f = self.f
        rpo, heads = order(f)
        entry = f["entry"]
        state = {entry: self.init()}
        banned = {}
        count = {}
        work = {entry}
        self.arrive = {}
        self.at = state
        while work:
            b = min(work, key=lambda x: rpo.get(x, 10 ** 6))
            work.discard(b)
            count[b] = count.get(b, 0) + 1
            if count[b] > limit:
                return False
            st = {p: z.copy() for p, z in state[b].items()}
            if mark and b == mark[0]:
                for z in st.values():
                    for m in mark[1]:
                        g = ("g", m)
                        z.forget(g)
                        z.add(g, m, 0)
                        z.add(m, g, 0)
            st, later = self.block(st, b)
            if not st:
                continue
            for s, ns in self.edges(st, b, later):
                if mark and s == mark[0]:
                    self.arrive[b] = ns
                    if rpo[b] >= rpo[s]:
                        ns = {p: z.copy() for p, z in ns.items()}
                        for z in ns.values():
                            for m in mark[1]:
                                z.forget(("g", m))
                old = state.get(s)
                if old is None:
                    state[s] = {p: z.copy() for p, z in ns.items()}
                    work.add(s)
                    continue
                new = dict(old)
                ch = False
                for p, z in ns.items():
                    j = join(old.get(p), z)
                    if p not in old:
                        new[p] = z.copy()
                        ch = True
                        continue
                    if s in heads and count.get(s, 0) >= 3:
                        j = widen(old[p], j, banned.setdefault((s, p), set()), self.marks())
                    if not same(j, old[p]):
                        new[p] = j
                        ch = True
                if len(new) > 8:
                    z = None
                    for w in new.values():
                        z = join(z, w)
                    new = {frozenset(): z}
                if ch:
                    state[s] = new
                    work.add(s)
        return True

"""C14: the work on a document comes to an end."""
from .. import query
from ..interp import loops_of, order
from ..zone import Zones, ZERO, fieldmods, iterator, integral, comps

STREAM = {"getline", "operator>>", "get", "read", "ignore", "peek", "readsome"}
REWIND = {"seekg", "clear", "str", "open", "unget", "putback", "rdbuf", "swap", "setstate"}


def kids(n):
    for k in ("x", "y", "e", "o", "b", "i", "c"):
        v = n.get(k)
        if isinstance(v, int):
            yield v
    for v in n.get("a", []):
        if isinstance(v, int):
            yield v


def under(f, i):
    seen, st = set(), [i]
    while st:
        j = st.pop()
        if j in seen or j not in f["nodes"]:
            continue
        seen.add(j)
        st += kids(f["nodes"][j])
    return seen


def keysin(z, i):
    """Integer and size keys read in an expression."""
    out = set()
    for j in under(z.f, i):
        n = z.nodes[j]
        s = z.scalar(j)
        if s is not None:
            out.add(s)
        if n["k"] == "call":
            g = z.getter(n)
            if g is not None:
                out.add(g)
        if n["k"] == "call" and n.get("o") is not None and not n.get("own"):
            ck = z.contkey(n)
            b = query.base(n)
            if ck is not None and b in ("size", "length", "empty", "end", "cend", "rend", "crend",
                                        "find_first_of", "find_first_not_of", "find", "ssize"):
                out.add(ck)
        elif n["k"] == "call" and n.get("a") and not n.get("own") and \
                query.base(n) in ("size", "ssize", "end", "empty"):
            p = z.path(n["a"][0])
            if p is not None:
                out.add(("s", p))
    return out


def defs(z):
    """key -> keys its assignments read, over the whole function."""
    out = {}
    f = z.f

    def put(k, i):
        if k is None:
            return
        s = out.setdefault(k, set())
        if i is not None:
            s |= keysin(z, i)
    for b in f["B"].values():
        for e in b["e"]:
            if e.get("decl") and "bindings" not in e and not (e.get("ref") and e["d"] in z.alias):
                p = ("v", e["d"])
                if integral(e) or iterator(e.get("t")):
                    put(("i", p), e.get("i"))
                elif not e.get("ptr"):
                    put(("s", p), e.get("i"))
                    if e.get("i") is not None:
                        q = z.path(e["i"]) or source(z, e["i"])
                        if q is not None:
                            out[("s", p)].add(("s", q))
    for i, n in f["nodes"].items():
        if n["k"] == "assign":
            put(z.scalar(n["x"]), n["y"])
        elif n["k"] == "un" and n["op"] in ("++", "--"):
            put(z.scalar(n["e"]), None)
        elif n["k"] == "call" and not n.get("own"):
            al = ([n["o"]] if n.get("o") is not None else []) + n.get("a", [])
            if n.get("op") in ("=", "+=", "-=", "++", "--"):
                s = z.scalar(al[0])
                if s is not None:
                    put(s, al[1] if len(al) > 1 else None)
                elif n.get("op") == "=":
                    p, q = z.path(al[0]), z.path(al[1]) or source(z, al[1])
                    if p is not None:
                        out.setdefault(("s", p), set())
                        if q is not None:
                            out[("s", p)].add(("s", q))
            elif n.get("o") is not None and not n.get("const"):
                ck = z.contkey(n)
                if ck is not None:
                    out.setdefault(ck, set())
                    if query.base(n) in ("resize", "erase"):
                        put(ck, n["a"][0] if n.get("a") else None)
    return out


def source(z, i):
    n = z.nodes.get(i, {})
    if n.get("k") == "cast":
        return source(z, n["e"])
    if n.get("k") in ("construct", "call") and n.get("a") and \
            (n["k"] == "construct" or query.base(n) in ("move", "forward")):
        return z.path(n["a"][0]) or source(z, n["a"][0])
    return None


def boolsin(f, blocks):
    """Local booleans the conditions of these blocks test."""
    out = set()
    local = {e["d"] for b in f["B"].values() for e in b["e"]
             if e.get("decl") and e.get("ki") == "bool" and not e.get("ref")}
    for b in blocks:
        c = f["B"][b].get("c")
        if c is None:
            continue
        for j in under(f, c):
            n = f["nodes"][j]
            if n["k"] == "var" and n.get("d") in local:
                out.add(n["d"])
    return out


def exits(f, L):
    return [b for b in L if any(s is not None and s not in L for s in f["B"][b]["s"])]


def cyclic(f, h, L, without):
    """Is there a way from h back to h inside L avoiding the blocks `without`?"""
    if h in without:
        return False
    seen, st = set(), [h]
    while st:
        b = st.pop()
        for s in f["B"][b]["s"]:
            if s == h:
                return True
            if s in L and s not in seen and s not in without:
                seen.add(s)
                st.append(s)
    return False


def reads(f, i, depth=0):
    """The stream whose reading the condition i tests, with the polarity of success, or None."""
    n = f["nodes"].get(i, {})
    k = n.get("k")
    if k == "cast":
        return reads(f, n["e"], depth + 1)
    if k == "un" and n["op"] == "!":
        r = reads(f, n["e"], depth + 1)
        return (r[0], not r[1]) if r else None
    if k == "bin" and n["op"] in ("&&", "||"):
        # either operand holding (not holding) is implied
        for x in (n["x"], n["y"]):
            r = reads(f, x, depth + 1)
            if r and r[1] == (n["op"] == "&&"):
                return r
        return None
    if k == "call":
        b = query.base(n)
        if b == "operator bool" and n.get("o") is not None:
            return reads(f, n["o"], depth + 1)
        if b in ("operator!", "fail") and n.get("o") is not None:
            r = reads(f, n["o"], depth + 1)
            return (r[0], not r[1]) if r else None
        if b == "good" and n.get("o") is not None:
            return reads(f, n["o"], depth + 1)
        if b in STREAM and not n.get("own"):
            if n.get("o") is not None and "stream" in n.get("cls", ""):
                return (n["o"], True)
            if n.get("a"):
                x = f["nodes"].get(n["a"][0], {})
                if x.get("k") == "call":        # a >> b >> c
                    r = reads(f, n["a"][0], depth + 1)
                    return r
                return (n["a"][0], True)
    return None


def streams(prog, z, f, h, L):
    """Blocks of L that leave it unless a read of a stream succeeded."""
    out = set()
    declared = {e["d"] for b in L for e in f["B"][b]["e"] if e.get("decl")}
    rewound = set()
    for b in L:
        for e in f["B"][b]["e"]:
            n = f["nodes"].get(e.get("n", -1), {})
            if n.get("k") == "call" and n.get("o") is not None and query.base(n) in REWIND:
                rewound.add(z.path(n["o"]))
            if n.get("k") == "call" and n.get("op") == "=" and n.get("o") is not None:
                rewound.add(z.path(n["o"]))
    for b in L:
        B = f["B"][b]
        if B.get("c") is None or len(B["s"]) != 2:
            continue
        c = B["c"]
        r = reads(f, c)
        if r is None:
            # the state of the stream, tested after it was read
            r = tested(f, z, L, c)
        if r is None:
            continue
        p = z.path(r[0])
        if p is None or p in rewound:
            continue
        if any(x[0] == "v" and x[1] in declared for x in comps(p)):
            continue
        fail = B["s"][1] if r[1] else B["s"][0]
        if fail is None or fail not in L:
            out.add(b)
    return out


def tested(f, z, L, c):
    """A test of the state of a stream (not only of its end) that is read in the loop."""
    n = f["nodes"].get(c, {})
    pol = True
    while n.get("k") in ("cast",) or (n.get("k") == "un" and n["op"] == "!"):
        if n["k"] == "un":
            pol = not pol
        n = f["nodes"].get(n["e"], {})
    if n.get("k") != "call" or n.get("o") is None or "stream" not in n.get("cls", "") and \
            "ios" not in n.get("cls", ""):
        return None
    b = query.base(n)
    if b in ("fail", "operator!"):
        pol = not pol
    elif b not in ("good", "operator bool"):
        return None
    p = z.path(n["o"])
    if p is None:
        return None
    for x in L:
        for e in f["B"][x]["e"]:
            m = f["nodes"].get(e.get("n", -1), {})
            if m.get("k") == "call" and query.base(m) in STREAM and not m.get("own"):
                s = m["o"] if m.get("o") is not None and "stream" in m.get("cls", "") else \
                    (m.get("a") or [-1])[0]
                if z.path(s) == p and not cyclic(f, next(iter(heads_of(f, L))), L, {x}):
                    return (n["o"], pol)
    return None


def heads_of(f, L):
    return [h for h, body in loops_of(f).items() if body == L]


def conjuncts(f, i, truth):
    """(condition, truth) pairs implied by condition i being `truth`."""
    n = f["nodes"].get(i, {})
    if n.get("k") == "cast":
        yield from conjuncts(f, n["e"], truth)
    elif n.get("k") == "un" and n["op"] == "!":
        yield from conjuncts(f, n["e"], not truth)
    elif n.get("k") == "bin" and n["op"] == ("&&" if truth else "||"):
        yield from conjuncts(f, n["x"], truth)
        yield from conjuncts(f, n["y"], truth)
    else:
        yield i, truth


class Loop:
    def __init__(self, prog, f, h):
        self.prog, self.f, self.h = prog, f, h
        self.L = loops_of(f)[h]

    def where(self):
        f = self.f
        ls = [f["B"][b].get("tl") for b in self.L if f["B"][b].get("tk", "").endswith("Stmt") and
              f["B"][b].get("tl")]
        B = f["B"][self.h]
        l = B.get("tl") or (min(ls) if ls else f["line"])
        return "%s:%s" % (f["file"], l)

    def decide(self):
        f, L, h = self.f, self.L, self.h
        z = Zones(self.prog, f)
        ex = exits(f, L)
        if not ex:
            return None, "nothing leaves it"
        st = streams(self.prog, z, f, h, L)
        if st and not cyclic(f, h, L, st):
            return "it goes on only while reading a stream succeeds", None
        D = defs(z)
        inner = set()
        for b in L:
            for e in f["B"][b]["e"]:
                n = f["nodes"].get(e.get("n", -1))
                if n is not None and e.get("decl") is None:
                    inner.add(e["n"])
        first = set()
        for b in ex:
            c = f["B"][b].get("c")
            if c is not None:
                first |= keysin(z, c)
        bl = boolsin(f, ex)
        for attempt in (0, 1):
            R = set(first)
            if attempt == 1:
                # everything the loop changes
                for i in inner:
                    n = f["nodes"][i]
                    if n["k"] in ("assign",) or (n["k"] == "un" and n["op"] in ("++", "--")):
                        s = z.scalar(n.get("x", n.get("e")))
                        if s:
                            R.add(s)
                    elif n["k"] == "call" and n.get("o") is not None and not n.get("own") and \
                            not n.get("const"):
                        ck = z.contkey(n)
                        if ck is not None and ck in D:
                            R.add(ck)
                for b in L:
                    c = f["B"][b].get("c")
                    if c is not None:
                        R |= keysin(z, c)
                bl = boolsin(f, L)
            for _ in range(3):
                more = set()
                for k in R:
                    more |= D.get(k, set())
                if more <= R:
                    break
                R |= more
            R = set(k for k in R if k[0] in ("i", "s"))
            if not R:
                continue
            if len(R) > 45:
                R = set(sorted(R, key=str)[:45])
            w = self.rank(R, bl)
            if w:
                return w, None
        w = self.chase(z)
        if w:
            return w, None
        return None, "no counter, container or stream is shown to run out"

    def chase(self, z):
        """A pointer that goes from element to element along one link."""
        f, L, h = self.f, self.L, self.h
        at = {}
        for b in L:
            for e in f["B"][b]["e"]:
                n = f["nodes"].get(e.get("n", -1), {})
                if n.get("k") == "assign":
                    x = f["nodes"].get(n["x"], {})
                    if x.get("k") == "var" and x.get("ptr") and not e.get("decl"):
                        at.setdefault(x["d"], []).append((b, n))
                elif n.get("k") == "un" and n["op"] == "&":
                    x = f["nodes"].get(n["e"], {})
                    if x.get("k") == "var":
                        at.setdefault(x.get("d"), []).append((b, None))
        for d, ns in sorted(at.items()):
            names = set()
            for b, n in ns:
                m = stripped(f, n["y"])[1] if n is not None else {}
                x = stripped(f, m["b"])[1] if m.get("k") == "member" and m.get("arrow") and \
                    m.get("ptr") else {}
                names.add(m["name"] if x.get("k") == "var" and x.get("d") == d else None)
            if len(names) == 1 and None not in names and \
                    not cyclic(f, h, L, set(b for b, _ in ns)):
                self.followed = names.pop()
                return "it follows %s" % self.followed
        return None

    followed = None

    def rank(self, R, bl):
        f, L, h = self.f, self.L, self.h
        self.R = R
        z = Zones(self.prog, f, R, bl)
        z.unsigned = {("i", ("v", n["d"])): 1 for n in f["nodes"].values()
                      if n["k"] == "var" and n.get("ki") == "uint" and n.get("d") and
                      ("i", ("v", n["d"])) in R}
        changed = set()
        z.touched = set()
        ms = list(R)
        if not z.run((h, ms)):
            return None
        for b in L:
            if b in z.at:
                z.touched = changed
                z.block({p: s.copy() for p, s in z.at[b].items()}, b)
        z.touched = None
        rpo, _ = order(f)
        back = [s for b, st in z.arrive.items() if b in L for s in st.values()]
        if not back:
            return "it is never repeated"
        inv = [k for k in R if k not in changed] + [ZERO]
        for m in ms:
            if m not in changed:
                continue
            g = ("g", m)
            if all((s.ub(g, m) or 0) <= -1 for s in back):
                for B in inv:
                    if all(s.ub(g, B) is not None or s.ub(m, B) is not None for s in back):
                        return "%s grows towards %s" % (self.show(m), self.show(B))
                if all(s.ub(g, m) == -1 and s.ub(m, g) == 1 for s in back):
                    t = self.until(z, m, inv, changed)
                    if t:
                        return t
                if self.within(z, m, changed, "<"):
                    return "%s grows towards what stays" % self.show(m)
            if all((s.ub(m, g) or 0) <= -1 for s in back):
                for B in inv:
                    if all(s.ub(B, g) is not None or s.ub(B, m) is not None for s in back):
                        return "%s shrinks towards %s" % (self.show(m), self.show(B))
                if self.within(z, m, changed, ">"):
                    return "%s shrinks towards what stays" % self.show(m)
        for a in ms:
            for b in ms:
                if a == b or not (a in changed and b in changed):
                    continue
                # b - a shrinks
                tot = True
                for s in back:
                    x = s.ub(("g", a), a)      # g - a <= x: a grows by at least -x
                    y = s.ub(b, ("g", b))      # b - g <= y
                    if x is None or y is None or x + y > -1 or (
                            s.ub(a, b) is None and s.ub(("g", a), ("g", b)) is None):
                        tot = False
                        break
                if tot:
                    return "the distance from %s to %s shrinks" % (self.show(a), self.show(b))
        return None

    def until(self, z, m, inv, changed):
        """An iterator that steps by one and is compared with an end that stays."""
        f, L, h = self.f, self.L, self.h
        ends = set()
        for b in L:
            B = f["B"][b]
            if B.get("c") is None or len(B["s"]) != 2:
                continue
            for truth, s in ((True, B["s"][0]), (False, B["s"][1])):
                other = B["s"][1] if truth else B["s"][0]
                if other in L:
                    continue
                # staying means the condition is `truth`
                if any(self.differs(z, m, changed, x, t) for x, t in conjuncts(f, B["c"], truth)):
                    ends.add(b)
        if ends and not cyclic(f, h, L, ends):
            return "%s steps to the end of its range" % self.show(m)
        return None

    def within(self, z, m, changed, op):
        """Every way round passes a condition that m is below (above) a value that stays."""
        f, L, h = self.f, self.L, self.h
        ends = set()
        for b in L:
            B = f["B"][b]
            if B.get("c") is None or len(B["s"]) != 2:
                continue
            for truth, other in ((True, B["s"][1]), (False, B["s"][0])):
                if other not in L and any(self.below(z, m, changed, op, x, t)
                                          for x, t in conjuncts(f, B["c"], truth)):
                    ends.add(b)
        return bool(ends) and not cyclic(f, h, L, ends)

    def below(self, z, m, changed, op, i, truth):
        f = self.f
        i, n = stripped(f, i)
        if n.get("k") != "bin" or n.get("op") not in ("<", "<=", ">", ">="):
            return False
        o = n["op"][0] if truth else {"<": ">", ">": "<"}[n["op"][0]]
        for x, y, w in ((n["x"], n["y"], o), (n["y"], n["x"], {"<": ">", ">": "<"}[o])):
            if w == op and self.is_(z, x, m) and self.stays(z, y, changed):
                return True
        return False

    def is_(self, z, i, m):
        i, n = stripped(self.f, i)
        if z.scalar(i) == m:
            return True
        return n.get("k") == "call" and n.get("o") is not None and not n.get("own") and \
            query.base(n) in ("size", "length") and z.contkey(n) == m

    def stays(self, z, i, changed):
        """Nothing the value consists of is changed in the loop."""
        i, n = stripped(self.f, i)
        k = n.get("k")
        if k in ("int", "sizeof"):
            return True
        if k == "bin" and n["op"] in ("+", "-", "*"):
            return self.stays(z, n["x"], changed) and self.stays(z, n["y"], changed)
        s = z.scalar(i)
        if s is None and k == "call" and n.get("o") is not None and not n.get("own") and \
                query.base(n) in ("size", "length"):
            s = z.contkey(n)
        return s is not None and s in self.R and s not in changed

    def differs(self, z, m, changed, i, truth):
        """Does the condition i being `truth` say that the iterator m is not at a fixed end?"""
        f = self.f
        n = f["nodes"].get(i, {})
        if n.get("k") not in ("call", "bin") or n.get("op") not in ("==", "!="):
            return False
        if (n["op"] == "!=") != truth:
            return False
        al = [n["x"], n["y"]] if n["k"] == "bin" else \
            ([n["o"]] if n.get("o") is not None else []) + n.get("a", [])
        if len(al) != 2 or not all(iterator(f["nodes"][x].get("t")) for x in al):
            return False
        ks = [z.scalar(x) for x in al]
        if m not in ks:
            return False
        other = al[1 - ks.index(m)]
        ko = ks[1 - ks.index(m)]
        if ko is not None:
            return ko not in changed
        x = f["nodes"][other]
        return x["k"] == "construct" and not x.get("a")

    def show(self, k):
        if k == ZERO:
            return "a constant"
        p = k[1]
        names = {e["d"]: e["name"] for b in self.f["B"].values() for e in b["e"]
                 if e.get("decl") and "d" in e}
        names.update({x["d"]: x["name"] for x in self.f["params"]})

        def s(p):
            if p[0] == "v":
                return names.get(p[1], "?")
            if p[0] == "f":
                return s(p[1]) + "." + p[2]
            if p[0] == "d":
                return s(p[1])
            return p[0]
        return ("size of " if k[0] == "s" else "") + s(p)


# ------------------------------------------------------------------ recursion

def recursive(prog):
    """(caller, call node id, callee) of the calls that may lead back to their caller."""
    cg = query.callgraph(prog)
    reach = {}

    def to(u):
        if u not in reach:
            seen, st = set(), list(cg.get(u, ()))
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    st += cg.get(x, ())
            reach[u] = seen
        return reach[u]
    for u, f in sorted(prog.functions.items()):
        for i, n in sorted(f["nodes"].items()):
            if n["k"] == "call" and n.get("u") in prog.functions and u in to(n["u"]) | {n["u"]} and \
                    (n["u"] == u or u in to(n["u"])):
                yield u, i, n["u"]


def stripped(f, i):
    n = f["nodes"].get(i, {})
    while n.get("k") == "cast" or (n.get("k") == "construct" and len(n.get("a", [])) == 1):
        i = n["e"] if n["k"] == "cast" else n["a"][0]
        n = f["nodes"].get(i, {})
    return i, n


def once(f, d):
    """Initializer of a local variable that is never assigned again, or None."""
    init = None
    for b in f["B"].values():
        for e in b["e"]:
            if e.get("decl") and e.get("d") == d:
                init = e.get("i")
    for n in f["nodes"].values():
        if n["k"] == "assign" or (n["k"] == "un" and n["op"] in ("++", "--")) or \
                (n["k"] == "call" and n.get("op") == "="):
            t = n.get("x", n.get("e", n.get("o")))
            x = f["nodes"].get(t, {})
            if x.get("k") == "var" and x.get("d") == d:
                return None
    return init


def depth(prog, f, i, n):
    """The call passes an integer parameter changed by a constant, towards a bound it is tested
    against."""
    g = prog.functions[n["u"]]
    if g is not f:
        return None
    for j, a in enumerate(n.get("a", [])):
        if j >= len(f["params"]) or not integral(f["params"][j]) or f["params"][j].get("ref"):
            continue
        k = ("i", ("v", f["params"][j]["d"]))
        keys = keysin(Zones(prog, f), a) | {k}
        for b in f["B"].values():
            if b.get("c") is not None:
                ks = keysin(Zones(prog, f), b["c"])
                if k in ks:
                    keys |= ks
        z = Zones(prog, f, keys)
        z.watch = True
        if f["params"][j].get("ki") == "uint":
            z.unsigned = {k: 1}
        gk = ("g", k)
        # the parameter's value on entry
        init = z.init()
        for s in init.values():
            s.add(gk, k, 0)
            s.add(k, gk, 0)
        z.init = lambda: {p: s.copy() for p, s in init.items()}
        if not z.run():
            continue
        got = []
        for b, st in z.at.items():
            st = {p: s.copy() for p, s in st.items()}
            for e in f["B"][b]["e"]:
                if e.get("n") == i and not e.get("decl"):
                    for s in st.values():
                        v = z.lin(s, a)
                        if v is None:
                            got.append(None)
                            continue
                        up = s.ub(gk, v[0])        # entry - key <= up
                        dn = s.ub(v[0], gk)
                        up = up - v[1] if up is not None else None     # entry - value <= up
                        dn = dn + v[1] if dn is not None else None     # value - entry <= dn
                        hi, lo = s.ub(gk, ZERO), s.ub(ZERO, gk)
                        if up is not None and up <= -1 and hi is not None:
                            got.append("up")
                        elif dn is not None and dn <= -1 and lo is not None:
                            got.append("down")
                        else:
                            got.append(None)
                st = z.element(st, e)
                if not st:
                    break
        if got and None not in got and len(set(got)) == 1:
            return "parameter %s goes %s to a bound" % (f["params"][j]["name"], got[0])
    return None


def link(f, i):
    """(parameter index, field) when the expression is a field of a parameter."""
    for _ in range(6):
        i, n = stripped(f, i)
        if n.get("k") == "var" and n.get("vk") == "local":
            i = once(f, n["d"])
            if i is None:
                return None
            continue
        if n.get("k") == "member" and n.get("arrow") and n.get("ptr"):
            b, m = stripped(f, n["b"])
            if m.get("k") == "var" and m.get("vk") == "local" and once(f, m["d"]) is not None:
                b, m = stripped(f, once(f, m["d"]))
            if m.get("k") == "var" and m.get("vk") == "param":
                for k, p in enumerate(f["params"]):
                    if p["d"] == m["d"]:
                        return k, n["name"]
        return None
    return None


def part(f, i):
    """Declaration of the local container the argument is an element of."""
    for _ in range(6):
        i, n = stripped(f, i)
        if n.get("k") == "var" and n.get("vk") == "local":
            i = None
            for b in f["B"].values():
                for e in b["e"]:
                    if e.get("decl") and e.get("d") == n["d"]:
                        i = e.get("i")
            if i is None:
                return None
            continue
        if n.get("k") == "un" and n["op"] in ("*", "&"):
            i = n["e"]
            continue
        if n.get("k") == "call" and (n.get("op") in ("*", "[]") or
                                     query.base(n) in ("at", "front", "back")) and not n.get("own"):
            o = n.get("o") if n.get("o") is not None else (n.get("a") or [None])[0]
            i, m = stripped(f, o)
            if m.get("k") == "var" and iterator(m.get("t")):
                j = None
                for b in f["B"].values():
                    for e in b["e"]:
                        if e.get("decl") and e.get("d") == m["d"]:
                            j = e.get("i")
                if j is None:
                    return None
                j, m = stripped(f, j)
                if m.get("k") == "call" and m.get("o") is not None:
                    i, m = stripped(f, m["o"])
            if m.get("k") == "var" and m.get("vk") == "local":
                init = [e.get("i") for b in f["B"].values() for e in b["e"]
                        if e.get("decl") and e.get("d") == m["d"] and e.get("ref")]
                if init and init[0] is not None:
                    i, m = stripped(f, init[0])
            return m.get("d") if m.get("k") == "var" and m.get("vk") == "local" else None
        return None
    return None


def fillers(prog, f, d):
    """Calls of functions of the program that are given the address of the local container d."""
    out = []
    for i, n in f["nodes"].items():
        if n["k"] != "call" or n.get("u") not in prog.functions:
            continue
        for j, a in enumerate(n.get("a", [])):
            x = f["nodes"].get(a, {})
            if x.get("k") == "un" and x["op"] == "&":
                x = f["nodes"].get(x["e"], {})
            if x.get("k") == "var" and x.get("d") == d:
                out.append((i, j))
    return out


def succeeded(prog, f, fills, site):
    """Is the call that last filled the container known to have returned true at the call site?"""
    ids = {i for i, _ in fills}
    start = {f["entry"]: (None, frozenset())}
    work = [f["entry"]]
    verdict = []

    def value(i):
        _, n = stripped(f, i)
        return n

    def meet(a, b):
        if a is None:
            return b
        st = a[0] if a[0] == b[0] else "?"
        return (st, a[1] & b[1])

    def eqs(i, truth):
        """Leaves (node id, truth) implied."""
        return list(conjuncts(f, i, truth))
    rounds = 0
    while work:
        rounds += 1
        if rounds > 5000:
            return False
        b = work.pop()
        s, vs = start[b]
        for e in f["B"][b]["e"]:
            if e.get("decl"):
                vs -= {e.get("d")}
                if e.get("i") is not None:
                    j, _ = stripped(f, e["i"])
                    if j in ids and e.get("ki") == "bool":
                        vs |= {e["d"]}
                continue
            i = e.get("n")
            n = f["nodes"].get(i, {})
            if i == site:
                verdict.append(s)
            if i in ids:
                s, vs = "pending", frozenset()
            elif n.get("k") == "assign":
                x = f["nodes"].get(n["x"], {})
                if x.get("k") == "var":
                    vs -= {x.get("d")}
                    j, _ = stripped(f, n["y"])
                    if j in ids and n["op"] == "=":
                        vs |= {x["d"]}
        B = f["B"][b]
        for k, t in enumerate(B["s"]):
            if t is None:
                continue
            ns = s
            if B.get("c") is not None and len(B["s"]) == 2:
                for j, truth in eqs(B["c"], k == 0):
                    j, m = stripped(f, j)
                    if j in ids or (m.get("k") == "var" and m.get("d") in vs) or \
                            (m.get("k") == "assign" and stripped(f, m["y"])[0] in ids):
                        ns = truth
            new = (ns, vs)
            old = start.get(t)
            if old is None:
                start[t] = new
                work.append(t)
            else:
                m = meet(old, new)
                if m != old:
                    start[t] = m
                    work.append(t)
    return bool(verdict) and all(v is True for v in verdict)


def splits(prog, u, r, done):
    """A function that divides a list returns true only after it put at least two groups into the
    result, and cuts strictly inside the list."""
    if u in done:
        return
    done.add(u)
    f = prog.functions[u]
    name = f["name"].replace("ppp::", "")
    r.analysed.add(f["name"])
    # where it cuts
    seen = {}
    for i, n in sorted(f["nodes"].items()):
        if n["k"] != "assign" or n["op"] != "=":
            continue
        x = f["nodes"][n["x"]]
        if x["k"] != "member" or not integral(x) or x.get("ki") not in ("int", "uint") or \
                not x.get("cls", "").endswith("::Cut") or "os" not in x["name"]:
            continue
        keys = keysin(Zones(prog, f), n["y"])
        D = defs(Zones(prog, f))
        for _ in range(3):
            for k in list(keys):
                keys |= D.get(k, set())
        for b in f["B"].values():
            if b.get("c") is not None:
                ks = keysin(Zones(prog, f), b["c"])
                if ks & keys:
                    keys |= ks
        z = Zones(prog, f, {k for k in keys if k[0] in ("i", "s")})
        z.unsigned = {k: 1 for k in keys if k[0] == "i"}
        if not z.run():
            continue
        for b, st in z.at.items():
            st = {p: s.copy() for p, s in st.items()}
            for e in f["B"][b]["e"]:
                if e.get("n") == i and not e.get("decl"):
                    for s in st.values():
                        v = z.lin(s, n["y"])
                        if v is None or v[0][0] == "i" and v[0][1][0] == "v" and \
                                any(p["d"] == v[0][1][1] for p in f["params"]):
                            continue
                        lo = v[1] - (s.ub(ZERO, v[0]) or 0) if v[0] != ZERO else v[1]
                        inside = [k for k in keys if k[0] == "s" and s.ub(v[0], k) is not None and
                                  s.ub(v[0], k) + v[1] <= -1]
                        m = seen[name] = seen.get(name, 0) + 1
                        r.ob("cut", "%s: %s stored %d" % (name, x["name"], m), lo >= 1 and bool(inside),
                             "%s:%s: the list may be cut before its first or behind its last "
                             "element, so that a part is as long as the whole"
                             % (f["file"], n["l"]))
                st = z.element(st, e)
                if not st:
                    break
    # true only after at least two groups
    outs = [p for p in f["params"] if p.get("ptr") and "vector<std::vector" in
            p["t"].replace(" ", "").replace("conststd", "std")]
    for p in outs:
        k = ("s", ("d", ("v", p["d"])))
        pushes = [n for n in f["nodes"].values() if n["k"] == "call" and n.get("o") is not None and
                  not n.get("own") and Zones(prog, f).contkey(n) == k and not n.get("const")]
        if not pushes:
            for n in f["nodes"].values():
                if n["k"] == "call" and n.get("u") in prog.functions and n["u"] != u and \
                        any(f["nodes"].get(a, {}).get("d") == p["d"] for a in n.get("a", [])) and \
                        prog.functions[n["u"]].get("ret") == "bool":
                    splits(prog, n["u"], r, done)
            continue
        bl = {e["d"] for b in f["B"].values() for e in b["e"]
              if e.get("decl") and e.get("ki") == "bool" and not e.get("ref")} | {p["d"]}
        z = Zones(prog, f, {k}, bl)
        g = ("g", k)
        init = z.init()
        for s in init.values():
            s.add(g, k, 0)
            s.add(k, g, 0)
        z.init = lambda: {q: s.copy() for q, s in init.items()}
        if not z.run():
            continue
        for b, st in z.at.items():
            st = {q: s.copy() for q, s in st.items()}
            for e in f["B"][b]["e"]:
                st = z.element(st, e)
                if not st:
                    break
                if not e.get("ret") or e.get("v") is None or e["v"] < 0:
                    continue
                good = True
                for q, s in st.items():
                    if (p["d"], False) in q:
                        continue
                    w = z.assume(q, s.copy(), e["v"], True)
                    if w is None:
                        continue
                    _, x = stripped(f, e["v"])
                    if x.get("k") == "bool" and x["v"] == "0":
                        continue
                    if (w.ub(g, k) if w.ub(g, k) is not None else 0) > -2:
                        good = False
                _, x = stripped(f, e["v"])
                if not good and x.get("k") not in ("bool", "var") and \
                        counted(prog, f, e["v"], pushes, p["d"]):
                    continue           # a count of the parts, which this analysis does not follow
                m = seen["ret"] = seen.get("ret", 0) + 1
                r.ob("divided", "%s: return %d" % (name, m), good,
                     "%s:%s: true may be returned although the list was not divided"
                     % (f["file"], e["l"]))


def asked(prog, f, i):
    """Names of the flags of which `any_of` in the value asks, as its predicate returns them."""
    out = set()
    _, n = stripped(f, i)
    if n.get("k") == "call" and query.base(n) == "any_of" and len(n.get("a", [])) == 3:
        _, x = stripped(f, n["a"][2])
        g = prog.functions.get(x.get("u"))
        rets = [e["v"] for b in g["B"].values() for e in b["e"] if e.get("ret")] if g else []
        if len(rets) == 1 and rets[0] is not None:
            _, y = stripped(g, rets[0])
            if y.get("k") == "member":
                out.add(y["name"])
    return out


def counted(prog, f, i, pushes, d):
    """Does the value read the list itself, or a variable that changes in a loop that adds to it?"""
    read = {f["nodes"][j].get("d") for j in under(f, i) if f["nodes"][j]["k"] == "var"}
    if d in read:
        return True
    ids = {k for k, n in f["nodes"].items() if any(n is q for q in pushes)}
    flags = asked(prog, f, i)
    for L in loops_of(f).values():
        # any of the elements has the flag that decides on a part
        if flags and any(flags & {f["nodes"][j].get("name") for j in under(f, f["B"][b]["c"])
                                  if f["nodes"][j]["k"] == "member"}
                         for b in L if f["B"][b].get("c") is not None and f["B"][b]["c"] >= 0) and \
                ids & {e.get("n") for b in L for e in f["B"][b]["e"]}:
            return True
        es = [e.get("n") for b in L for e in f["B"][b]["e"] if not e.get("decl")]
        if not ids & set(es):
            continue
        for k in es:
            n = f["nodes"].get(k, {})
            t = n.get("x") if n.get("k") == "assign" else n.get("e") if n.get("k") == "un" and \
                n["op"] in ("++", "--") else n.get("o") if n.get("k") == "call" and \
                not n.get("const") else None
            if t is not None and f["nodes"].get(t, {}).get("d") in read:
                return True
    return False


def descending(prog, fld, r, done):
    """No element becomes its own ancestor along the link."""
    if fld in done:
        return
    done.add(fld)
    for u, f in sorted(prog.functions.items()):
        for i, n in sorted(f["nodes"].items()):
            if n["k"] != "assign" or n["op"] != "=":
                continue
            x = f["nodes"][n["x"]]
            if x["k"] != "member" or x["name"] != fld or not x.get("ptr"):
                continue
            _, o = stripped(f, x["b"])
            if o.get("k") != "var":
                continue
            r.analysed.add(f["name"])
            good = True
            _, v = stripped(f, n["y"])
            if v.get("k") == "var" and v.get("d") == o["d"]:
                good = False
            from_, vars_ = set(), set()
            for j in under(f, n["y"]):
                m = f["nodes"][j]
                if m["k"] == "call" and m.get("o") is not None and \
                        query.base(m) in ("top", "back", "front", "operator[]", "at"):
                    q = Zones(prog, f).path(m["o"])
                    if q is not None:
                        from_.add(q)
                elif m["k"] == "var" and m.get("d") and m["d"] != o["d"]:
                    vars_.add(m["d"])
                    k = once(f, m["d"])
                    if k is not None:
                        for jj in under(f, k):
                            mm = f["nodes"][jj]
                            if mm["k"] == "call" and mm.get("o") is not None and \
                                    query.base(mm) in ("top", "back", "front", "operator[]", "at"):
                                q = Zones(prog, f).path(mm["o"])
                                if q is not None:
                                    from_.add(q)
            if good and into(prog, f, o["d"], i, from_, vars_):
                good = False
            r.ob("link", "%s: %s" % (f["name"].replace("ppp::", ""), fld), good,
                 "%s:%s: an element may become its own %s" % (f["file"], n["l"], fld))


def into(prog, f, d, site, conts, vars_):
    """May the element d have been put into one of the containers (or copied to one of the
    variables) since it was chosen, when the site is reached?"""
    z = Zones(prog, f)
    start = {f["entry"]: frozenset()}
    work = [f["entry"]]
    hit = False
    while work:
        b = work.pop()
        s = start[b]
        for e in f["B"][b]["e"]:
            if e.get("decl"):
                if e.get("d") == d:
                    s = frozenset()
                elif e.get("i") is not None:
                    s = s - {("v", e.get("d"))}
                    _, y = stripped(f, e["i"])
                    if y.get("k") == "var" and y.get("d") == d:
                        s |= {("v", e["d"])}
                continue
            i = e.get("n")
            n = f["nodes"].get(i, {})
            if i == site:
                if any(c in s for c in conts) or any(("v", v) in s for v in vars_):
                    hit = True
            if n.get("k") == "assign":
                x = f["nodes"].get(n["x"], {})
                if x.get("k") == "var":
                    if x["d"] == d:
                        s = frozenset()
                    else:
                        s = s - {("v", x["d"])}
                        _, y = stripped(f, n["y"])
                        if y.get("k") == "var" and y.get("d") == d:
                            s |= {("v", x["d"])}
            elif n.get("k") == "call" and n.get("o") is not None and not n.get("const"):
                p = z.path(n["o"])
                bn = query.base(n)
                if p is not None:
                    if bn in ("push", "push_back", "emplace", "emplace_back", "push_front", "insert"):
                        for a in n.get("a", []):
                            _, y = stripped(f, a)
                            if y.get("k") == "var" and y.get("d") == d:
                                s |= {p}
                    elif bn in ("clear", "operator=", "swap"):
                        s = s - {p}
        for t in f["B"][b]["s"]:
            if t is None:
                continue
            old = start.get(t)
            if old is None or not s <= old:
                start[t] = s if old is None else old | s
                work.append(t)
    return hit


PAIRS = "ppp::utils::BytePairEncoder"


def run(prog, r, tier):
    r.rule("loop", "in every turn of a loop something that cannot run out for ever (a counter, a "
           "position in a container, a container, a stream) comes closer to its end", 1)
    r.rule("recursion", "a function that leads back to itself is called with less than it was given: "
           "a part of its list after a division that succeeded, the next element along a link, or a "
           "depth that is bounded", 0)
    r.rule("cut", "a list is cut only strictly between its first and its last element", 0)
    r.rule("divided", "a list is reported as divided only when it was", 0)
    r.rule("link", "no element becomes its own ancestor along a link that is followed", 0)
    r.assumptions += [
        "streams and containers are finite; functions of the libraries return",
        "each turn of the byte pair encoder's merging loop merges at least one pair",
        "a counter does not overflow before it reaches the size of a container"]
    seen, follow = {}, set()
    for u, f in sorted(prog.functions.items(), key=lambda x: (x[1]["name"], x[0])):
        for h in sorted(loops_of(f), reverse=True):
            lp = Loop(prog, f, h)
            good, why = lp.decide()
            n = seen[f["name"]] = seen.get(f["name"], 0) + 1
            key = "%s loop %d" % (f["name"].replace("ppp::", ""), n)
            r.analysed.add(f["name"])
            if good is None and f.get("cls") == PAIRS and why.startswith("no counter"):
                continue
            if lp.followed:
                follow.add(lp.followed)
            r.ob("loop", key, good is not None, "%s: %s: %s" % (f["name"], lp.where(), why))
    divided, links = set(), set()
    for x in sorted(follow):
        descending(prog, x, r, links)
    for u, i, v in recursive(prog):
        f = prog.functions[u]
        n = f["nodes"][i]
        r.analysed.add(f["name"])
        k = seen[("rec", f["name"])] = seen.get(("rec", f["name"]), 0) + 1
        key = "%s call %d" % (f["name"].replace("ppp::", ""), k)
        why = depth(prog, f, i, n)
        if why is None:
            for j, a in enumerate(n.get("a", [])):
                l = link(f, a)
                if l is not None and l[0] == j:
                    why = "it follows %s" % l[1]
                    descending(prog, l[1], r, links)
                    break
        msg = "it is called with what it was given"
        if why is None:
            for j, a in enumerate(n.get("a", [])):
                d = part(f, a)
                if d is None:
                    continue
                fs = fillers(prog, f, d)
                if not fs:
                    continue
                if succeeded(prog, f, fs, i):
                    why = "it is called with a part of its list"
                    for c in sorted(f["nodes"]):
                        m = f["nodes"][c]
                        if m["k"] == "call" and m.get("u") in prog.functions and m["u"] != u and any(
                                "vector<std::vector" in x["t"].replace(" ", "")
                                for x in prog.functions[m["u"]]["params"]):
                            splits(prog, m["u"], r, divided)
                else:
                    msg = "it is called with the parts of a list that may not have been divided"
                break
        r.ob("recursion", key, why is not None, "%s:%s: %s calls itself: %s"
             % (f["file"], n["l"], f["name"], msg))

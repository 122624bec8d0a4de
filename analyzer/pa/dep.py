"""Whole-program information flow: what a set of sources can influence.

Flow-insensitive in the store, field-based for the program's classes (a field is one location for
all objects of the class), by data and by control: a store in a region that a tainted condition
decides on is tainted, and so is everything a function called from such a region stores.
Termination is not considered.
"""
from . import query
from .effects import ACCESS, READERS

# library functions that write their result through the first iterator / range they get
ALGO_OUT = {"copy", "copy_if", "transform", "move", "fill", "fill_n", "iota", "remove", "remove_if",
            "sort", "stable_sort", "reverse", "unique", "rotate", "partition", "shuffle",
            "swap_ranges", "replace", "generate", "nth_element", "partial_sort", "merge"}


def postdominators(f):
    """block -> immediate postdominator (None at the exit); blocks that cannot return are left out."""
    B = f["B"]
    ex = f["exit"]
    succ = {b: [s for s in blk["s"] if s is not None and s >= 0] for b, blk in B.items()}
    dead = set()
    for b, blk in B.items():
        for e in blk["e"]:
            n = f["nodes"].get(e.get("n"), {})
            if n.get("noret") and n.get("k") == "call":
                dead.add(b)
    pred = {b: [] for b in B}
    for b in B:
        if b not in dead:
            for s in succ[b]:
                pred[s].append(b)
    live, st = {ex}, [ex]
    while st:
        x = st.pop()
        for p in pred[x]:
            if p not in live:
                live.add(p)
                st.append(p)
    order, seen = [], set()

    def dfs(x):
        st = [(x, iter(pred[x]))]
        seen.add(x)
        while st:
            y, it = st[-1]
            for p in it:
                if p not in seen:
                    seen.add(p)
                    st.append((p, iter(pred[p])))
                    break
            else:
                order.append(y)
                st.pop()
    dfs(ex)
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    ip = {ex: ex}
    changed = True
    while changed:
        changed = False
        for b in order:
            if b == ex:
                continue
            new = None
            for s in succ[b]:
                if s in ip and s in num:
                    if new is None:
                        new = s
                    else:
                        a, c = s, new
                        while a != c:
                            while num[a] > num[c]:
                                a = ip[a]
                            while num[c] > num[a]:
                                c = ip[c]
                        new = a
            if new is not None and ip.get(b) != new:
                ip[b] = new
                changed = True
    return ip, live


def controls(f):
    """block -> set of blocks whose condition decides whether it runs (directly)."""
    ip, live = postdominators(f)
    out = {b: set() for b in f["B"]}
    for b, blk in f["B"].items():
        ss = [s for s in blk["s"] if s is not None and s >= 0 and s in live]
        if len(set(ss)) < 2 or b not in ip:
            continue
        stop = ip[b]
        for s in ss:
            x = s
            while x != stop and x in ip:
                out[x].add(b)
                if ip[x] == x:
                    break
                x = ip[x]
    return out


ITER = ("__gnu_cxx::__normal_iterator<", "std::reverse_iterator<", "std::__detail::_Node_",
        "std::_Rb_tree_", "std::_List_", "std::move_iterator<", "std::_Deque_iterator<",
        "std::_Bit_iterator", "std::_Fwd_list_")


def pointing(n):
    """Does an expression yield a pointer or an iterator?"""
    return bool(n.get("ptr")) or n.get("t", "").replace("const ", "").startswith(ITER)


class Flow:
    """Fixpoint of what is influenced. source(f, n) -> label of a node that is a source, or None;
    stop(loc) -> True where influence is expected and goes no further."""

    def __init__(self, prog, source, stop=None, skip=None, reach=None):
        self.prog = prog
        self.source = source
        self.stop = stop or (lambda loc: False)
        self.skip = skip or (lambda f: False)
        self.t = {}            # location -> reason (text)
        self.spread = set()
        self.pc = {}           # function usr -> reason
        self.stopped = {}
        self.order = []
        self.at = ""
        self.alias = {}        # location -> set of locations
        self.over = {}
        for u, f in prog.functions.items():
            for o in f.get("overrides", ()):
                self.over.setdefault(o, set()).add(u)
        self.byname = {}
        self.fs = [f for u, f in sorted(prog.functions.items())
                   if (reach is None or u in reach) and not self.skip(f)]
        self.type = {}
        self.aborts = {}       # (function, line, what) -> reason
        self.sinks = {}        # output statement -> reason
        self.owner = {}
        for f in prog.functions.values():
            for p in f["params"]:
                self.type[("v", p["d"])] = p.get("t", "")
            for n in f["nodes"].values():
                if n["k"] in ("var", "member"):
                    for l in self.locs(n):
                        self.type.setdefault(l, n.get("t", ""))
                elif n["k"] == "call" and n.get("lv") and n.get("u") in prog.functions:
                    self.type[("ret", n["u"])] = n.get("t", "")
        self.pure = self.purity()
        self.ctl = {}
        self.nodeblock = {}
        for f in self.fs:
            self.ctl[f["u"]] = controls(f) if len(f["B"]) > 3 else {}
        self.run()

    # ---- locations
    def roots(self, f, i, depth=0):
        """Locations an lvalue (or an object with contents, such as an iterator) designates."""
        n = f["nodes"].get(i)
        if n is None or depth > 60:
            return ()
        k = n["k"]
        R = lambda j: self.roots(f, j, depth + 1)
        if k in ("var", "member"):
            if k == "member" and not n["cls"].startswith("ppp::"):
                return self.points(f, n["b"], depth + 1) if n.get("arrow") else R(n["b"])
            return self.locs(n)
        if k == "sub":
            return self.points(f, n["b"], depth + 1) if f["nodes"].get(n["b"], {}).get("ptr") \
                else R(n["b"])
        if k == "un" and n.get("op") == "*":
            return self.points(f, n["e"], depth + 1)
        if k == "un" and n.get("op") == "&":
            return ()
        if k in ("un", "cast"):
            return R(n["e"])
        if k == "cond":
            return tuple(R(n["x"])) + tuple(R(n["y"]))
        if k == "assign":
            return R(n["x"])
        if k in ("call", "construct"):
            if n.get("u") in self.prog.functions:
                return (("ret", n["u"]),) if n.get("lv") else ()
            if "o" in n:
                return self.points(f, n["o"], depth + 1) if n.get("arrow") or pointing(
                    f["nodes"].get(n["o"], {})) and n.get("op") in ("*", "->", "[]") \
                    else R(n["o"])
            for a in n.get("a", [])[:1]:
                return R(a)
            return ()
        if k == "bin" and n.get("op") == ",":
            return R(n["y"])
        return ()

    def points(self, f, i, depth=0):
        """Locations the pointer an expression yields points to."""
        n = f["nodes"].get(i)
        if n is None or depth > 60:
            return ()
        k = n["k"]
        P = lambda j: self.points(f, j, depth + 1)
        if k in ("var", "member"):
            return tuple(("*",) + l for l in self.locs(n))
        if k == "un" and n.get("op") == "&":
            return self.roots(f, n["e"], depth + 1)
        if k in ("un", "cast"):
            return P(n["e"])
        if k == "cond":
            return tuple(P(n["x"])) + tuple(P(n["y"]))
        if k == "assign":
            return P(n["x"]) if n.get("op") != "=" else P(n["y"])
        if k == "bin" and n.get("op") in ("+", "-", ","):
            return tuple(P(n["x"])) + tuple(P(n["y"]))
        if k == "sub":
            return self.roots(f, i, depth + 1)
        if k in ("call", "construct"):
            if n.get("u") in self.prog.functions:
                return (("*", "ret", n["u"]),)
            if "o" in n:
                return self.points(f, n["o"], depth + 1) if n.get("arrow") or pointing(
                    f["nodes"].get(n["o"], {})) else self.roots(f, n["o"], depth + 1)
            for a in n.get("a", [])[:1]:
                return P(a) or self.roots(f, a, depth + 1)
        return ()

    def purity(self):
        """Functions that store only in their own variables: their value is made of what they get."""
        bad = set()
        calls = {}
        for u, f in self.prog.functions.items():
            own = set()
            for p in f["params"]:
                if not p.get("ref") and "*" not in p.get("t", ""):
                    own.add(("v", p["d"]))
            for b in f["B"].values():
                for e in b["e"]:
                    if e.get("decl") and not e.get("slocal"):
                        t = e.get("t", "").strip()
                        if not t.endswith("&") and not t.endswith("*"):
                            own.add(("v", e["d"]))
            if f.get("ctor") or f.get("dtor") or f.get("lambda"):
                bad.add(u)
                continue
            cs = calls.setdefault(u, set())
            for n in f["nodes"].values():
                k = n["k"]
                ws = ()
                if k == "assign":
                    ws = self.roots(f, n["x"]) or (None,)
                    if f["nodes"][n["x"]].get("k") == "var" and \
                            f["nodes"][n["x"]].get("ptr"):
                        ws = ()
                elif k == "un" and n.get("op") in ("++", "--"):
                    ws = self.roots(f, n["e"]) or (None,)
                elif k in ("new", "delete", "throw", "lambda"):
                    ws = (None,)
                elif k in ("call", "construct"):
                    bs = self.bodies(n)
                    if bs:
                        cs |= set(bs)
                        continue
                    ws = []
                    name = query.base(n)
                    if n["k"] == "call" and "o" in n and not n.get("const") and \
                            not n.get("static") and name not in ACCESS:
                        ws += self.roots(f, n["o"]) if not n.get("arrow") else (None,)
                    for j, a in enumerate(n.get("a", ())):
                        pm = n.get("pm", "")[j:j + 1]
                        if (name not in READERS or name == "operator<<" and pm == "m") and \
                                k == "call" and (
                                pm in ("m", "p") or name in ALGO_OUT and "o" not in n):
                            ws += self.roots(f, a) or ((None,) if f["nodes"].get(a, {}).get(
                                "k") in ("var", "member", "un", "sub") else ())
                if any(w not in own for w in ws):
                    bad.add(u)
                    break
        ch = True
        while ch:
            ch = False
            for u, cs in calls.items():
                if u not in bad and cs & bad:
                    bad.add(u)
                    ch = True
        return set(self.prog.functions) - bad

    def stream(self, l):
        t = self.type.get(l, "")
        return "basic_ostream" in t or "basic_ofstream" in t or "NullStream" in t

    def bodies(self, n):
        out = []
        u = n.get("u")
        if u in self.prog.functions:
            out.append(u)
        if n.get("virt"):
            out += [v for v in self.over.get(n.get("fn", ""), ()) if v not in out]
        return out

    # ---- values
    def val(self, f, i, memo):
        """Reason why the value of a node is influenced, or None."""
        if i is None or i < 0:
            return None
        if i in memo:
            return memo[i]
        memo[i] = None
        n = f["nodes"].get(i)
        if n is None:
            return None
        r = self._val(f, n, memo)
        memo[i] = r
        return r

    def _val(self, f, n, memo):
        s = self.source(f, n)
        if s:
            return "%s (%s)" % (s, query.where(f, n))
        k = n["k"]
        V = lambda j: self.val(f, j, memo)
        if k in ("var", "member"):
            for loc in self.locs(n):
                if loc in self.t:
                    return self.t[loc]
            return V(n["b"]) if k == "member" and n.get("arrow") else None
        if k == "lambda":
            return None
        if k == "un" and n.get("op") == "&":
            return self.sel(f, n["e"], memo)
        if k == "un" and n.get("op") == "*" or k == "sub" and \
                f["nodes"].get(n.get("b"), {}).get("ptr"):
            return V(n["e"] if k == "un" else n["b"]) or (V(n["i"]) if k == "sub" else None) or \
                self.content(f, n["e"] if k == "un" else n["b"])
        if k in ("call", "construct", "new"):
            bs = self.bodies(n)
            for u in bs:
                if ("ret", u) in self.t:
                    return self.t[("ret", u)]
            if bs and not all(u in self.pure for u in bs):
                return None
            js = list(n.get("a", ()))
            if "o" in n:
                js.append(n["o"])
            if k == "new":
                js += [n[x] for x in ("e", "n") if isinstance(n.get(x), int)]
            for j in js:
                r = V(j) or (self.content(f, j) if pointing(f["nodes"].get(j, {})) else None)
                if r:
                    return r
            return None
        for key in ("e", "x", "y", "b", "i", "c"):
            if key in n and isinstance(n[key], int) and not (
                    key == "x" and k == "assign" and n.get("op") == "="):
                r = V(n[key])
                if r:
                    return r
        for a in n.get("a", ()) if isinstance(n.get("a"), list) else ():
            r = V(a)
            if r:
                return r
        return None

    def content(self, f, i):
        for l in self.points(f, i):
            if l in self.t:
                return self.t[l]
        return None

    @staticmethod
    def locs(n):
        if n["k"] == "member":
            return (("f", n["cls"], n["name"]),)
        if n.get("vk") in ("global", "smember") and "qn" in n:
            return (("g", n["qn"]),)
        if n.get("vk") == "slocal":
            return (("g", n["name"]),)
        return (("v", n.get("d")),)

    # ---- fixpoint
    def mark(self, loc, why, spread=True):
        """spread: the location itself changes; otherwise only which one a reference names."""
        if loc is None or loc in self.t and (not spread or loc in self.spread):
            return
        if self.stream(loc):
            self.sinks.setdefault((loc,) + tuple(self.at), why)
            return
        self.order.append((loc, why, self.at))
        if self.stop(loc):
            self.stopped.setdefault(loc, why)
            return
        self.t.setdefault(loc, why)
        self.changed = True
        if not spread:
            return
        self.spread.add(loc)
        for a in self.alias.get(loc, ()):
            self.mark(a, why)

    def run(self):
        self.params = {u: [("v", p["d"]) for p in f["params"]]
                       for u, f in self.prog.functions.items()}
        self.pinfo = {u: f["params"] for u, f in self.prog.functions.items()}
        first = True
        while True:
            self.changed = False
            for f in self.fs:
                self.function(f, first)
            first = False
            if not self.changed:
                break
        self.branches = {}
        for f in self.fs:
            memo = {}
            for b, blk in f["B"].items():
                if "c" in blk:
                    r = self.val(f, blk["c"], memo)
                    if r:
                        self.branches[(f["u"], b)] = r

    def function(self, f, first):
        memo = {}
        pc0 = self.pc.get(f["u"])
        ctl = self.ctl[f["u"]]
        cond = {}
        for b, blk in f["B"].items():
            if "c" in blk and len(blk["s"]) > 1:
                r = self.val(f, blk["c"], memo)
                if r:
                    cond[b] = r
        # control influence of blocks
        pcs = {}
        work = list(cond)
        ch = True
        inf = dict(cond)
        while ch:
            ch = False
            for b, cs in ctl.items():
                if b in pcs:
                    continue
                for c in cs:
                    if c in inf:
                        pcs[b] = inf[c]
                        inf.setdefault(b, inf[c])
                        ch = True
                        break
        for b, blk in f["B"].items():
            pc = pc0 or pcs.get(b)
            self.here = pcs.get(b)
            for e in blk["e"]:
                self.elem(f, e, pc, memo, first)

    def elem(self, f, e, pc, memo, first):
        self.at = (f["name"], e.get("l") or f["nodes"].get(e.get("n"), {}).get("l"))
        if e.get("decl"):
            loc = ("g", e["name"]) if e.get("slocal") else ("v", e["d"])
            if "i" in e and isinstance(e["i"], int):
                if first:
                    self.bind(f, loc, e.get("t", ""), e["i"])
                ref = e.get("t", "").strip().endswith("&")
                r = (not ref and pc) or self.val(f, e["i"], memo)
                if r:
                    self.mark(loc, r, not ref)
            for x in e.get("bindings", ()):
                l2 = ("v", x["d"])
                if loc in self.t:
                    self.mark(l2, self.t[loc])
            return
        if e.get("ret"):
            if isinstance(e.get("v"), int) and e["v"] >= 0:
                r = pc or self.val(f, e["v"], memo)
                if first and pointing(f["nodes"].get(e["v"], {})):
                    for l in self.points(f, e["v"]):
                        self.link(("*", "ret", f["u"]), l)
                if first and f["nodes"].get(e["v"], {}).get("lv") and f.get("ref"):
                    for l in self.roots(f, e["v"]):
                        self.link(("ret", f["u"]), l)
                if r:
                    self.mark(("ret", f["u"]), r)
            return
        if "init" in e or "field" in e:
            fld = e.get("field") or e.get("init")
            if isinstance(fld, str):
                r = pc or self.val(f, e.get("i", e.get("n", -1)), memo)
                if r:
                    self.mark(("f", f.get("cls", ""), fld), r)
        i = e.get("n")
        if i is None or i not in f["nodes"]:
            return
        n = f["nodes"][i]
        k = n["k"]
        if k == "assign":
            r = pc or self.val(f, n["y"], memo) or self.sel(f, n["x"], memo)
            if first and f["nodes"][n["x"]]["k"] in ("var", "member"):
                for loc in self.locs(f["nodes"][n["x"]]):
                    self.bind(f, loc, f["nodes"][n["x"]].get("t", ""), n["y"], False)
            if r:
                for loc in self.roots(f, n["x"]):
                    self.mark(loc, r)
        elif k == "un" and n.get("op") in ("++", "--"):
            r = pc or self.sel(f, n["e"], memo)
            if r:
                for loc in self.roots(f, n["e"]):
                    self.mark(loc, r)
        elif k in ("call", "construct", "new"):
            self.callsite(f, n, pc, memo, first)
            if self.here and n.get("noret") and "assert" not in n.get("fn", ""):
                self.aborts.setdefault((f["name"], n.get("l"), query.base(n)), self.here)
        elif k == "throw" and self.here:
            self.aborts.setdefault((f["name"], n.get("l"), "throw"), self.here)

    def sel(self, f, i, memo):
        """Is it influenced which location an expression designates?"""
        n = f["nodes"].get(i, {})
        k = n.get("k")
        if k == "member":
            if n.get("arrow"):
                return self.val(f, n["b"], memo)
            return self.sel(f, n["b"], memo)
        if k == "sub":
            return self.val(f, n["i"], memo) or (
                self.val(f, n["b"], memo) if f["nodes"].get(n["b"], {}).get("ptr") else
                self.sel(f, n["b"], memo))
        if k == "un" and n.get("op") == "*":
            return self.val(f, n["e"], memo)
        if k == "call" and n.get("u") not in self.prog.functions:
            for a in n.get("a", ()):
                r = self.val(f, a, memo)
                if r:
                    return r
            return self.sel(f, n["o"], memo) if "o" in n else None
        return None

    def link(self, a, b):
        if a == b or len(a) > 1 and a[0] == "*" and self.elementp(a, b):
            return
        self.alias.setdefault(a, set()).add(b)
        self.alias.setdefault(b, set()).add(a)
        if a in self.spread:
            self.mark(b, self.t[a])
        if b in self.spread:
            self.mark(a, self.t[b])

    def elementp(self, a, b):
        return False

    def bind(self, f, loc, t, i, ref=True):
        """A variable that may point or refer into other locations."""
        tt = t.replace("const", "").strip()
        if tt.endswith("&"):
            if ref:
                for r in self.roots(f, i):
                    self.link(loc, r)
                for r in self.points(f, i):
                    if "*" in tt:
                        self.link(("*",) + loc, r)
        elif tt.endswith("*"):
            for r in self.points(f, i):
                self.link(("*",) + loc, r)
        elif tt.startswith(ITER):
            for r in self.points(f, i):
                self.link(("*",) + loc, r)

    def callsite(self, f, n, pc, memo, first):
        bs = self.bodies(n)
        args = n.get("a", [])
        if bs:
            isop = "o" in n
            for u in bs:
                if u in self.pure:
                    continue
                if pc and u not in self.pc:
                    self.pc[u] = pc
                    self.changed = True
                ps = self.params[u]
                pi = self.pinfo[u]
                for k, a in enumerate(args):
                    if k >= len(ps):
                        break
                    r = self.val(f, a, memo)
                    if r:
                        self.mark(ps[k], r, not pi[k].get("t", "").strip().endswith("&"))
                    if first:
                        self.bind(f, ps[k], pi[k].get("t", ""), a)
                # virtual dispatch on an influenced object
                if isop and n.get("virt"):
                    r = self.val(f, n["o"], memo)
                    if r and u not in self.pc:
                        self.pc[u] = r
                        self.changed = True
            return
        # a library function
        name = query.base(n)
        r = pc
        s = self.source(f, n)
        if s and not r:
            r = "%s (%s)" % (s, query.where(f, n))
        for a in args:
            r = r or self.val(f, a, memo) or (
                self.content(f, a) if pointing(f["nodes"].get(a, {})) else None)
        pms = n.get("pm", "")
        lams = [f["nodes"][a]["u"] for a in args
                if f["nodes"].get(a, {}).get("k") in ("lambda", "fnref")
                and f["nodes"][a].get("u") in self.prog.functions]
        for u in lams:
            if r and u not in self.pc:
                # a callback: runs under the same influence
                if pc:
                    self.pc[u] = pc
                    self.changed = True
            if ("ret", u) in self.t and not r:
                r = self.t[("ret", u)]
        if n["k"] == "call" and "o" in n and not n.get("const") and not n.get("static"):
            if r and name not in ACCESS:
                for loc in (self.points(f, n["o"]) if n.get("arrow") else
                            self.roots(f, n["o"])):
                    self.mark(loc, r)
            if not r:
                r = self.val(f, n["o"], memo)
        for k, a in enumerate(args):
            pm = pms[k] if k < len(pms) else "v"
            w = pm in "mp" and (name not in READERS or
                                name == "operator<<" and pm == "m" and k == 0)
            if name in ALGO_OUT and pm == "v" and "o" not in n:
                w = True
            if w and r:
                for loc in (self.points(f, a) if pm == "p" or pm == "v" and pointing(
                        f["nodes"].get(a, {})) else self.roots(f, a)):
                    self.mark(loc, r)

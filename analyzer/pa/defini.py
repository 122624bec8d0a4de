"""Definite initialization: no variable or field is read before it has got a value.

A forward must-analysis over the control flow graph. Keys: ("v", decl) for a local scalar or array
declared without a value, ("v", decl, index) for single elements of an array, ("this", field) for a
field of the object a method runs on, ("obj", decl, field) for a field of a fresh object.
"""
from . import query
from .dep import controls


def scalar(x):
    t = x.get("t", "")
    return x.get("scalar") or "ki" in x or x.get("ptr") or "arr" in x or \
        ("[" in t and not t.startswith("std::"))


class Defini:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.parents = {}
        self.over = {}
        for u, f in prog.functions.items():
            for o in f.get("overrides", ()):
                self.over.setdefault(o, set()).add(u)

    def parent(self, f):
        u = f["u"]
        if u in self.parents:
            return self.parents[u]
        out = {}
        for i, n in f["nodes"].items():
            for k in ("e", "x", "y", "b", "i", "c", "o"):
                if isinstance(n.get(k), int):
                    out.setdefault(n[k], []).append((i, k))
            if isinstance(n.get("a"), list):
                for j, a in enumerate(n["a"]):
                    if isinstance(a, int):
                        out.setdefault(a, []).append((i, j))
        for b in f["B"].values():
            for e in b["e"]:
                if e.get("decl") and isinstance(e.get("i"), int):
                    out.setdefault(e["i"], []).append((e, "decl"))
                if e.get("ret") and isinstance(e.get("v"), int):
                    out.setdefault(e["v"], []).append((e, "ret"))
        # member-function callees and similar have several parents: keep those that evaluate
        self.parents[u] = out
        return out

    # ---- what an lvalue names
    def key(self, f, i, mode):
        """(key, constant index or None, partial) of an lvalue among the tracked ones."""
        n = f["nodes"].get(i)
        if n is None:
            return None
        k = n["k"]
        if k == "var":
            return ("v", n.get("d"))
        if k == "member":
            b = f["nodes"].get(n["b"], {})
            while b.get("k") == "cast":
                b = f["nodes"].get(b["e"], {})
            if b.get("k") == "this":
                return ("this", n["name"])
            if b.get("k") == "var":
                return ("obj", b.get("d"), n["name"])
        if k == "un" and n.get("op") == "*":
            b = f["nodes"].get(n["e"], {})
            if b.get("k") == "var":
                return ("v*", b.get("d"))
        return None

    def role(self, f, i, depth=0):
        """How the value of lvalue i is used: 'read', 'write', 'rw', 'pass' (call, arg), 'none'."""
        ps = self.parent(f).get(i, ())
        if not ps:
            return ("none",)
        p, how = ps[0]
        if how == "decl":
            t = p.get("t", "").strip()
            return ("alias",) if t.endswith("&") or (
                t.endswith("*") and not f["nodes"][i].get("ptr")) else ("read",)
        if how == "ret":
            return ("read",) if not f["nodes"][i].get("lvret") else ("alias",)
        n = f["nodes"][p]
        k = n["k"]
        if k == "assign" and how == "x":
            return ("write",) if n.get("op") == "=" else ("read",)
        if k == "un" and n.get("op") == "&":
            r = self.role(f, p, depth + 1)
            return r if r[0] == "pass" else ("alias",)
        if k == "sub" and how == "b":
            return ("elem", p)
        if k == "un" and n.get("op") == "*" and f["nodes"][i].get("k") == "var" and \
                not f["nodes"][i].get("ptr"):
            return ("elem", p)
        if k == "member":
            return ("none",)
        if k == "sizeof":
            return ("none",)
        if k in ("call", "construct") and isinstance(how, int):
            return ("pass", p, how)
        if k == "bin" and n.get("op") == "," and how == "x":
            return ("none",)
        if k in ("cast",) and n.get("t") == "void":
            return ("none",)
        if k == "bin" and n.get("op") == "," or k == "cond" and how != "c" or \
                k == "cast" and n.get("lv"):
            return self.role(f, p, depth + 1) if depth < 20 else ("read",)
        return ("read",)

    def deref(self, f, i):
        """Key of what a pointer or array expression points to."""
        n = f["nodes"].get(i, {})
        k = self.key(f, i, 0)
        if k and k[0] == "v" and n.get("k") == "var" and n.get("ptr"):
            return ("v*", k[1])
        return k

    def loops(self, f, keys):
        """Block -> keys of arrays that the loop it heads sets element by element."""
        out = {}
        ctl = None
        for b, blk in f["B"].items():
            for e in blk["e"]:
                n = f["nodes"].get(e.get("n"), {})
                x = f["nodes"].get(n.get("x"), {}) if n.get("k") == "assign" else {}
                if x.get("k") == "sub" and f["nodes"].get(x.get("i"), {}).get("k") != "int":
                    key = self.deref(f, x["b"])
                    if key in keys:
                        if ctl is None:
                            ctl = controls(f)
                        todo, seen = [b], set()
                        while todo:
                            y = todo.pop()
                            for c in ctl.get(y, ()):
                                if c not in seen:
                                    seen.add(c)
                                    todo.append(c)
                                    if f["B"][c].get("tk") in ("ForStmt", "WhileStmt",
                                                               "CXXForRangeStmt"):
                                        out.setdefault(c, set()).add(key)
        return out

    def flag(self, f, i):
        """(key of a boolean variable or field, polarity) a condition tests, or None."""
        n = f["nodes"].get(i, {})
        pol = True
        while n.get("k") == "un" and n.get("op") == "!" or n.get("k") == "cast":
            if n["k"] == "un":
                pol = not pol
            i = n["e"]
            n = f["nodes"].get(i, {})
        if n.get("ki") == "bool" and n.get("k") in ("var", "member"):
            k = self.key(f, i, 0)
            if k:
                return k, pol
        return None

    def analyse(self, f, keys, start, size=None, implied=None):
        """Reads of a key before it is assigned, and the keys assigned at every return.
        keys: set of tracked keys; start: those assigned at entry; size: key -> length of array;
        implied: flag -> keys that are assigned whenever the flag is true."""
        self.setting = {}
        self.escapes = {}
        self.analyse1(f, keys, start, size, implied or {})
        imp = dict(implied or {})
        for b in f["B"].values():
            for e in b["e"]:
                if e.get("decl") and e.get("ki") == "bool" and isinstance(e.get("i"), int):
                    v = f["nodes"].get(e["i"], {})
                    k = ("v", e["d"])
                    if v.get("k") == "bool" and v.get("v") in ("0", 0, False) and \
                            self.setting.get(k) and k not in imp:
                        imp[k] = self.setting[k]
        if imp == (implied or {}):
            imp = implied or {}
        self.setting = {}
        self.escapes = {}
        return self.analyse1(f, keys, start, size, imp)

    def analyse1(self, f, keys, start, size, implied):
        size = size or {}
        heads = self.loops(f, keys)
        IN = {f["entry"]: frozenset(start)}
        reads = {}
        outs = []
        work = [f["entry"]]
        decls = {}
        while work:
            b = work.pop()
            st = set(IN[b])
            blk = f["B"][b]
            dead = False
            for e in blk["e"]:
                dead = self.step(f, e, st, keys, size, reads) or dead
                if dead:
                    break
            if dead:
                continue
            st |= heads.get(b, set())
            if b == f["exit"]:
                outs.append(frozenset(st))
                continue
            for s in blk["s"]:
                if s is None or s < 0:
                    continue
                cur = st
                if implied and "c" in blk and len(blk["s"]) == 2:
                    fg = self.flag(f, blk["c"])
                    if fg and fg[0] in implied and (blk["s"][0] == s) == fg[1] and \
                            blk["s"][0] != blk["s"][1]:
                        cur = st | implied[fg[0]]
                new = frozenset(cur) if s not in IN else IN[s] & cur
                if s not in IN or new != IN[s]:
                    IN[s] = frozenset(new)
                    work.append(s)
        # reads are only those of the fixpoint
        reads.clear()
        self.setting = {}
        self.escapes = {}
        ends = []
        for b, st0 in IN.items():
            st = set(st0)
            dead = False
            for e in f["B"][b]["e"]:
                if self.step(f, e, st, keys, size, reads):
                    dead = True
                    break
            if b == f["exit"] and not dead:
                ends.append(frozenset(st))
        end = None
        for x in ends:
            end = x if end is None else end & x
        return reads, (end if end is not None else frozenset(keys))

    def norm(self, st, key, size):
        if key not in st and self.full(st, key, size):
            st.add(key)

    def full(self, st, k, size):
        if k in st:
            return True
        n = size.get(k)
        return n and all(k + (i,) in st for i in range(n))

    def read(self, f, i, k, st, size, reads):
        if not self.full(st, k, size):
            reads.setdefault(k, (f, f["nodes"].get(i, {})))

    def step(self, f, e, st, keys, size, reads):
        if e.get("decl"):
            k = ("v", e["d"])
            if k in keys:
                st.discard(k)
                for x in [x for x in st if x[:2] == k]:
                    st.discard(x)
                if "i" in e:
                    st.add(k)
            for x in [x for x in keys if x[0] == "obj" and x[1] == e["d"]]:
                st.discard(x)
            return False
        i = e.get("n")
        n = f["nodes"].get(i) if i is not None else None
        if n is None:
            if ("init" in e or "field" in e):
                st.add(("this", e.get("field") or e.get("init")))
            return False
        k = n["k"]
        if k == "var" and n.get("ptr"):
            objs = [x for x in keys if x[:2] == ("obj", n.get("d"))]
            if objs:
                ps = self.parent(f).get(i, ())
                p, how = ps[0] if ps else (None, None)
                pn = f["nodes"].get(p, {}) if isinstance(p, int) else {}
                while pn.get("k") == "cast":
                    ps = self.parent(f).get(p, ())
                    p, how = ps[0] if ps else (None, None)
                    pn = f["nodes"].get(p, {}) if isinstance(p, int) else {}
                if how in ("decl", "ret") or pn.get("k") == "assign" and how == "y" or \
                        pn.get("k") in ("call", "construct", "new", "initlist") and isinstance(
                            how, int):
                    for x in objs:
                        if not self.full(st, x, size):
                            self.escapes.setdefault(x, (f, n))
        if k in ("var", "member") or k == "un" and n.get("op") == "*":
            key = self.key(f, i, 0)
            if ("v*",) + key[1:2] in keys if key and key[0] == "v" else False:
                r = self.role(f, i)
                if r[0] == "elem":
                    key = self.deref(f, i)
            if key in keys:
                r = self.role(f, i)
                if r[0] == "read":
                    self.read(f, i, key, st, size, reads)
                elif r[0] == "alias":
                    st.add(key)
                elif r[0] == "elem":
                    rr = self.role(f, r[1])
                    ix = f["nodes"].get(f["nodes"][r[1]].get("i"), {})
                    if rr[0] in ("read",) or rr[0] == "pass" and self.passed(f, rr) == "read":
                        kk = key + (int(ix["v"]),) if ix.get("k") == "int" else None
                        if not (kk and kk in st):
                            self.read(f, i, key, st, size, reads)
                    elif rr[0] == "alias":
                        st.add(key)
                elif r[0] == "pass" and self.passed(f, r) == "read":
                    self.read(f, i, key, st, size, reads)
            return False
        if k == "assign":
            x = f["nodes"].get(n["x"], {})
            key = self.key(f, n["x"], 0)
            if key and x.get("ki") == "bool":
                y = f["nodes"].get(n["y"], {})
                if not (y.get("k") == "bool" and y.get("v") in ("0", 0, False)):
                    now = frozenset(st)
                    self.setting[key] = self.setting[key] & now if key in self.setting else now
            if key in keys:
                st.add(key)
            elif x.get("k") == "sub":
                key = self.deref(f, x["b"])
                if key in keys:
                    ix = f["nodes"].get(x.get("i"), {})
                    if ix.get("k") == "int" and (key in size or key[0] == "v*"):
                        st.add(key + (int(ix["v"]),))
                        self.norm(st, key, size)
                    else:
                        st.add(key)
            elif x.get("k") == "un":
                key = self.key(f, x["e"], 0)
                if key in keys and not f["nodes"][x["e"]].get("ptr"):
                    st.add(key)
            return False
        if k in ("call", "construct", "new"):
            for j, a in enumerate(n.get("a", ())):
                an = f["nodes"].get(a, {})
                t = a
                if an.get("k") == "un" and an.get("op") == "&":
                    t = an["e"]
                while f["nodes"].get(t, {}).get("k") == "cast":
                    t = f["nodes"][t]["e"]
                key = self.key(f, t, 0)
                if key is None and f["nodes"].get(t, {}).get("k") == "sub":
                    key = self.key(f, f["nodes"][t]["b"], 0)
                if key in keys and self.passed(f, ("pass", i, j)) != "read":
                    w = self.passed(f, ("pass", i, j))
                    if w == "write":
                        st.add(key)
            # calls on the same object, or on a fresh one
            if n.get("u") in self.prog.functions and "o" in n:
                o = f["nodes"].get(n["o"], {})
                if o.get("k") == "this":
                    pre = "this"
                    mine = [x for x in keys if x[0] == "this"]
                elif o.get("k") == "var":
                    pre = "obj"
                    mine = [x for x in keys if x[0] == "obj" and x[1] == o.get("d")]
                else:
                    mine = []
                if mine:
                    self.own(f, n["u"], st, reads, mine)
            return bool(n.get("noret"))
        if k == "throw":
            return True
        return False

    def own(self, f, u, st, reads, mine, sets=True):
        if not mine:
            return
        keep = self.setting, self.escapes
        reads2, out2 = self.method(u, tuple(sorted(x[-1] for x in mine)))
        self.setting, self.escapes = keep
        for x in mine:
            if x[-1] in reads2 and x not in st:
                reads.setdefault(x, reads2[x[-1]])
            if sets and x[-1] in out2:
                st.add(x)

    implied = {}

    def method(self, u, fields):
        """(fields read before they are set, fields set at every return) of a method on its object."""
        m = ("m", u, fields, bool(self.implied))
        if m in self.memo:
            return self.memo[m]
        self.memo[m] = ({}, frozenset())
        f = self.prog.functions[u]
        keys = set(("this", x) for x in fields)
        reads, end = self.analyse(f, keys, (), None, self.implied)
        out = ({k[1]: v for k, v in reads.items() if k[0] == "this"},
               frozenset(k[1] for k in end if k[0] == "this" and len(k) == 2))
        self.memo[m] = out
        return out

    def passed(self, f, r):
        """What a call does with a variable it gets by reference or address: 'read' (reads it
        before setting it), 'write' (sets it), 'pass' (neither for sure)."""
        n = f["nodes"][r[1]]
        j = r[2]
        pm = n.get("pm", "")[j:j + 1] or "v"
        if pm in ("v", "c", "k"):
            a = f["nodes"].get(n["a"][j], {})
            if pm == "v" and a.get("k") == "un" and a.get("op") == "&":
                return "write"
            return "read"
        us = [n["u"]] if n.get("u") in self.prog.functions else []
        if n.get("virt"):
            us += list(self.over.get(n.get("fn", ""), ()))
        if not us:
            return "write"
        res = "write"
        for u in us:
            g = self.prog.functions[u]
            if j >= len(g["params"]):
                continue
            p = g["params"][j]
            k = ("v", p["d"]) if p.get("ref") else ("v*", p["d"])
            m = ("p", u, j)
            if m not in self.memo:
                self.memo[m] = "write"
                keep = self.setting, self.escapes
                reads, end = self.analyse(g, {k}, ())
                self.setting, self.escapes = keep
                self.memo[m] = "read" if k in reads else "write" if any(
                    x[:2] == k for x in end) else "pass"
            w = self.memo[m]
            if w == "read":
                return "read"
            if w == "pass":
                res = "pass"
        return res

    # ---- the two uses
    def locals(self, f):
        """(name, node) of reads of a local variable before it has a value; number of variables."""
        keys, size, name = set(), {}, {}
        for b in f["B"].values():
            for e in b["e"]:
                if e.get("decl") and "i" not in e and not e.get("bindings") and scalar(e) and \
                        not e.get("slocal"):
                    k = ("v", e["d"])
                    keys.add(k)
                    name[k] = e["name"]
                    if e.get("arr"):
                        size[k] = e["arr"]
        if not keys:
            return [], []
        reads, _ = self.analyse(f, keys, (), size)
        return [(name[k], v) for k, v in reads.items() if k in name], [name[k] for k in keys]

"""C16: no missing element is followed, and no assertion fails."""
from .. import query
from ..zone import Zones, callers, comps, entries, inputs, root
from .c15 import better, container, strip, text

# links of the document that need not be there
LINKS = {"prevLine", "nextLine", "parentLine", "prevSiblingLine", "nextSiblingLine", "prevBlock",
         "nextBlock", "isDiacriticMarkOfBaseChar", "isBaseCharOfDiacriticMark",
         "isPartOfStackedMathSymbol", "isFirstPartOfHyphenatedWord",
         "isSecondPartOfHyphenatedWord"}
# functions of the libraries that may return nothing
NOTHING = {"getPage", "getFont", "getTextEncoding", "getEmbeddedFontName", "readEmbFontFile",
           "getToUnicode", "getStream", "dict_lookup", "getenv", "getName", "getCharWidths",
           "getAnnots", "getCatalog", "getOutline", "getStructTreeRoot"}
SMART = ("std::shared_ptr", "std::unique_ptr")


def pointer(n):
    return bool(n.get("ptr")) or n.get("cls", "").startswith(SMART) and n.get("k") != "call" or \
        n.get("t", "").replace("const ", "").startswith(SMART)


class Nulls(Zones):
    """Which pointers are known to point to something, at each place of a function."""

    def __init__(self, prog, f, given=()):
        super().__init__(prog, f)
        self.linked = {}
        self.given = set(given)
        self.params = {p["d"]: k for k, p in enumerate(f["params"])}
        self.mine = set(e["d"] for b in f["B"].values() for e in b["e"] if e.get("decl") and "d" in e)
        self.ranged = set(e["d"] for b in f["B"].values() for e in b["e"]
                          if e.get("decl") and e.get("i") is not None and "d" in e and
                          self.nodes.get(strip(self, e["i"]), {}).get("op") == "*")

    # ------------------------------------------------------------ values
    def there(self, facts, i, depth=0):
        """Does the pointer expression i point to something?"""
        i = strip1(self, i)
        n = self.nodes.get(i, {})
        k = n.get("k")
        if k in ("new", "this", "str", "lambda", "fnref", "memfn"):
            return True
        if k == "null" or k == "int":
            return False
        if k == "un" and n["op"] == "&":
            return True
        if k == "cast":
            if n.get("cast") == "dynamic":
                return text(self, i) in facts or self.key(i) in facts
            return self.there(facts, n["e"], depth)
        key = self.key(i)
        if key in facts:
            return True
        if k == "cond":
            return self.there(facts | self.told(n["c"], True) | self.greater(n["c"], True), n["x"]) \
                and self.there(facts | self.told(n["c"], False) | self.greater(n["c"], False), n["y"])
        if k == "var":
            d = n.get("d")
            if d in self.params:
                return False
            if d is None or d not in self.mine:
                return True           # a variable around a lambda, or of the program
            return False
        if k == "member":
            return n["name"] not in LINKS and n["name"] not in dropped(self.prog)
        if k == "call" and n.get("o") is not None and query.base(n) in (
                "operator[]", "at", "back", "front", "top") or k == "sub":
            o = self.nodes.get(strip(self, n["o"] if k == "call" else n["b"]), {})
            key = o.get("name") if o.get("k") in ("member", "var") else None
            return key is None or (o["k"], o.get("d", key)) not in holes(self.prog) or \
                self.displayed({"a": n["a"] if k == "call" else [n["i"]]})
        if k == "call":
            b = query.base(n)
            if n.get("u") in self.prog.functions:
                return not nullable(self.prog, n["u"], depth + 1) or \
                    not nullable(self.prog, n["u"], depth + 1, self.known(facts, n))
            return b not in NOTHING or b == "getPage" and self.displayed(n)
        if k in ("sub",) or k == "un" and n["op"] == "*":
            return True
        if k == "bin":
            return True
        if k == "construct":
            a = n.get("a", [])
            return bool(a) and not (len(a) == 1 and not self.there(facts, a[0], depth))
        return True

    def key(self, i):
        return text(self, i)

    def known(self, facts, n):
        """What the called function asks for, and is there."""
        g = self.prog.functions[n["u"]]
        z = Nulls(self.prog, g)
        ks = set(text(z, i) for i, m in z.nodes.items()
                 if m["k"] == "call" and query.base(m) in NOTHING) | \
            set(("v", d) for d in z.params)
        return frozenset(k for k in ks if self.outside(n, g, k) in facts)

    def displayed(self, n):
        """Is the page of something asked for? It has been displayed, then."""
        i = n["a"][0] if n.get("a") else None
        m = self.nodes.get(i, {})
        while m.get("k") in ("cast", "construct"):
            m = self.nodes.get(m["e"] if m["k"] == "cast" else m["a"][0], {})
        if m.get("k") == "var":
            ds = [e for b in self.f["B"].values() for e in b["e"]
                  if e.get("decl") and e.get("d") == m.get("d")]
            if len(ds) == 1 and ds[0].get("i") is not None and not any(
                    x["k"] in ("assign", "un") and self.nodes[x.get("x", x.get("e"))].get("d") == m["d"]
                    and x.get("op") not in ("-", "+", "*", "!")
                    for x in self.nodes.values()):
                m = self.nodes[ds[0]["i"]]
                while m.get("k") == "cast":
                    m = self.nodes.get(m["e"], {})
        return m.get("k") == "member" and m["name"] == "pageNum"

    def optional(self, k):
        """Is the pointer k asked whether it is there, other than by an assertion?"""
        memo = self.f.setdefault("_asked", None)
        if memo is None:
            memo = self.f["_asked"] = set()
            fails = failing(self.f)
            for b, B in self.f["B"].items():
                c = B.get("c")
                if c is not None and not any(s in fails for s in B["s"] if s is not None):
                    memo |= self.asked(c)
            mine = set(c for l, c, b, want in asserted(self.prog, self.f))
            for n in self.nodes.values():
                if n["k"] == "cond" and n["c"] not in mine:
                    memo |= self.asked(n["c"])
        return k in memo

    def asked(self, i):
        """Pointers a condition asks for (a function that asserts one tells it either way)."""
        return self.told(i, True) ^ self.told(i, False)

    def told(self, i, truth, depth=0):
        """Pointers that are there when condition i is `truth`."""
        n = self.nodes.get(i, {})
        k = n.get("k")
        if n.get("ptr") and k in ("var", "member", "call", "sub") or k == "cast" and \
                n.get("cast") == "dynamic":
            return {self.key(i)} if truth else set()
        if k == "construct" and len(n.get("a", [])) == 1:
            return self.told(n["a"][0], truth, depth)
        if k == "assign" and n.get("op") == "=":
            return self.told(n["x"], truth, depth) if n.get("ptr") or \
                self.nodes[n["x"]].get("ptr") else set()
        if k == "cast":
            if n.get("ptr"):
                return {self.key(i)} if truth else set()
            return self.told(n["e"], truth, depth)
        if k == "un" and n["op"] == "!":
            return self.told(n["e"], not truth, depth)
        if k == "bin" and n["op"] in ("&&", "||"):
            a, b = self.told(n["x"], truth, depth), self.told(n["y"], truth, depth)
            return a | b if (n["op"] == "&&") == truth else a & b
        if k == "bool":
            return set()
        op = n.get("op")
        xs = [n.get("x"), n.get("y")] if k == "bin" else \
            ([n["o"]] if n.get("o") is not None else []) + n.get("a", []) if k == "call" else []
        if op in ("==", "!=") and len(xs) == 2:
            for a, b in (xs, xs[::-1]):
                if self.isnull(b) or self.nodes.get(b, {}).get("k") == "construct" and \
                        self.nodes[b].get("a") and self.isnull(self.nodes[b]["a"][0]):
                    return {self.key(a)} if (op == "!=") == truth else set()
                a, c = self.nodes.get(self.plain1(a), {}), self.value(b)
                if c is not None and a.get("k") == "call" and depth < 3 and \
                        a.get("u") in self.prog.functions:
                    return self.answers(a, c, (op == "==") == truth, depth)
            return set()
        if k == "call" and query.base(n).startswith("operator bool") and n.get("o") is not None:
            return {self.key(n["o"])} if truth else set()
        if k == "var" and n.get("d") in self.mine and depth < 3 and not n.get("ptr"):
            ds = [e for b in self.f["B"].values() for e in b["e"]
                  if e.get("decl") and e.get("d") == n["d"]]
            if len(ds) == 1 and ds[0].get("i") is not None and not any(
                    m["k"] == "assign" and self.nodes[m["x"]].get("d") == n["d"]
                    for m in self.nodes.values()):
                return self.told(ds[0]["i"], truth, depth + 1)
        if k == "call" and n.get("u") in self.prog.functions and depth < 3 and n.get("ki") == "bool":
            return self.answers(n, 1, truth, depth)
        return set()

    def plain1(self, i):
        n = self.nodes.get(i, {})
        while n.get("k") == "cast":
            i = n["e"]
            n = self.nodes.get(i, {})
        return i

    def value(self, i):
        """The constant that i is."""
        n = self.nodes.get(self.plain1(i), {})
        if n.get("k") in ("enum", "bool", "int"):
            v = n.get("cv", n.get("v"))
            return int(v) if v is not None else None
        return None

    def answers(self, n, value, same, depth, suits=None):
        """What is there when a call returns a value (same), or another one, or one that suits."""
        out = None
        for v, facts, z in returned(self.prog, n["u"], depth):
            c = z.value(v)
            if suits is not None:
                if c is not None and not suits(c):
                    continue
            elif c is not None and (c == value) != same:
                continue
            if c is None and z.nodes.get(v, {}).get("ki") == "bool" and value in (0, 1):
                facts = facts | z.told(v, same == bool(value), depth + 1)
            out = set(facts) if out is None else out & facts
        g = self.prog.functions[n["u"]]
        return set(t for t in (self.outside(n, g, k) for k in out or ()) if t is not None)

    def outside(self, n, g, k):
        """What key k of the called g is at the call."""
        if isinstance(k, tuple) and k and k[0] == "call" and len(k) == 3:
            x = self.outside(n, g, k[2])
            return None if x is None else (k[0], k[1], x)
        if not isinstance(k, tuple) or not k or k[0] not in ("f", "d", "a", "v", "this"):
            return None
        r = root(k)
        if r == ("this",):
            if n.get("o") is None:
                return None
            o = self.nodes.get(strip(self, n["o"]), {})
            p = self.path(n["o"])
            if p is None:
                return None
            if not n.get("arrow") and o.get("k") != "this":
                p = p[1] if p[0] == "d" else ("a", p)
        elif r[0] == "v":
            j = next((j for j, p in enumerate(g["params"]) if p["d"] == r[1]), None)
            if j is None:
                return k
            if j >= len(n.get("a", [])):
                return None
            p = text(self, strip1(self, n["a"][j]))
            if k == r:
                return p
            if p[0] not in ("f", "d", "a", "v", "this", "g"):
                return None
        else:
            return k
        return put(k, r, p)

    # ------------------------------------------------------------ flow
    def flow(self):
        self.linked = {}
        self.flow1()
        self.linked = self.numbers()
        if self.linked:
            self.flow1()

    def numbers(self):
        """Numbers that are only computed where some pointers are there."""
        out = {}
        cand = set(e["d"] for b in self.f["B"].values() for e in b["e"]
                   if e.get("decl") and e.get("ki") == "fp" and "d" in e and not e.get("ref"))
        for b in self.in_:
            facts = set(self.in_[b])
            for e in self.f["B"][b]["e"]:
                n = self.nodes.get(e.get("n"), {})
                d, i = (e["d"], e.get("i")) if e.get("decl") and "d" in e else \
                    (self.nodes[n["x"]].get("d"), n["y"]) if n.get("k") == "assign" else (None, None)
                for more in self.worked(i) if d in cand and i is not None else ():
                    mine = set(k for k in facts | more if k[0] == "v" and k[1] in self.mine)
                    out[d] = out[d] & mine if d in out else mine
                facts = self.after(facts, e)
        again = set(self.nodes[n["x"]].get("d") for n in self.nodes.values() if n["k"] == "assign")
        out = {d: set(k for k in ks if k[1] not in again) for d, ks in out.items()}
        return {d: ks for d, ks in out.items() if ks}

    def worked(self, i):
        """Pointers that are asked for where number i is computed, for each way it is (none: 0)."""
        n = self.nodes.get(self.plain1(i), {})
        if n.get("k") in ("int", "fp"):
            return []
        if n.get("k") == "cond":
            return [self.told(n["c"], True) | t for t in self.worked(n["x"])] + \
                [self.told(n["c"], False) | t for t in self.worked(n["y"])]
        return [set()]

    def greater(self, c, truth):
        """Pointers that are there because a number computed of them is the greater one."""
        n = self.nodes.get(self.plain1(c), {})
        if n.get("k") == "var" and n.get("ki") == "bool" and n.get("d") in self.mine:
            ds = [e for b in self.f["B"].values() for e in b["e"]
                  if e.get("decl") and e.get("d") == n["d"]]
            if len(ds) == 1 and ds[0].get("i") is not None and not any(
                    m["k"] == "assign" and self.nodes[m["x"]].get("d") == n["d"]
                    for m in self.nodes.values()):
                n = self.nodes.get(self.plain1(ds[0]["i"]), {})
        if n.get("k") == "call":
            xs, op = n.get("a", []), query.base(n)
        elif n.get("k") == "bin":
            xs, op = [n["x"], n["y"]], n["op"]
        else:
            return set()
        more = op in ("larger", "equalOrLarger", ">", ">=")
        less = op in ("smaller", "equalOrSmaller", "<", "<=")
        if len(xs) < 2 or not more and not less:
            return set()
        x = self.nodes.get(self.plain1(xs[0 if more == truth else 1]), {})
        return self.linked.get(x.get("d"), set()) if x.get("k") == "var" else set()

    def flow1(self):
        f = self.f
        self.in_ = {f["entry"]: set(self.given)}
        work = [f["entry"]]
        n = 0
        while work:
            b = work.pop()
            n += 1
            if n > 20000:
                return
            facts = set(self.in_[b])
            for e in f["B"][b]["e"]:
                facts = self.after(facts, e)
            for s, x in self.out(b, facts):
                if s not in self.in_:
                    self.in_[s] = set(x)
                    work.append(s)
                elif self.in_[s] - x:
                    self.in_[s] &= x
                    work.append(s)

    def out(self, b, facts):
        B = self.f["B"][b]
        c, succ = B.get("c"), B["s"]
        two = c is not None and len(succ) == 2 and B.get("tk") != "SwitchStmt"
        for s, truth in zip(succ, (True, False) if two else (None,) * len(succ)):
            if s is None or s < 0:
                continue
            if truth is not None and self.never(facts, c, truth):
                continue
            if truth is None:
                L = self.f["B"][s]
                if B.get("tk") == "SwitchStmt" and c is not None:
                    t = set()
                    if L.get("label") == "case" and "cv" in L:
                        t = self.chosen(facts, c, int(L["cv"]), True)
                    else:
                        for q in succ:
                            M = self.f["B"].get(q, {})
                            if M.get("label") == "case" and "cv" in M:
                                t |= self.chosen(facts, c, int(M["cv"]), False)
                    yield s, self.close(facts | t)
                else:
                    yield s, facts
                continue
            t = self.told(c, truth) | self.greater(c, truth)
            n = self.nodes.get(c, {})
            if n.get("k") == "bin" and n["op"] in ("==", "!="):
                for x, y in ((n["x"], n["y"]), (n["y"], n["x"])):
                    v = self.value(y)
                    if v is not None:
                        t |= self.chosen(facts, x, v, (n["op"] == "==") == truth)
            elif n.get("k") == "var":
                t |= self.chosen(facts, c, 1, truth)
            t |= self.judged(facts, c, truth) | self.counted(facts, c, truth)
            yield s, self.close(facts | t)

    def chosen(self, facts, x, v, same, suits=None):
        """What is there when x, a call or what one has returned, is v, or is not, or suits."""
        m = self.nodes.get(self.plain1(x), {})
        if m.get("k") == "call" and m.get("u") in self.prog.functions:
            return self.answers(m, v, same, 0, suits)
        t = set()
        if m.get("k") == "var":
            for q in facts:
                if q[0] == "r" and q[1] == ("v", m.get("d")):
                    t |= self.answers(self.nodes[q[2]], v, same, 0, suits)
        return t

    def judged(self, facts, c, truth):
        """What is there when a function says `truth` of a value that a call has returned."""
        i = c
        n = self.nodes.get(i, {})
        while n.get("k") == "cast" or n.get("k") == "un" and n["op"] == "!":
            truth = truth if n["k"] == "cast" else not truth
            n = self.nodes.get(n["e"], {})
        if n.get("k") != "call" or n.get("u") not in self.prog.functions or n.get("ki") != "bool":
            return set()
        g = self.prog.functions[n["u"]]
        t = set()
        for j, a in enumerate(n.get("a", [])):
            if n.get("pm", "")[j:j + 1] in ("v", "c", "") and j < len(g["params"]) and \
                    g["params"][j].get("ki") in ("int", "uint", "bool"):
                t |= self.chosen(facts, a, None, None,
                                 lambda v, j=j: said(self.prog, n["u"], j, v) in (None, truth))
        return t

    def counted(self, facts, c, truth):
        """Pointers that are there whenever a number is not 0, if the condition says so."""
        k = self.nonzero(c, truth)
        return set() if k is None else set(q[1] for q in facts if q[0] == "nz" and q[2] == k)

    def nonzero(self, c, truth):
        """The unsigned number that is not 0 when the condition is `truth`."""
        n = self.nodes.get(c, {})
        while n.get("k") == "cast" and n.get("ki") == "bool" or n.get("k") == "un" and n["op"] == "!":
            truth = truth if n["k"] == "cast" else not truth
            n = self.nodes.get(n["e"], {})
        x = None
        if n.get("k") == "bin" and n["op"] in ("==", "!=", "<", "<=", ">", ">="):
            for a, b, op in ((n["x"], n["y"], n["op"]),
                             (n["y"], n["x"], {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(
                                 n["op"], n["op"]))):
                v = self.value(b)
                if (op, v, truth) in (("==", 0, False), ("!=", 0, True), (">", 0, True),
                                      (">=", 1, True), ("<", 1, False), ("<=", 0, False)):
                    x = a
        elif n.get("k") in ("var", "member") and truth:
            x = next(i for i, m in self.nodes.items() if m is n)
        if x is None:
            return None
        y = self.plain1(x)
        if self.nodes[y].get("ki") != "uint":
            return None
        p = self.path(y)
        return p if p is not None and p[0] == "v" else None

    def close(self, facts):
        """Variables that are the same point to something together."""
        for q in [q for q in facts if q[0] == "="]:
            if q[1] in facts:
                facts = facts | {q[2]}
            elif q[2] in facts:
                facts = facts | {q[1]}
        return facts

    def result(self, facts, d, i):
        n = self.nodes.get(self.plain1(i), {})
        if n.get("k") == "call" and n.get("u") in self.prog.functions and n.get("ki") in ("int", "uint", "enum", "bool", None):
            facts = facts | {("r", ("v", d), self.plain1(i))}
        return facts

    def never(self, facts, c, truth):
        """Can the condition not be `truth`?"""
        t = self.told(c, not truth)
        n = self.nodes.get(c, {})
        while n.get("k") == "cast" or n.get("k") == "un" and n["op"] == "!":
            n = self.nodes.get(n["e"], {})
        return len(t) == 1 and t <= facts and not self.told(c, truth) and \
            not (n.get("k") == "bin" and n["op"] in ("&&", "||")) and \
            (n.get("k") != "call" or query.base(n).startswith("operator bool")) and \
            not (n.get("k") == "var" and not n.get("ptr"))

    def after(self, facts, e):
        if e.get("decl") and "d" in e:
            k = ("v", e["d"])
            facts = set(x for x in facts if not has(x, k))
            if (e.get("ptr") or e.get("t", "").replace("const ", "").startswith(SMART)) and e.get("i") is not None:
                if self.there(facts, e["i"]):
                    facts.add(k)
                p = text(self, strip1(self, e["i"]))
                if (p[0] in ("f", "v", "d") or p[0] == "call" and p[1].split("::")[-1] in NOTHING) \
                        and not has(p, k):
                    facts.add(("=", k, p))
                c = self.nodes.get(self.plain1(e["i"]), {})
                if c.get("k") == "cond":
                    # there exactly if a number is not 0
                    for truth, x in ((True, c["x"]), (False, c["y"])):
                        q = self.nonzero(c["c"], truth)
                        if q is not None and self.there(facts, x):
                            facts.add(("nz", k, q))
            elif e.get("i") is not None and not e.get("ref"):
                facts = self.result(facts, e["d"], e["i"])
            return self.close(facts)
        i = e.get("n")
        if i is None or e.get("decl"):
            return facts
        n = self.nodes[i]
        k = n["k"]
        if k == "assign" or k == "call" and n.get("op") == "=" and not n.get("own"):
            if k == "assign":
                x, y = n["x"], n["y"]
            else:
                al = ([n["o"]] if n.get("o") is not None else []) + n.get("a", [])
                if len(al) != 2:
                    return facts
                x, y = al
            good = n.get("op") == "=" and pointer(self.nodes.get(x, {})) and self.there(facts, y)
            p = self.path(x)
            if p is not None:
                facts = set(t for t in facts if not touches(t, p))
                if good:
                    facts.add(p)
                if p[0] == "v" and n.get("op") == "=":
                    if self.nodes.get(x, {}).get("ptr"):
                        q = text(self, strip1(self, y))
                        if q[0] in ("f", "v", "d") and not has(q, p):
                            facts.add(("=", p, q))
                    else:
                        facts = self.result(facts, p[1], y)
            return self.close(facts)
        if k == "un" and n["op"] in ("++", "--"):
            p = self.path(n["e"])
            return set(q for q in facts if q[0] != "nz" or p is None or not has(q, p))
        p = followed(self, i, n)
        if p is not None:
            facts = self.close(facts | {self.key(p)})
        if k == "call" and n.get("u") in self.mods:
            flds, outer = self.mods[n["u"]][0], self.mods[n["u"]][1]
            if flds or outer:
                facts = set(t for t in facts if not any(
                    self.among(x, flds) or x[0] == "v" and x[1] in outer
                    for x in parts(t)))
        if k in ("call", "construct"):
            for j, a in enumerate(n.get("a", [])):
                if n.get("pm", "")[j:j + 1] in ("m", "p"):
                    q = self.path(a)
                    if q is None:
                        continue
                    q = q[1] if q[0] == "a" else q if n["pm"][j] == "m" else None
                    if q is None or n.get("u") in self.mods and j not in self.mods[n["u"]][2]:
                        continue
                    facts = set(t for t in facts if not touches(t, q))
        return facts


def stored(z):
    """(place, container, value) of every pointer that is put into a list or a map."""
    for i, n in sorted(z.nodes.items()):
        if n["k"] == "call" and n.get("o") is not None and query.base(n) in (
                "push_back", "emplace_back", "push") and len(n.get("a", [])) == 1:
            if pointer(z.nodes.get(n["a"][0], {})) or z.nodes.get(strip1(z, n["a"][0]), {}).get("k") == "null":
                yield i, n["o"], n["a"][0]
        elif n["k"] == "assign" and n.get("op") == "=":
            m = z.nodes.get(n["x"], {})
            if m.get("k") == "call" and query.base(m) in ("operator[]", "at") and m.get("ptr"):
                yield i, m["o"], n["y"]


def holes(prog):
    """Lists into which nothing is put in place of something."""
    if not hasattr(prog, "_holes"):
        prog._holes = set()
        out = set()
        for f in prog.functions.values():
            z = Nulls(prog, f)
            sites = {i: (o, v) for i, o, v in stored(z)}
            if not sites:
                continue
            z.given = set(demands(prog, f["u"]))
            z.flow()
            for b in z.in_:
                facts = set(z.in_[b])
                for e in f["B"][b]["e"]:
                    if e.get("n") in sites and not e.get("decl"):
                        o, v = sites[e["n"]]
                        if not z.there(facts, v):
                            m = z.nodes.get(strip(z, o), {})
                            if m.get("k") in ("member", "var"):
                                out.add((m["k"], m.get("d", m["name"])))
                    facts = z.after(facts, e)
        prog._holes = out
        for k in ("_nullable", "_returned", "_demands"):
            prog.__dict__.pop(k, None)
    return prog._holes


def dropped(prog):
    """Fields of objects that are set to nothing while the program runs."""
    if not hasattr(prog, "_dropped"):
        prog._dropped = set()
        for f in prog.functions.values():
            if not f.get("ctor"):
                z = Zones(prog, f)
                for n in z.nodes.values():
                    m = z.nodes.get(n.get("x"), {}) if n["k"] == "assign" else {}
                    if m.get("k") == "member" and m.get("ptr") and \
                            z.nodes.get(strip(z, n["y"]), {}).get("k") == "null":
                        prog._dropped.add(m["name"])
    return prog._dropped


def strip1(z, i):
    n = z.nodes.get(i, {})
    while n.get("k") == "construct" and len(n.get("a", [])) == 1:
        i = n["a"][0]
        n = z.nodes.get(i, {})
    return i


def parts(t):
    if isinstance(t, tuple) and t and isinstance(t[0], str):
        yield t
        for x in t[1:]:
            yield from parts(x)


def has(t, k):
    return any(x == k for x in parts(t))


def touches(t, p):
    """May assigning to p change what t denotes?"""
    return any(x == p or p[0] == "f" and x[0] == "f" and x[2] == p[2] for x in parts(t))


def put(k, r, p):
    if k == r:
        return p
    b = put(k[1], r, p)
    if k[0] == "d" and b[0] == "a" or k[0] == "a" and b[0] == "d":
        return b[1]
    return (k[0], b) + k[2:]


def followed(z, i, n):
    """The pointer that expression i follows."""
    k = n["k"]
    if k == "member" and n.get("arrow"):
        return n["b"]
    if k == "un" and n["op"] == "*" and z.nodes[n["e"]].get("ptr"):
        return n["e"]
    if k == "call" and n.get("arrow") and n.get("o") is not None:
        return n["o"]
    if k == "call" and n.get("op") in ("->", "*") and n.get("o") is not None and \
            n.get("cls", "").startswith(SMART):
        return n["o"]
    return None


def failing(f):
    """Blocks in which an assertion fails."""
    out = set()
    for b, B in f["B"].items():
        for e in B["e"]:
            n = f["nodes"].get(e.get("n"), {})
            if n.get("k") == "call" and query.base(n) == "__assert_fail":
                out.add(b)
    return out


def nullable(prog, u, depth=0, given=None):
    """May the function return nothing?"""
    memo = prog.__dict__.setdefault("_nullable", {})
    u0, u = u, u if given is None else (u, given)
    if u in memo:
        return memo[u]
    if given is not None and not given:
        return True
    memo[u] = False
    f = prog.functions[u0]
    if "*" not in f.get("ret", "") and not f.get("ret", "").startswith(SMART) or depth > 6:
        return False
    z = Nulls(prog, f, given or ())
    z.flow()
    res = False
    for b in z.in_:
        facts = set(z.in_[b])
        for e in f["B"][b]["e"]:
            if e.get("ret") and e.get("v") is not None and not z.there(facts, e["v"], depth + 1):
                res = True
            facts = z.after(facts, e)
    memo[u] = res
    return res


def asserted(prog, f):
    """[(line, condition, block)] of the assertions of a function."""
    fails = failing(f)
    out = []
    for b, B in sorted(f["B"].items()):
        c = B.get("c")
        if c is None:
            continue
        for s, truth in zip(B["s"], (True, False)):
            if s in fails:
                out.append((f["nodes"][c].get("l"), c, b, not truth))
    return out


def returned(prog, u, depth=0):
    """[(value, facts, z)] of the places where a function returns."""
    memo = prog.__dict__.setdefault("_returned", {})
    if u not in memo:
        memo[u] = []
        f = prog.functions[u]
        z = Nulls(prog, f)
        z.flow()
        res = []
        for b in z.in_:
            facts = set(z.in_[b])
            for e in f["B"][b]["e"]:
                if e.get("ret") and e.get("v") is not None:
                    res.append((e["v"], frozenset(k for k in facts if z.mine.isdisjoint(
                        x[1] for x in parts(k) if x[0] == "v")), z))
                facts = z.after(facts, e)
        memo[u] = res
    return memo[u]


def said(prog, u, j, v):
    """What a function of one number answers for the number v, if it is told by that alone."""
    memo = prog.__dict__.setdefault("_said", {})
    if (u, j, v) in memo:
        return memo[u, j, v]
    f = prog.functions[u]
    d = f["params"][j]["d"]
    nodes = f["nodes"]

    def val(i):
        n = nodes.get(i, {})
        k = n.get("k")
        if k == "cast":
            return val(n["e"])
        if k in ("enum", "bool", "int"):
            x = n.get("cv", n.get("v"))
            return None if x is None else int(x)
        if k == "var" and n.get("d") == d:
            return v
        if k == "un" and n["op"] == "!":
            x = val(n["e"])
            return None if x is None else int(not x)
        if k == "bin":
            x, y = val(n["x"]), val(n["y"])
            if n["op"] == "&&":
                return 0 if x == 0 or y == 0 else None if x is None or y is None else 1
            if n["op"] == "||":
                return 1 if x or y else None if x is None or y is None else 0
            if x is None or y is None:
                return None
            return {"==": int(x == y), "!=": int(x != y), "<": int(x < y), "<=": int(x <= y),
                    ">": int(x > y), ">=": int(x >= y)}.get(n["op"])
        if k == "cond":
            c = val(n["c"])
            return None if c is None else val(n["x"] if c else n["y"])
        return None
    res = None
    b = f["entry"]
    if not any(n["k"] == "assign" or n["k"] == "un" and n["op"] in ("++", "--", "&")
               for n in nodes.values()):
        for _ in range(60):
            B = f["B"][b]
            r = next((e for e in B["e"] if e.get("ret")), None)
            if r is not None:
                x = val(r["v"]) if r.get("v") is not None else None
                res = None if x is None else bool(x)
                break
            succ = B["s"]
            if B.get("c") is not None and len(succ) > 1:
                c = val(B["c"])
                if c is None:
                    break
                if B.get("tk") == "SwitchStmt":
                    to = other = None
                    for s in succ:
                        S = f["B"].get(s, {})
                        if S.get("label") == "case" and "cv" in S:
                            to = s if int(S["cv"]) == c else to
                        else:
                            other = s
                    b = to if to is not None else other
                else:
                    b = succ[0 if c else 1]
            elif succ:
                b = succ[0]
            else:
                break
            if b is None:
                break
    memo[u, j, v] = res
    return res


def demands(prog, u):
    """Parameters and links that a function follows or asserts without asking."""
    memo = prog.__dict__.setdefault("_demands", {})
    if u in memo:
        return memo[u]
    memo[u] = set()
    f = prog.functions[u]
    z = Nulls(prog, f)
    ks = set()
    for l, c, b, want in asserted(prog, f):
        ks |= z.told(c, want)
    z.given = set(ks)
    z.flow()
    fails = failing(f)

    def need(t, facts):
        if t is None or t in facts:
            return
        for q in facts:
            if q[0] == "=" and q[1] == t:
                t = q[2]
        if t not in facts and (
                t[0] == "v" and t[1] in z.params or t[0] == "f" and (
                    t[2] in LINKS or t[2] in dropped(prog))):
            ks.add(t)

    for b in sorted(z.in_):
        if b in fails:
            continue
        facts = set(z.in_[b])
        for e in f["B"][b]["e"]:
            i = e.get("n")
            if i is not None and not e.get("decl"):
                n = z.nodes[i]
                p = followed(z, i, n)
                if p is not None:
                    need(text(z, strip1(z, p)), facts)
                if n["k"] in ("call", "construct") and n.get("u") in prog.functions and \
                        n["u"] != u:
                    for q in demands(prog, n["u"]):
                        need(z.outside(n, prog.functions[n["u"]], q), facts)
            facts = z.after(facts, e)
    memo[u] = set(k for k in ks if k[0] in ("v", "f") and (
        root(k) == ("this",) or root(k)[0] == "v" and root(k)[1] in z.params) and not any(
        x[0] not in ("v", "f", "d", "a", "this") for x in parts(k)))
    return memo[u]


def run(prog, r, tier):
    r.rule("follow", "a pointer is only followed where it is known to point to something", 1)
    r.rule("call", "a function that follows or asserts what it is given is only called with "
           "something that is there", 1)
    r.rule("made", "a link that is followed without asking is set where the element is made", 1)
    r.rule("assert", "a condition that is asserted holds where it is asserted, or is demanded from "
           "every caller", 1)
    r.assumptions += [
        "fields that are no optional link (document, position, the lists and their elements) are set",
        "the libraries return nothing only from functions known for it",
        "what the program's entry points are given is there, and no path is empty",
        "a page on which something has been found can be loaded again",
        "a number computed for something that is there is not below zero; it is compared with no "
        "number below zero",
        "what the model of the semantic roles answers has the shape it was trained with"]
    made(prog, r)
    seen = {}
    for u, f in sorted(prog.functions.items(), key=lambda x: (x[1]["name"], x[0])):
        z = Nulls(prog, f)
        need = {i: followed(z, i, n) for i, n in z.nodes.items() if followed(z, i, n) is not None}
        z.given = set(k for k in demands(prog, u))
        z.flow()
        if not callers(prog).get(u):
            for k in sorted(z.given, key=repr):
                if k[0] == "f" and (k[2] in LINKS or k[2] in dropped(prog)) or k[0] == "v" and z.optional(k):
                    r.bad("follow", "%s: given %s" % (f["name"].replace("ppp::", ""), label(f, k)),
                          "%s: %s:%s: %s is followed, and may be missing" % (
                              f["name"], f["file"], f.get("line", f.get("l")), label(f, k)))
        fails = failing(f)
        for b in sorted(z.in_):
            if b in fails:
                continue
            facts = set(z.in_[b])
            for e in f["B"][b]["e"]:
                i = e.get("n")
                if i is not None and not e.get("decl"):
                    n = z.nodes[i]
                    if i in need:
                        site(z, r, seen, "follow", f, n, need[i], facts, z.there(facts, need[i]))
                    if n["k"] in ("call", "construct") and n.get("u") in prog.functions and \
                            n["u"] != u:
                        called(prog, z, r, seen, f, n, facts)
                facts = z.after(facts, e)
        asserts(prog, z, r, seen, f)


def name(z, i):
    i = strip(z, i)
    n = z.nodes.get(i, {})
    k = n.get("k")
    if k in ("var", "member"):
        return n.get("name", "?")
    if k == "call":
        return query.base(n) + "()"
    return k or "?"


def label(f, k):
    return k[2] if k[0] == "f" else next((p["name"] for p in f["params"] if p["d"] == k[1]), "?")


def site(z, r, seen, kind, f, n, i, facts, good):
    what = name(z, i)
    c = seen[f["name"], kind, what] = seen.get((f["name"], kind, what), 0) + 1
    r.analysed.add(f["name"])
    r.ob(kind, "%s: %s %d" % (f["name"].replace("ppp::", ""), what, c), good,
         "%s: %s:%s: %s is followed, and may be missing" % (f["name"], f["file"], n.get("l"), what))


def called(prog, z, r, seen, f, n, facts):
    g = prog.functions[n["u"]]
    for k in sorted(demands(prog, n["u"]), key=repr):
        if k[0] == "v":
            j = next((j for j, p in enumerate(g["params"]) if p["d"] == k[1]), None)
            if j is None or j >= len(n.get("a", [])):
                continue
            good = z.there(facts, n["a"][j])
            what = g["params"][j]["name"]
        else:
            t = z.outside(n, g, k)
            if t is None:
                continue
            if t[0] == "f" and t[2] not in LINKS and t[2] not in dropped(prog):
                good = True
            else:
                good = t in facts
            what = k[-1] if k[0] == "f" else "?"
        c = seen[f["name"], g["name"], what] = seen.get((f["name"], g["name"], what), 0) + 1
        r.analysed.add(f["name"])
        r.ob("call", "%s -> %s: %s %d" % (f["name"].replace("ppp::", ""), query.short(g["name"]),
                                          what, c), good,
             "%s: %s:%s: %s needs %s, which may be missing" % (
                 f["name"], f["file"], n.get("l"), query.short(g["name"]), what))


def asserts(prog, z, r, seen, f):
    """Assertions about sizes and numbers."""
    for l, c, b, want in asserted(prog, f):
        if z.told(c, want):
            n = z.nodes.get(c, {})
            ks = z.told(c, want)
            good = all(k in demands(prog, f["u"]) or k in z.in_.get(b, ()) or
                       k[0] == "f" and k[2] not in LINKS and k[2] not in dropped(prog) for k in ks)
        else:
            if model(z, c) or path(prog, z, c, want, f):
                continue
            fails = failing(f)
            s = next(s for s in f["B"][b]["s"] if s in fails)
            zz = Zones(prog, f)
            good = zz.run() and s not in zz.at
            if not good:
                zz = Zones(prog, f)
                zz.entry = list(entries(prog, f, inputs(zz))) + [
                    (("0",), ("i", ("v", p["d"])), 0) for p in f["params"] if p.get("ki") == "uint"]
                good = bool(zz.entry) and zz.run() and s not in zz.at
            if not good:
                good = filled(prog, f, z, c, want)
        k = seen[f["name"], "assert"] = seen.get((f["name"], "assert"), 0) + 1
        r.ob("assert", "%s: %d" % (f["name"].replace("ppp::", ""), k), good,
             "%s: %s:%s: the assertion may fail" % (f["name"], f["file"], l))


def model(z, c):
    """Is the condition about what a model answered?"""
    work, seen = [c], set()
    while work:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        n = z.nodes.get(i, {})
        if n.get("k") == "call" and "cppflow" in n.get("fn", "") + n.get("cls", ""):
            return True
        if n.get("k") == "var":
            work += [e["i"] for b in z.f["B"].values() for e in b["e"]
                     if e.get("decl") and e.get("d") == n.get("d") and e.get("i") is not None]
        work += list(query.kids(n)) if hasattr(query, "kids") else [
            x for x in [n.get(q) for q in ("b", "e", "o", "x", "y", "c")] + n.get("a", [])
            if isinstance(x, int)]
    return False


def emptiness(z, c, want):
    """The container that is asserted not to be empty."""
    n = z.nodes.get(c, {})
    while n.get("k") == "cast" or n.get("k") == "un" and n["op"] == "!":
        want = want if n["k"] == "cast" else not want
        n = z.nodes.get(n["e"], {})
    if n.get("k") == "call" and query.base(n) == "empty" and not want:
        return n.get("o")
    return None


def path(prog, z, c, want, f):
    """Is the path that an entry point is given asserted to be none that is empty?"""
    o = emptiness(z, c, want)
    n = z.nodes.get(strip(z, o), {}) if o is not None else {}
    return n.get("k") == "member" and "string" in n.get("t", "")


def filled(prog, f, z, c, want):
    """Is every list given as this parameter one of a map that is only ever added to?"""
    o = emptiness(z, c, want)
    d = z.nodes.get(strip(z, o), {}).get("d") if o is not None else None
    j = z.params.get(d)
    sites = callers(prog).get(f["u"], ())
    return j is not None and bool(sites) and all(
        added(Nulls(prog, g), g["nodes"][i]["a"][j]) for g, i in sites if len(g["nodes"][i]["a"]) > j)


def meant(z, i):
    """The node that expression i stands for, through references and structured bindings."""
    n = z.nodes.get(strip(z, i), {})
    for _ in range(8):
        if n.get("k") == "binding":
            n = z.nodes.get(strip(z, n["e"]), {})
            continue
        if n.get("k") != "var":
            break
        ds = [e for B in z.f["B"].values() for e in B["e"]
              if e.get("decl") and e.get("d") == n.get("d")]
        m = z.nodes.get(strip(z, ds[0]["i"]), {}) if len(ds) == 1 and ds[0].get("ref") and \
            ds[0].get("i") is not None else {}
        if m.get("k") not in ("binding", "var", "member") and m.get("fn") != "std::get":
            break
        n = m
    return n


def second(z, n):
    """Expression of the pair that n is the second of."""
    if n.get("k") == "member" and n["name"] == "second":
        return n["b"]
    if n.get("k") == "call" and n.get("fn") == "std::get" and "<#Vl1#" in n.get("u", ""):
        return n["a"][0]
    return None


def added(z, i):
    n = meant(z, i)
    if second(z, n) is None:
        return False
    for _ in range(6):
        b = second(z, n)
        b = meant(z, b) if b is not None else n
        if b.get("k") == "un" or b.get("k") == "call" and b.get("op") == "*":
            b = meant(z, b.get("e", b.get("o")))
        if b.get("k") != "var":
            return False
        ds = [e for B in z.f["B"].values() for e in B["e"] if e.get("decl") and e.get("d") == b["d"]]
        if len(ds) != 1:
            return False
        m = z.nodes.get(strip(z, ds[0]["i"]), {}) if ds[0].get("i") is not None else {}
        if "map" in ds[0].get("t", "").split("<")[0]:
            return grown(z, b["d"])
        if m.get("k") == "un" and m["op"] == "*" or m.get("k") == "call" and m.get("op") == "*":
            q = z.nodes.get(strip(z, m.get("e", m.get("o"))), {})
            r = ranged(z, q)
            if r is None:
                return False
            n = meant(z, r)
            continue
        n = m
    return False


def ranged(z, q):
    """What a loop's iterator runs over."""
    if q.get("k") != "var":
        return None
    for B in z.f["B"].values():
        for e in B["e"]:
            if e.get("decl") and e.get("d") == q["d"] and e.get("i") is not None:
                m = z.nodes.get(strip(z, e["i"]), {})
                if m.get("k") == "call" and query.base(m) in ("begin", "cbegin"):
                    o = z.nodes.get(strip(z, m["o"]), {})
                    if o.get("k") == "var":
                        for B2 in z.f["B"].values():
                            for e2 in B2["e"]:
                                if e2.get("decl") and e2.get("d") == o["d"] and \
                                        e2.get("i") is not None and "__range" in e2.get("name", o.get("name", "")):
                                    return e2["i"]
                    return m["o"]
    return None


def grown(z, d):
    """Is every element of the map that is named added to right there?"""
    used = {}
    for i, n in z.nodes.items():
        if n["k"] == "memfn":
            continue
        for q in ("b", "e", "o", "x", "y"):
            if isinstance(n.get(q), int):
                used.setdefault(n[q], []).append((n, q))
        for a in n.get("a", []):
            used.setdefault(a, []).append((n, "a"))
    for i, n in z.nodes.items():
        if n["k"] == "call" and n.get("op") == "[]" and n.get("o") is not None:
            r = z.nodes.get(strip(z, n["o"]), {})
            while r.get("k") == "call" and r.get("op") == "[]":
                r = z.nodes.get(strip(z, r["o"]), {})
            if r.get("d") != d:
                continue
            if bound(z, i):
                continue
            if not used.get(i) or not all(q == "o" and (m.get("op") == "[]" or query.base(m) in (
                    "push_back", "emplace_back", "insert")) for m, q in used.get(i, [])):
                return False
    return True


def bound(z, i):
    """Is the element given a name, and added to right there?"""
    for B in z.f["B"].values():
        d = None
        for e in B["e"]:
            if e.get("decl") and e.get("ref") and e.get("i") is not None and strip(z, e["i"]) == i:
                d = e["d"]
            n = z.nodes.get(e.get("n"), {})
            if d is not None and n.get("k") == "call" and query.base(n) in (
                    "push_back", "emplace_back", "insert") and \
                    z.nodes.get(strip(z, n.get("o")), {}).get("d") == d:
                return True
    return False


def bases(prog, c):
    out, work = [], [c]
    while work:
        x = work.pop()
        if x not in out:
            out.append(x)
            work += prog.records.get(x, {}).get("bases", [])
    return out


def made(prog, r):
    """Every link of a new element that is followed without asking is set where it is made."""
    uses = set()
    for f in prog.functions.values():
        z = Zones(prog, f)
        for i, n in z.nodes.items():
            p = followed(z, i, n)
            m = z.nodes.get(strip(z, p), {}) if p is not None else {}
            if m.get("k") == "member" and m["name"] not in LINKS and m.get("ptr"):
                t = z.nodes.get(m["b"], {}).get("t", "").replace("const ", "").rstrip(" *&")
                uses.add((t if t in prog.records else m.get("cls"), m["name"]))
    for u, f in sorted(prog.functions.items(), key=lambda x: (x[1]["name"], x[0])):
        for i, n in sorted(f["nodes"].items()):
            if n["k"] != "new" or not n.get("at", "").startswith("ppp::types::"):
                continue
            c = n["at"]
            own = [(b, fl["name"]) for b in bases(prog, c)
                   for fl in prog.records.get(b, {}).get("fields", []) if fl.get("ptr")]
            for b, x in own:
                if not any(name == x and (t == c or t in bases(prog, c)) for t, name in uses):
                    continue
                good = set_by(prog, f["nodes"].get(n.get("e"), {}).get("u"), x) or after(prog, f, i, x)
                r.analysed.add(f["name"])
                r.ob("made", "%s: %s of a new %s" % (f["name"].replace("ppp::", ""), x, query.short(c)),
                     good, "%s: %s:%s: %s of the new %s is not set on every path, and is followed" % (
                         f["name"], f["file"], n.get("l"), x, query.short(c)))


def set_by(prog, u, x, depth=0):
    """Does the constructor set field x?"""
    f = prog.functions.get(u)
    if f is None or depth > 4:
        return False
    z = Nulls(prog, f)
    z.flow()
    for b in sorted(z.in_):
        for e in f["B"][b]["e"]:
            if e.get("init") and e.get("field") == x and e.get("v") is not None and \
                    z.there(set(z.in_[b]), e["v"]):
                return True
            if e.get("init") and e.get("base") and e.get("v") is not None and \
                    set_by(prog, f["nodes"].get(e["v"], {}).get("u"), x, depth + 1):
                return True
    return ("f", ("d", ("this",)), x) in z.in_.get(f["exit"], ())


def after(prog, f, i, x):
    """Is field x of what expression i makes set on every path?"""
    z = Nulls(prog, f)
    z.flow()
    out, work, seen = True, [], set()
    for b in z.in_:
        for j, e in enumerate(f["B"][b]["e"]):
            if e.get("n") == i and not e.get("decl"):
                work.append((b, j + 1))
    if not work:
        return False
    d = None
    for b, B in f["B"].items():
        for e in B["e"]:
            if e.get("decl") and e.get("i") is not None and strip(z, e["i"]) == i:
                d = ("v", e["d"])
            n = f["nodes"].get(e.get("n"), {})
            if n.get("k") == "assign" and strip(z, n["y"]) == i:
                d = z.path(n["x"])
    if d is None:
        return False
    want = ("f", ("d", d), x)
    while work:
        b, j = work.pop()
        facts = set(z.in_.get(b, ()))
        done = False
        for q, e in enumerate(f["B"][b]["e"]):
            n = f["nodes"].get(e.get("n"), {})
            if q >= j and not e.get("decl") and n.get("k") == "assign" and \
                    z.path(n["x"]) == want and (z.there(facts, n["y"]) or
                                                given(prog, f, z, n["y"])):
                done = True
                break
            if q >= j and not e.get("decl") and n.get("k") == "call" and n.get("u") in prog.functions:
                for k, a in enumerate(n.get("a", [])):
                    ps = prog.functions[n["u"]]["params"]
                    if z.path(a) == d and k < len(ps) and sets(prog, n["u"], ps[k]["d"], x):
                        done = True
                if done:
                    break
            facts = z.after(facts, e)
        if done:
            continue
        if b == f["exit"]:
            return False
        for s, _ in z.out(b, facts):
            if (s, 0) not in seen:
                seen.add((s, 0))
                work.append((s, 0))
    return True


def sets(prog, u, d, x):
    """Does the function set field x of what its parameter points to?"""
    f = prog.functions[u]
    z = Nulls(prog, f)
    z.flow()
    return ("f", ("d", ("v", d)), x) in z.in_.get(f["exit"], ()) and any(
        n["k"] == "assign" and z.path(n["x"]) == ("f", ("d", ("v", d)), x) for n in z.nodes.values())


def given(prog, f, z, i):
    """Is i a parameter for which every caller gives something that is there?"""
    d = z.nodes.get(strip1(z, i), {}).get("d")
    if d not in z.params:
        return False
    sites = callers(prog).get(f["u"], ())
    for g, c in sites:
        y = Nulls(prog, g, demands(prog, g["u"]))
        y.flow()
        for b in y.in_:
            facts = set(y.in_[b])
            for e in g["B"][b]["e"]:
                if e.get("n") == c and not e.get("decl"):
                    a = g["nodes"][c].get("a", [])
                    if len(a) <= z.params[d] or not y.there(facts, a[z.params[d]]):
                        return False
                facts = y.after(facts, e)
    return bool(sites)

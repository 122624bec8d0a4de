"""C15: nothing outside a list, a text or a table is read or changed."""
from .. import query
from ..zone import Zones, ZERO, callers, comps, entries, inputs
from .c14 import under, stripped

SEQ = ("std::vector", "std::basic_string", "std::deque", "std::array", "std::basic_string_view",
       "std::span")
TAKE = {"front", "back", "top", "pop_back", "pop", "pop_front"}
NUMBERS = {"stoi", "stol", "stoll", "stoul", "stoull", "stod", "stof", "stold"}
# classes whose indices come from a trained model
MODEL = ("ppp::utils::BytePairEncoder", "ppp::modules::SemanticRolesPrediction")


def sequence(n):
    return n.get("cls", "").startswith(SEQ)


def obligation(z, i, n):
    """(kind, text) of what expression i needs, or None."""
    k = n["k"]
    if k == "call" and n.get("o") is not None and not n.get("own"):
        b = query.base(n)
        if b in TAKE and "stream" not in n.get("cls", "") and "std::" in n.get("cls", ""):
            return "element", b
        if n.get("op") == "[]" and sequence(n):
            return "index", "[]"
        if b == "at" and n.get("a"):
            return ("index", "at") if sequence(n) else ("key", "at")
        if b == "substr" and n.get("a"):
            return "part", "substr"
    if k == "call" and n.get("op") == "[]" and n.get("own") is None and n.get("o") is None and \
            len(n.get("a", [])) == 2 and sequence(n):
        return "index", "[]"
    if k == "sub" and n.get("n"):
        return "index", "array"
    if k == "sub" and not n.get("n") and buffer(z, n["b"]) is not None:
        return "index", "buffer"
    if k in ("bin", "assign") and n.get("op") in ("/", "%", "/=", "%="):
        t = n if k == "bin" else z.nodes.get(n["x"], {})
        if t.get("ki") in ("int", "uint"):
            return "division", n["op"]
    if k == "call" and n.get("u") in z.prog.functions and handed(z, n):
        return "part", "buffer"
    if k == "call" and query.base(n) in NUMBERS and n.get("fn", "").startswith("std::"):
        return "number", query.base(n)
    return None


# ------------------------------------------------------------------ buffers
def only(z, d):
    """The initializer of a local variable that is never changed otherwise, and its type."""
    c = z.__dict__.setdefault("_only", {})
    if d not in c:
        i = None
        for B in z.f["B"].values():
            for e in B["e"]:
                if e.get("decl") and e.get("d") == d and not e.get("ref"):
                    i = e.get("i")
        if i is not None and changed(z, d):
            i = None
        c[d] = i
    return c[d]


def changed(z, d):
    """Is a variable assigned, or its address or a reference to it taken?"""
    def me(i):
        n = z.nodes.get(i, {})
        while n.get("k") == "cast":
            n = z.nodes.get(n["e"], {})
        return n.get("k") == "var" and n.get("d") == d
    for n in z.nodes.values():
        k = n["k"]
        if k == "assign" and me(n["x"]) or k == "un" and n["op"] in ("++", "--", "&") and me(n["e"]):
            return True
        if k in ("call", "construct"):
            for j, a in enumerate(n.get("a", ())):
                if me(a) and n.get("pm", "")[j:j + 1] == "m":
                    return True
    return False


def affine(z, i, depth=0):
    """Expression i as (constant, {size or variable: factor}), or None."""
    n = z.nodes.get(i)
    if n is None or depth > 12:
        return None
    if n["k"] == "cast":
        return None if n.get("ki") == "fp" else affine(z, n["e"], depth + 1)
    c = z.const(i)
    if c is not None:
        return c, {}
    if n["k"] == "bin" and n["op"] in "+-*":
        a, b = affine(z, n["x"], depth + 1), affine(z, n["y"], depth + 1)
        if a is None or b is None:
            return None
        if n["op"] == "*":
            if a[1] and b[1]:
                return None
            if a[1]:
                a, b = b, a
            return a[0] * b[0], {k: v * a[0] for k, v in b[1].items()}
        m = 1 if n["op"] == "+" else -1
        d = dict(a[1])
        for k, v in b[1].items():
            d[k] = d.get(k, 0) + m * v
        return a[0] + m * b[0], d
    v = None
    if n["k"] == "var" and n.get("d") is not None:
        j = only(z, n["d"])
        if j is not None:
            v = affine(z, j, depth + 1)
            if v is not None:
                return v
        if changed(z, n["d"]):
            return None
        return 0, {("i", ("v", n["d"])): 1}
    if n["k"] == "call" and n.get("o") is not None and query.base(n) in ("size", "length") and \
            sequence(n):
        ck = z.contkey(n)
        return None if ck is None else (0, {ck: 1})
    return None


def buffer(z, i):
    """The size of the memory a pointer points to, as affine() gives it, or None."""
    n = z.nodes.get(i, {})
    while n.get("k") == "cast":
        n = z.nodes.get(n["e"], {})
    if n.get("k") == "call" and n.get("o") is not None and query.base(n) in ("c_str", "data") and \
            sequence(n):
        ck = z.contkey(n)
        return None if ck is None else (0, {ck: 1})
    if n.get("k") != "var" or n.get("d") is None:
        return None
    d = n["d"]
    j = only(z, d)
    if j is not None:
        m = z.nodes.get(j, {})
        while m.get("k") == "cast":
            m = z.nodes.get(m["e"], {})
        if m.get("k") == "new" and m.get("n") is not None and m.get("n") in z.nodes:
            return affine(z, m["n"])
        return buffer(z, j)
    ps = z.f["params"]
    for k, p in enumerate(ps[:-1]):
        if p.get("d") == d and p.get("ptr") and ps[k + 1].get("ki") in ("int", "uint"):
            q = ps[k + 1]
            if elements(p["t"]) and not changed(z, d) and not changed(z, q["d"]):
                return 0, {("i", ("v", q["d"])): 1}
    for B in z.f["B"].values():
        for e in B["e"]:
            m = z.nodes.get(e.get("i"), {}) if e.get("decl") else {}
            while m.get("k") == "cast":
                m = z.nodes.get(m["e"], {})
            if m.get("k") == "call" and query.base(m) == "strlen" and \
                    z.path(m["a"][0]) == ("v", d) and not changed(z, e["d"]) and not changed(z, d):
                return 0, {("i", ("v", e["d"])): 1}
    return None


def remainder(z, i, depth=0):
    """The divisor, if an expression is the remainder of a division of something not negative."""
    n = z.nodes.get(i, {})
    while n.get("k") == "cast":
        n = z.nodes.get(n["e"], {})
    if n.get("k") == "var" and n.get("d") is not None and depth < 5:
        j = only(z, n["d"])
        return remainder(z, j, depth + 1) if j is not None else None
    if n.get("k") != "bin" or n["op"] != "%":
        return None
    x = z.nodes.get(n["x"], {})
    if x.get("k") == "call" and query.base(x) == "rand" or n.get("ki") == "uint":
        return n["y"]
    return None


def elements(t):
    """Is it a pointer to numbers or characters?"""
    t = t.replace("const", "").replace(" ", "")
    return t in ("char*", "unsignedchar*", "unsignedint*", "int*", "double*", "Unicode*")


def handed(z, n):
    """Calls of a function of the repository with a pointer and the size of what it points to."""
    g = z.prog.functions.get(n.get("u"))
    if g is None or len(g["params"]) != len(n.get("a", ())):
        return None
    ps = g["params"]
    for k, p in enumerate(ps[:-1]):
        if p.get("ptr") and elements(p["t"]) and ps[k + 1].get("ki") in ("int", "uint") and any(
                m["k"] == "sub" and not m.get("n") and g["nodes"].get(m["b"], {}).get("d") == p["d"]
                for m in g["nodes"].values()):
            return n["a"][k], n["a"][k + 1]
    return None


def within(z, s, v, off, size):
    """Is v + off below the size (constant, {term: factor})?"""
    c, d = size
    key, k = v
    k += off
    if not d:
        if key == ZERO:
            return k < c
        x = s.ub(key, ZERO)
        return x is not None and x + k < c
    if len(d) == 1:
        (t, b), = d.items()
        if b == 1:
            x = s.ub(key, t)
            if x is not None and x + k < c:
                return True
        if key == ZERO and b >= 0 and k < c:
            return True
    return stepped(z, s, v, off, size)


def stepped(z, s, v, off, size):
    """The same for a counter that runs along with another one that is bounded."""
    if len(size[1]) != 1:
        return False
    for k in [v[0]] + sorted(s.keys(), key=repr):
        e = s.ub(v[0], k)
        if e is not None and counter(z, k) is not None and \
                runs(z, s, counter(z, k), v[1] + e + off, size):
            return True
    return False


def runs(z, s, me, off, size):
    """Is the counter plus off below the size?"""
    c0, st, blk = me
    (t, B), = size[1].items()
    A = size[0]
    for k in list(s.keys()):
        o = counter(z, k)
        if o is None or o[2] != blk or o[1] < 1 or st < 0:
            continue
        for x in list(s.keys()):
            d = s.ub(k, x)
            if d is None or x == k or x == ZERO:
                continue
            lim = (0, {x: 1})
            if x[0] == "i" and x[1][0] == "v":
                j = only(z, x[1][1])
                lim = affine(z, j) if j is not None else lim
            if lim is None or set(lim[1]) - {t}:
                continue
            b = lim[1].get(t, 0)
            if b % o[1]:
                continue
            q = (lim[0] + d - o[0]) // o[1]
            if st * (b // o[1]) <= B and c0 + st * q + off < A:
                return True
    return False


def sizes(z, s, ck):
    """What the size of a container is known to be at least, as affine() gives it."""
    for x in sorted(s.keys(), key=repr):
        d = s.ub(x, ck)
        if d is not None and x[0] == "i" and x[1][0] == "v":
            j = only(z, x[1][1])
            lim = affine(z, j) if j is not None else None
            if lim is not None:
                yield lim[0] - d, lim[1]


def apart(z, s, k):
    """Is it a counter that runs along with one that steps elsewhere in the turn by another step?"""
    for x in [k] + [x for x in s.keys() if s.ub(k, x) is not None]:
        me = counter(z, x)
        if me is not None and any(o is not None and o[2] != me[2] and o[1] != me[1] for o in
                                  (counter(z, y) for y in s.keys())):
            return True
    return False


def counter(z, k):
    """(start, step, block of the step) of a counter of a loop."""
    if k[0] != "i" or k[1][0] != "v":
        return None
    c = z.__dict__.setdefault("_counter", {})
    if k in c:
        return c[k]
    steps, init = [], None
    for b, B in z.f["B"].items():
        for e in B["e"]:
            n = z.nodes.get(e.get("n"), {})
            if e.get("decl") and ("v", e.get("d")) == k[1]:
                init = z.const(e.get("i")) if e.get("i") is not None else None
            elif n.get("k") == "un" and n["op"] in ("++", "--") and z.path(n["e"]) == k[1]:
                steps.append((b, 1 if n["op"] == "++" else -1))
            elif n.get("k") == "assign" and z.path(n["x"]) == k[1]:
                y = z.const(n["y"])
                steps.append((b, {"+=": y, "-=": -y}.get(n["op"]) if y is not None else None))
    c[k] = None
    if init is not None and len(steps) == 1 and steps[0][1] is not None:
        c[k] = init, steps[0][1], steps[0][0]
    return c[k]


def lower(z, s, i, v):
    """A lower bound of value v of expression i."""
    _, n = stripped(z.f, i)
    if v[0] == ZERO:
        return v[1]
    x = s.ub(ZERO, v[0])
    if x is not None:
        lo = -x + v[1]
        if lo >= 0:
            return lo
    if v[1] == 0 and (n.get("ki") == "uint" or z.nodes.get(i, {}).get("ki") == "uint" and
                      n.get("ki") != "int"):
        return 0
    return -x + v[1] if x is not None else None


def below(s, v, k, slack):
    """v <= size(k) + slack?"""
    if v == (ZERO, 0) and slack >= 0:
        return True
    x = s.ub(v[0], k)
    return x is not None and x + v[1] <= slack


def names(s, v):
    """(name of a field, offset) of fields that hold the value v up to a constant."""
    for k in [v[0]] + [k for k in s.keys() if k[0] == "i"]:
        if k[0] == "i" and k[1][0] == "f":
            if k == v[0]:
                yield k[1][2], v[1]
                continue
            a, b = s.ub(v[0], k), s.ub(k, v[0])
            if a is not None and b is not None and a == -b:
                yield k[1][2], v[1] + a


PAGES = {"pages": -1, "_gfxs": 0}


def paged(z, s, ck, v):
    """The page of an element, in a list with one entry per page."""
    if ck[1][0] != "f" or ck[1][2] not in PAGES:
        return False
    return any(f == "pageNum" and c == PAGES[ck[1][2]] for f, c in names(s, v))


def enumerated(prog, z, n, ck):
    """An enumerator, in a table with one entry per enumerator."""
    _, x = stripped(z.f, n["a"][-1])
    e = None
    for j in under(z.f, n["a"][-1]):
        t = z.nodes[j].get("t", "")
        for q in (t, t.replace("const ", "")):
            if q.strip() in prog.enums:
                e = prog.enums[q.strip()]
    if e is None or ck[1][0] != "g":
        return None
    g = prog.globals.get(ck[1][1]) or next(
        (v for k, v in prog.globals.items() if k.split("::")[-1] == ck[1][1].split("::")[-1]), None)
    if g is None or not g.get("isconst") or g.get("i") is None:
        return None
    sizes = [len(m["a"]) for m in g["nodes"].values() if m["k"] == "initlist"]
    vals = [int(v) for _, v in e["consts"]]
    return bool(sizes) and bool(vals) and max(vals) < max(sizes) and min(vals) >= 0


def parted(z, ck):
    """Words of a text line: lines are made of at least one word (C10)."""
    return ck[1][0] == "f" and ck[1][2] == "words" and ck[1][1][0] == "d"


def decide(prog, z, s, i, n, kind):
    b = query.base(n) if n["k"] == "call" else None
    if kind == "index":
        if n["k"] == "sub" and not n.get("n"):
            v = z.lin(s, n["i"])
            size = buffer(z, n["b"])
            if size is None:
                return None
            m = remainder(z, n["i"])
            if m is not None:               # rand() % n, unsigned % n
                v = z.lin(s, m)
                return v is not None and within(z, s, v, -1, size)
            if v is None:
                return None
            lo = lower(z, s, n["i"], v)
            return lo is not None and lo >= 0 and within(z, s, v, 0, size)
        if n["k"] == "sub":
            v = z.lin(s, n["i"])
            if v is None:
                return False
            lo = lower(z, s, n["i"], v)
            hi = v[1] if v[0] == ZERO else (s.ub(v[0], ZERO) + v[1]
                                            if s.ub(v[0], ZERO) is not None else None)
            if hi is None:
                hi = limited(z, n["i"])
                if hi is not None:
                    lo = 0
            return lo is not None and lo >= 0 and hi is not None and hi <= n["n"] - 1
        ck = z.contkey(n)
        a = n["a"][-1]
        if ck is not None and enumerated(prog, z, n, ck):
            return True
        v = z.lin(s, a)
        if v is None or ck is None:
            return None if ck is None else False
        lo = lower(z, s, a, v)
        slack = 0 if n.get("cls", "").startswith("std::basic_string<") and b != "at" or \
            (n.get("cls") == "std::basic_string" and b != "at") else -1
        if lo is not None and lo >= 0 and below(s, v, ck, slack):
            return True
        if paged(z, s, ck, v):
            return True
        if v == (ZERO, 0) and parted(z, ck):
            return True
        if lo is not None and lo >= 0 and (stepped(z, s, v, -1 - slack, (0, {ck: 1})) or any(
                within(z, s, v, -1 - slack, size) for size in sizes(z, s, ck))):
            return True
        if apart(z, s, v[0]):
            return None
        return None if n.get("cls") == "std::array" else False
    if kind == "element":
        ck = z.contkey(n)
        if ck is None:
            return None
        return (s.ub(ZERO, ck) or 0) <= -1 or b in ("front", "back") and parted(z, ck) or \
            any("apacity" in f and c == 0 for f, c in names(s, (ck, 0)))
    if kind == "part" and handed(z, n):
        p, l = handed(z, n)
        size = buffer(z, p)
        v = affine(z, l)
        if size is None or v is None:
            return None
        return v[1] == size[1] and v[0] <= size[0]
    if kind == "part":
        ck = z.contkey(n)
        v = z.lin(s, n["a"][0])
        if ck is None:
            return True if v == (ZERO, 0) else None
        if v is None:
            return None
        lo = lower(z, s, n["a"][0], v)
        return lo is not None and lo >= 0 and below(s, v, ck, 0)
    if kind == "division":
        v = z.lin(s, n["y"])
        if v is None:
            return False
        if v[0] == ZERO:
            return v[1] != 0
        if v[1] == 0 and (s.ub(ZERO, ("z", v[0])) or 0) <= -1:
            return True
        lo = s.ub(ZERO, v[0])
        hi = s.ub(v[0], ZERO)
        return (lo is not None and -lo + v[1] >= 1) or (hi is not None and hi + v[1] <= -1)
    if kind == "number":
        return matched(z, n["a"][0])
    return None


def matched(z, i, depth=0):
    """Is the text a part that a regular expression matched?"""
    for j in under(z.f, i):
        m = z.nodes[j]
        if "match" in m.get("cls", "") or "match" in m.get("t", ""):
            return True
        if m["k"] == "var" and m.get("d") is not None and depth < 3:
            for b in z.f["B"].values():
                for e in b["e"]:
                    if e.get("decl") and e.get("d") == m["d"] and e.get("i") is not None and \
                            matched(z, e["i"], depth + 1):
                        return True
            if any(("v", p["d"]) == ("v", m["d"]) for p in z.f["params"]):
                return True       # decided where it is called
    return False


# ------------------------------------------------------------------ keys

def strip(z, i):
    n = z.nodes.get(i, {})
    while n.get("k") == "cast" or n.get("k") == "construct" and len(n.get("a", [])) == 1:
        i = n["e"] if n["k"] == "cast" else n["a"][0]
        n = z.nodes.get(i, {})
    return i


def text(z, i):
    """What identifies the value of an expression."""
    i = strip(z, i)
    n = z.nodes.get(i, {})
    p = z.path(i)
    if p is not None:
        return p
    if n.get("k") in ("int", "str", "bool", "char"):
        return (n["k"], n.get("v"))
    if n.get("k") == "call":
        return ("call", n.get("fn") or n.get("op"), text(z, n["o"]) if n.get("o") is not None else None) + \
            tuple(text(z, a) for a in n.get("a", []))
    return ("?", i)


def container(z, n):
    p = z.path(n.get("o"))
    if p is not None and n.get("arrow"):
        p = p[1] if p[0] == "a" else ("d", p)
    return p


def lookup(z, i):
    """(map, key) whose presence expression i tells by not being the end of the map."""
    i = strip(z, i)
    n = z.nodes.get(i, {})
    if n.get("k") == "var" and n.get("d") is not None:
        ds = [e for b in z.f["B"].values() for e in b["e"] if e.get("decl") and e.get("d") == n["d"]]
        if len(ds) == 1 and ds[0].get("i") is not None:
            return lookup(z, ds[0]["i"])
    if n.get("k") == "call" and query.base(n) == "find" and len(n.get("a", [])) == 1 and \
            not n.get("own"):
        return container(z, n), text(z, n["a"][0])
    return None


def ended(z, i):
    n = z.nodes.get(strip(z, i), {})
    if n.get("k") == "var" and n.get("d") is not None:
        ds = [e for b in z.f["B"].values() for e in b["e"] if e.get("decl") and e.get("d") == n["d"]]
        return len(ds) == 1 and ds[0].get("i") is not None and ended(z, ds[0]["i"])
    return n.get("k") == "call" and query.base(n) in ("end", "cend")


def known(z, i, truth):
    """Pairs (map, key) that are there when condition i is `truth`."""
    n = z.nodes.get(i, {})
    k = n.get("k")
    if k == "cast":
        return known(z, n["e"], truth)
    if k == "un" and n["op"] == "!":
        return known(z, n["e"], not truth)
    if k == "bin" and n["op"] in ("&&", "||"):
        a, b = known(z, n["x"], truth), known(z, n["y"], truth)
        return a | b if (n["op"] == "&&") == truth else a & b
    if k == "var" and n.get("d") is not None:
        ds = [e for b in z.f["B"].values() for e in b["e"] if e.get("decl") and e.get("d") == n["d"]]
        if len(ds) == 1 and ds[0].get("i") is not None and z.nodes[ds[0]["i"]]["k"] != "var" and \
                not any(m["k"] == "assign" and z.nodes[m["x"]].get("d") == n["d"]
                        for m in z.nodes.values()):
            return known(z, ds[0]["i"], truth)
        return set()
    if k == "call" and query.base(n) in ("count", "contains") and len(n.get("a", [])) == 1 and \
            not n.get("own"):
        return {(container(z, n), text(z, n["a"][0]))} if truth else set()
    op = n.get("op")
    xs = [n.get("x"), n.get("y")] if k == "bin" else \
        ([n["o"]] if n.get("o") is not None else []) + n.get("a", []) if k == "call" else []
    if op in ("==", "!=", "<", "<=", ">", ">=") and len(xs) == 2:
        for (a, b), o in ((xs, op), (xs[::-1], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
            if op in ("==", "!=") and ended(z, b):
                p = lookup(z, a)
                if p and (op == "!=") == truth:
                    return {p}
            c = z.const(b)
            m = z.nodes.get(strip(z, a), {})
            if c in (0, 1) and m.get("k") == "call" and query.base(m) == "count" and not m.get("own"):
                yes = {("!=", 0), (">", 0), (">=", 1), ("==", 1)}
                no = {("==", 0), ("<=", 0), ("<", 1), ("!=", 1)}
                if (o, c) in (yes if truth else no):
                    return known(z, strip(z, a), True)
    return set()


def killed(z, facts, n):
    """The facts that expression n leaves."""
    k = n["k"]
    p = None
    fields, outer = (), ()
    if k == "assign":
        p = z.path(n["x"])
    elif k == "un" and n["op"] in ("++", "--"):
        p = z.path(n["e"])
    elif k == "call" and n.get("u") in z.mods:
        fields, outer = z.mods[n["u"]][0], z.mods[n["u"]][1]
    elif k == "call" and n.get("o") is not None and query.base(n) in ("erase", "clear", "extract", "swap"):
        p = container(z, n)
    if p is None and not fields and not outer:
        return facts

    def hit(t):
        if not isinstance(t, tuple):
            return False
        if p is not None and (t == p or p[0] == "f" and t[0] == "f" and t[-1] == p[-1]):
            return True
        if z.among(t, fields) or t[0] == "v" and t[1] in outer:
            return True
        return any(hit(x) for x in t)
    return set(x for x in facts if not hit(x[0]) and not hit(x[1]))


def present(prog, z, need):
    """at() expression -> is its key shown to be there?"""
    f = z.f
    at = {f["entry"]: set()}
    work = [f["entry"]]
    out = {}
    for final in (False, True):
        if final:
            work = list(at)
        while work:
            b = work.pop()
            B = f["B"][b]
            facts = set(at[b])
            for e in B["e"]:
                i = e.get("n")
                if e.get("decl") and "d" in e:
                    facts = set(x for x in facts if ("v", e["d"]) not in list(comps(x[1]) if isinstance(
                        x[1], tuple) and x[1][0] in ("f", "d", "a", "v") else ()))
                if i is None or e.get("decl"):
                    continue
                n = z.nodes[i]
                if final and i in need:
                    out[i] = (container(z, n), text(z, n["a"][0])) in facts
                facts = killed(z, facts, n)
                if n["k"] == "call" and not n.get("own") and n.get("o") is not None and (
                        n.get("op") == "[]" or query.base(n) in (
                            "insert_or_assign", "try_emplace", "emplace", "at")) and n.get("a"):
                    facts.add((container(z, n), text(z, n["a"][0])))
            if final:
                continue
            c, succ = B.get("c"), B["s"]
            for s, truth in zip(succ, (True, False) if c is not None and len(succ) == 2 and
                                B.get("tk") != "SwitchStmt" else (None,) * len(succ)):
                if s is None or s < 0:
                    continue
                x = facts | known(z, c, truth) if truth is not None else facts
                if s not in at:
                    at[s] = set(x)
                    work.append(s)
                elif at[s] - x:
                    at[s] &= x
                    work.append(s)
    for i in need:
        if out.get(i) is False:
            out[i] = excused(prog, z, z.nodes[i])
    return out


def asked(prog, u, name):
    """Does the function ask whether a map of that name has a key?"""
    f = prog.functions[u]
    z = Zones(prog, f)
    for n in f["nodes"].values():
        if n["k"] == "call" and query.base(n) in ("count", "find", "contains") and \
                n.get("o") is not None and not n.get("own"):
            p = container(z, n)
            if p is not None and p[0] in ("f", "g", "v") and p[-1] == name:
                return True
    return False


def excused(prog, z, n):
    p = container(z, n)
    if p is None:
        return None
    if p[0] == "g" and enumerated(prog, z, n, ("s", p)):
        return True
    k = text(z, n["a"][0])
    if p[0] == "f" and p[2] == "fontInfos" and k[0] == "f" and k[2] == "fontName" and any(
            "PdfCharacter" in z.nodes[j].get("t", "") for j in under(z.f, n["a"][0])):
        return None       # every character has a registered font
    name = p[-1]
    around = [g["u"] for g, _ in callers(prog).get(z.f["u"], ())] + \
        [m["u"] for m in z.nodes.values() if m["k"] == "call" and m.get("own") and
         m.get("u") in prog.functions]
    if any(asked(prog, u, name) for u in around if u != z.f["u"]):
        return None       # asked in another function
    return False


def limited(z, i):
    """Upper bound of an expression by its type or a mask."""
    n = z.nodes.get(i, {})
    while n.get("k") == "cast":
        if n.get("bits") == 8 and n.get("ki") == "uint":
            return 255
        n = z.nodes.get(n["e"], {})
    if n.get("k") == "bin" and n["op"] == "&":
        for a in ("x", "y"):
            _, c = stripped(z.f, n[a])
            if c.get("k") == "int":
                return int(c["v"])
    if n.get("bits") == 8 and n.get("ki") == "uint":
        return 255
    t = n.get("t", "")
    if t.replace("const ", "") in ("unsigned char", "uint8_t"):
        return 255
    return None


def run(prog, r, tier):
    r.rule("index", "a position given to [] or at() of a list, a text or an array lies inside it", 1)
    r.rule("element", "the first or last element is only asked for, or removed, where there is one", 1)
    r.rule("part", "a part of a text starts inside the text", 1)
    r.rule("division", "no integer is divided by zero", 0)
    r.rule("key", "at() of a map is only called with a key that is there", 0)
    r.rule("number", "a text is only converted to a number where it matched an expression", 0)
    r.assumptions += [
        "a document has one list of elements, and a drawing one page, per page number",
        "a text line has at least one word, and every character a registered font (C10, drawChar)",
        "a window of a loop has the size its comments claim (capacity)",
        "the parts of a text an expression matched are numbers of the size the expression allows",
        "positions in the texts and lists of the trained model (byte pair encoder, prediction of "
        "semantic roles) are not decided"]
    seen = {}
    for u, f in sorted(prog.functions.items(), key=lambda x: (x[1]["name"], x[0])):
        if f.get("cls") in MODEL:
            continue
        z0 = Zones(prog, f)
        need = {i: o for i, n in f["nodes"].items() for o in [obligation(z0, i, n)] if o}
        if not need:
            continue
        r.analysed.add(f["name"])
        keyed = set(i for i, o in need.items() if o[0] == "key")
        told = present(prog, z0, keyed) if keyed else {}
        need2 = {i: o for i, o in need.items() if i not in keyed}
        verdict = attempt(prog, f, need2, set()) if need2 else {}
        facts = ()
        if any(v is False for v in verdict.values()):
            facts = entries(prog, f, inputs(z0))
            if facts:
                verdict = better(verdict, attempt(prog, f, need2, set(), facts))
        if any(v is False for v in verdict.values()):
            bl = set()
            asg = {}
            for n in f["nodes"].values():
                if n["k"] == "assign" and f["nodes"][n["x"]]["k"] == "var":
                    d = f["nodes"][n["x"]].get("d")
                    asg[d] = asg.get(d, 0) + 1
            for b in f["B"].values():
                for e in b["e"]:
                    if e.get("decl") and not e.get("ref") and (
                            e.get("ki") == "bool" or e.get("ptr") and asg.get(e.get("d"))):
                        bl.add(e["d"])
            for d in sorted(bl):
                verdict = better(verdict, attempt(prog, f, need2, {d}, facts))
                if not any(v is False for v in verdict.values()):
                    break
        verdict.update(told)
        for i, v in sorted(verdict.items(), key=lambda x: (f["nodes"][x[0]].get("l", 0), x[0])):
            n = f["nodes"][i]
            kind, what = need[i]
            c = seen[(f["name"], kind, what)] = seen.get((f["name"], kind, what), 0) + 1
            if v is None:
                continue
            r.ob(kind, "%s: %s %d" % (f["name"].replace("ppp::", ""), what, c), v,
                 "%s: %s:%s: %s" % (f["name"], f["file"], n.get("l"), TEXT[kind] % what))


TEXT = {"index": "the position given to %s is not shown to be inside",
        "element": "%s although the list is not shown to have an element",
        "part": "the start given to %s is not shown to be inside the text",
        "division": "the divisor of %s is not shown to differ from zero",
        "key": "%s with a key that is not shown to be there",
        "number": "%s of a text that is not shown to be a number of that size"}


def better(a, b):
    return {i: b.get(i, v) if v is False and b.get(i, v) else v for i, v in a.items()}


def attempt(prog, f, need, bools, facts=()):
    z = Zones(prog, f, None, bools)
    z.entry = facts
    out = {}
    if not z.run():
        return {i: False for i in need}
    for b, st in z.at.items():
        st = {q: s.copy() for q, s in st.items()}
        for e in f["B"][b]["e"]:
            i = e.get("n")
            if i in need and not e.get("decl"):
                n = f["nodes"][i]
                for q, s in st.items():
                    v = decide(prog, z, s, i, n, need[i][0])
                    o = out.get(i, True)
                    out[i] = v if o is True else (o if v is True else (False if False in (o, v)
                                                                       else None))
            st = z.element(st, e)
            if not st:
                break
    return out

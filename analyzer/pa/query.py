"""Whole-program queries: call graph, reachability, node walks."""


def callgraph(prog):
    """usr -> set of usrs of functions of the repository it may call (virtual calls: all overriders;
    functions and lambdas it refers to count as called)."""
    if hasattr(prog, "_cg"):
        return prog._cg
    over = {}
    for u, f in prog.functions.items():
        for o in f.get("overrides", ()):
            over.setdefault(o, set()).add(u)
    # an object of a class with methods a library calls back: they may run from then on
    back = {}
    for u, f in prog.functions.items():
        if any(o not in prog.functions for o in f.get("overrides", ())) and f.get("cls"):
            back.setdefault(f["cls"], set()).add(u)
    cg = {}
    for u, f in prog.functions.items():
        out = set()
        if f.get("ctor"):
            out |= back.get(f.get("cls"), set())
        for n in f["nodes"].values():
            k = n["k"]
            if k in ("call", "construct", "fnref", "lambda", "memfn"):
                c = n.get("u")
                if c in prog.functions:
                    out.add(c)
                if k == "construct":
                    out |= back.get(n.get("cls"), set())
                if n.get("virt") or k == "memfn":
                    out |= over.get(n.get("fn", ""), set())
            if k == "new":
                c = n.get("u")
                if c in prog.functions:
                    out.add(c)
        for b in f["B"].values():
            for e in b["e"]:
                if "adtor" in e and e.get("u") in prog.functions:
                    out.add(e["u"])
        cg[u] = out
    prog._cg = cg
    return cg


def reaching(prog, targets):
    """Functions from which some function in targets (usrs) can be called, targets included."""
    cg = callgraph(prog)
    rev = {}
    for u, cs in cg.items():
        for c in cs:
            rev.setdefault(c, set()).add(u)
    seen = set(targets)
    st = list(targets)
    while st:
        x = st.pop()
        for p in rev.get(x, ()):
            if p not in seen:
                seen.add(p)
                st.append(p)
    return seen


def reachable(prog, roots):
    cg = callgraph(prog)
    seen = set(roots)
    st = list(roots)
    while st:
        x = st.pop()
        for p in cg.get(x, ()):
            if p not in seen:
                seen.add(p)
                st.append(p)
    return seen


def having(prog, pred):
    """usrs of functions with a node satisfying pred(node)."""
    return set(u for u, f in prog.functions.items()
               if any(pred(n) for n in f["nodes"].values()))


def where(f, n):
    return "%s:%s" % (n.get("f") or f["file"], n.get("l") or f["line"])


def short(name):
    return name.split("::")[-1]


def plain(fn):
    """A qualified name without template arguments."""
    if "<" not in fn:
        return fn
    head, sep, tail = fn.partition("operator")
    out, d = "", 0
    src = head if sep and not (head and head[-1] not in ":") else fn
    for ch in src:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    return out + (sep + tail if src is head else "")


def base(n):
    """Unqualified name of the function a call node names."""
    if n.get("op"):
        return "operator" + n["op"]
    return plain(n.get("fn", "")).split("::")[-1]

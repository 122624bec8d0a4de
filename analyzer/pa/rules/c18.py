"""C18: no exception ends the extraction of a document."""
from .. import query
from ..facts import AnalysisError
from ..fold import Fold
from ..interp import Budget, Interp
from ..par import pmap
from ..terms import C, ONE, ZERO, T, isc, le_atom, mk, show
from . import c15

# Calls of the standard library that throw when their argument (or their object) does not suit, and
# how the same can be asked without an exception.
CONVERT = {"stoi", "stol", "stoll", "stoul", "stoull", "stof", "stod", "stold"}
THROWS = {"any_cast": "any_cast", "get": "get of a variant", "throw_with_nested": "a nested throw",
          "rethrow_exception": "a rethrow", "exceptions": "exceptions() of a stream"}
MAPS = ("unordered_map", "map", "unordered_set", "set", "vector", "unordered_multimap")
KINDS = ("index", "element", "part", "key", "number")


class Guard(Fold):
    """Which throws and which calls of a throwing method are reached, and what is known there."""

    def __init__(self, prog, throwing=(), counted=None):
        super().__init__(prog)
        self.throwing = throwing
        self.out = {}           # (node, how) -> bool
        self.zeroes = {}        # loop variable -> set of verdicts of the turns
        self.heads = {}
        self.rets = []
        self.counted = counted

    def inline(self, I, fr, f):
        if f["u"] in self.throwing or f.get("cls", "").startswith("ppp::utils::log"):
            return False
        if not f.get("cls") and short(f) and fr.f["file"] == f["file"]:
            return True
        return bool(f.get("lambda")) or f.get("cls") == fr.f.get("cls") and bool(f.get("cls")) and \
            short(f) and not f.get("ctor")

    def element(self, I, fr, st, e):
        super().element(I, fr, st, e)
        n = fr.f["nodes"].get(e.get("n"), {})
        if n.get("k") == "throw" and I.reporting:
            self.note_at((fr.f["u"], e["n"]), self.empty(I, st, fr))

    def note_at(self, key, v):
        self.out.setdefault(key, []).append(v)

    def called(self, I, fr, st, node, n, oloc, args, val):
        super().called(I, fr, st, node, n, oloc, args, val)
        if oloc is not None and query.base(n) in ("sumCounts",):
            st.vals[node] = mk("fn", "sumCounts", I.addr(oloc))
        if n.get("u") in self.throwing and I.reporting:
            self.note_at((fr.f["u"], node), oloc is not None and self.some(I, st, oloc))

    def some(self, I, st, oloc):
        """Something was counted in the object."""
        n = mk("fn", "sumCounts", I.addr(oloc))
        return st.entails(le_atom(ONE, n)) or st.entails(("nz", n)) or \
            st.knows(mk("eq", n, ZERO)) is False or st.knows(mk("eq", ZERO, n)) is False

    def empty(self, I, st, fr):
        """The facts at a throw: the variables of loops that are 0 or false, or an empty object."""
        s = set()
        for a in st.facts:
            if a[0] in ("f", "z") and isinstance(a[1], T):
                s.add(a[1])
            elif a[0] == "le":
                for t, _ in a[1]:
                    if isinstance(t, T) and st.entails(le_atom(t, ZERO)):
                        s.add(t)
            elif a[0] in ("t", "nz") and isinstance(a[1], T) and a[1].op == "eq":
                if any(isc(x) and x.a[0] == 0 for x in a[1].a):
                    s |= set(x for x in a[1].a if not isc(x))
        return frozenset(s)

    # ------------------------------------------------------------ one turn of a loop
    def on_turn(self, I, fr, st, key, how):
        super().on_turn(I, fr, st, key, how)
        if not I.reporting or fr.up is not None and not fr.f["name"].startswith("std::"):
            return
        for l, v in st.env.items():
            if l.op != "V":
                continue
            H = I.phi(key, l)
            if H not in st.gen:
                continue
            self.heads[H] = (key, l.h)
            alts = self.alts(v, st) or [(v, ())]
            self.zeroes.setdefault(H, set()).add(
                all(self.sets(I, fr, st, key, H, x, fs) for x, fs in alts))
            self.sums = getattr(self, "sums", {})
            self.sums.setdefault(H, set()).add(
                all(self.keeps(I, fr, st, key, H, x, fs) for x, fs in alts))

    def seconds(self, I, fr, st, key, ts):
        """The terms among ts that are the count of the current entry."""
        out = set()
        todo = list(ts)
        while todo:
            t = todo.pop()
            if t.op in ("ld", "fld", "F", "elem", "get") and self.leaf(I, fr, st, t)[:2] == ("el", key):
                if self.leaf(I, fr, st, t)[3][-1:] == ("second",):
                    out.add(t)
                    continue
            todo.extend(parts(t.a))
        return out

    def terms_of(self, fs, *more):
        out = list(more)
        for a in fs:
            out.extend(parts(a[1:]))
        return out

    @staticmethod
    def given(st, fs, more):
        s = st.copy()
        for a in list(fs) + list(more):
            s.add_atom(a)
        return s

    @staticmethod
    def nonzero(s, x):
        return isc(x) and x.a[0] not in (0, False) or s.entails(("t", x)) or s.entails(("nz", x)) or \
            s.entails(le_atom(ONE, x))

    @staticmethod
    def contradicts(s, H):
        fs = s.facts
        return s.dead or ("t", H) in fs and ("f", H) in fs or ("nz", H) in fs and ("z", H) in fs or \
            s.entails(le_atom(ONE, ZERO))

    def sets(self, I, fr, st, key, H, x, fs):
        """After a turn with a counted entry H is set; once it is set, it stays so."""
        secs = self.seconds(I, fr, st, key, self.terms_of(set(fs) | st.facts, x))
        if not secs:
            return False
        got = [le_atom(ONE, y) for y in secs]
        zero = [("f", H), ("z", H), le_atom(H, ZERO), le_atom(ZERO, H)]
        s = self.given(st, fs, zero)
        none = any(s.entails(le_atom(y, ZERO)) for y in secs)
        s = self.given(st, fs, got + zero)
        if not none and not self.contradicts(s, H) and not self.nonzero(s, x):
            return False
        s = self.given(st, fs, [("t", H), ("nz", H), le_atom(ONE, H)])
        return self.contradicts(s, H) or x is H or self.nonzero(s, x)

    def keeps(self, I, fr, st, key, H, x, fs):
        """A turn with an entry of which nothing was counted leaves H at 0."""
        secs = self.seconds(I, fr, st, key, self.terms_of(set(fs) | st.facts, x))
        s = self.given(st, fs, [le_atom(y, ZERO) for y in secs] + [le_atom(H, ZERO)])
        return x is H or s.entails(le_atom(x, ZERO))

    def ret(self, I, fr, st, e, v):
        super().ret(I, fr, st, e, v)
        if fr.up is None and I.reporting:
            self.rets.append(v)


def parts(x):
    """The terms in a nest of tuples."""
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from parts(y)


def short(f):
    return len(f["nodes"]) < 80


def mentions_counter(f):
    return f.get("cls", "").startswith("ppp::utils::counter::")


def thrower(arg):
    """Each throw of a function that counts is only reached if nothing was counted."""
    from .. import facts
    prog = facts.load()
    f = prog.functions[arg]
    g = Guard(prog)
    I = Interp(prog, g, budget=200000)
    try:
        I.run_root(f)
    except Budget as e:
        return [(f["u"], None, False, str(e))]
    out = []
    for (u, node), sets in sorted(g.out.items(), key=repr):
        good = all(any(ok(g, t, s) for t in s) for s in sets)
        out.append((u, node, good, "", sorted(show(t) for s in sets for t in s)[:4]))
    return out


def ok(g, t, s):
    if t.op in ("size", "fn") and (t.op == "size" or t.a[0] == "sumCounts"):
        return True
    if t in g.heads and g.zeroes.get(t) == {True}:
        key = g.heads[t][0]
        return any(g.whole(key, v) and start == 0 for v, start in g.full.get(key, ())) and not any(
            v[2] == "break" for v in g.variants.get(key, ()))
    return False


def summed(arg):
    """sumCounts() is positive only if something was counted."""
    from .. import facts
    prog = facts.load()
    f = prog.functions[arg]
    g = Guard(prog)
    I = Interp(prog, g, budget=200000)
    try:
        I.run_root(f)
    except Budget as e:
        return False
    return bool(g.rets) and all(
        v is not None and (isc(v) and v.a[0] == 0 or v in g.heads and g.sums.get(v) == {True} and
                           g.init.get(g.heads[v]) == {("c", 0)}) for v in g.rets)


def caller(arg):
    from .. import facts
    prog = facts.load()
    u, throwing = arg
    f = prog.functions[u]
    g = Guard(prog, throwing)
    I = Interp(prog, g, budget=400000)
    try:
        I.run_root(f)
    except Budget as e:
        return u, None
    return u, {node: all(v) for (u2, node), v in g.out.items() if u2 == u and
               f["nodes"][node]["k"] == "call"}


class Part:
    """Takes the obligations of C15 about calls that throw."""

    def __init__(self, r):
        self.r = r
        self.analysed = r.analysed
        self.assumptions = []

    def rule(self, *a):
        pass

    def ob(self, kind, key, good, msg):
        what = key.rsplit(": ", 1)[-1]
        if kind in ("key", "part", "number") or kind == "index" and what.split(" ")[0].endswith("at()"):
            self.r.ob("argument", key, good, msg)


def run(prog, r, tier):
    r.rule("throw", "The program throws an exception only where a file of its own model is missing, or "
           "in a function of a counter in which nothing was counted.", 1)
    r.rule("counted", "The most frequent or the largest value is only asked for where something was "
           "counted.", 1)
    r.rule("sum", "The number of counted values is positive only if one was counted.", 0)
    r.rule("argument", "A key, a start, a position or a number that is given to a function that throws "
           "if it does not suit is shown to suit.", 1)
    r.rule("library", "No other function of the library is called in a way that throws.", 0)
    r.assumptions += ["the texts of elements are valid UTF-8 (Poppler maps to valid characters)",
                      "memory is not exhausted"]
    live = set(query.reachable(prog, [f["u"] for f in prog.fn("main")]))
    fs = [f for u, f in sorted(prog.functions.items()) if u in live]
    has = [f for f in fs if any(n["k"] == "throw" for n in f["nodes"].values())]
    # Functions that throw, and functions of the same object that call them without asking.
    throwing = {}
    roots = [f["u"] for f in has if not reads_model(f)]
    for res in pmap(thrower, roots) if roots else ():
        for x in res:
            u, node, good = x[:3]
            f = prog.functions[u]
            r.analysed.add(f["name"])
            line = f["nodes"][node].get("l") if node is not None else f.get("line")
            r.ob("throw", "%s: throw %s" % (f["name"].replace("ppp::", ""), ordinal(f, node)),
                 good and mentions_counter(f) or good and bool(f.get("cls")),
                 "%s: %s:%s throws an exception that is not only thrown when nothing was counted"
                 % (f["name"], f["file"], line))
            throwing[u] = f
    for f in has:
        if reads_model(f):
            r.analysed.add(f["name"])
            for i, n in sorted(f["nodes"].items()):
                if n["k"] == "throw":
                    r.ob("throw", "%s: throw %s" % (f["name"].replace("ppp::", ""), ordinal(f, i)),
                         after_open(f, i), "%s: %s:%s throws an exception although no file of the "
                         "model is missing" % (f["name"], f["file"], n.get("l")))
    calls = query.callgraph(prog)
    more = True
    while more:
        more = False
        for f in fs:
            if f["u"] not in throwing and f.get("cls") and any(
                    throwing.get(c, {}).get("cls") == f["cls"] for c in calls.get(f["u"], ())):
                throwing[f["u"]] = f
                more = True
    users = [f for f in fs if f["u"] not in throwing and
             any(n["k"] == "call" and n.get("u") in throwing for n in f["nodes"].values())]
    got = dict(pmap(caller, [(f["u"], tuple(sorted(throwing))) for f in users])) if users else {}
    for f in users:
        r.analysed.add(f["name"])
        for i, n in sorted(f["nodes"].items(), key=lambda x: (x[1].get("l", 0), x[0])):
            if n["k"] == "call" and n.get("u") in throwing:
                v = (got[f["u"]] or {}).get(i, got[f["u"]] is not None)
                r.ob("counted", "%s: %s %d" % (f["name"].replace("ppp::", ""), query.base(n), rank(
                    f, i, throwing)), v, "%s: %s:%s: %s() although nothing may have been counted" % (
                    f["name"], f["file"], n.get("l"), query.base(n)))
    sums = [f for f in fs if f["name"].endswith("::sumCounts") and not f.get("lambda")]
    for f, good in zip(sums, pmap(summed, [f["u"] for f in sums])) if sums else ():
        r.analysed.add(f["name"])
        r.ob("sum", f["name"].replace("ppp::", ""), good,
             "%s: may be positive although nothing was counted" % f["name"])
    c15.run(prog, Part(r), tier)
    library(prog, r, fs)


def ordinal(f, node):
    ts = sorted((n.get("l", 0), i) for i, n in f["nodes"].items() if n["k"] == "throw")
    return [i for _, i in ts].index(node) + 1 if node is not None else 0


def rank(f, i, throwing):
    cs = sorted((n.get("l", 0), j) for j, n in f["nodes"].items() if n["k"] == "call" and
                n.get("u") in throwing and query.base(n) == query.base(f["nodes"][i]))
    return [j for _, j in cs].index(i) + 1


def reads_model(f):
    return any(n["k"] in ("construct", "call") and n.get("cls") == "std::basic_ifstream"
               for n in f["nodes"].values())


def after_open(f, node):
    """The throw is reached only over the branch on which a file could not be opened."""
    B = f["B"]
    here = [b for b, x in B.items() if any(e.get("n") == node for e in x["e"])]
    if not here:
        return False
    preds = {}
    for b, x in B.items():
        for k, s in enumerate(x["s"]):
            if s is not None:
                preds.setdefault(s, []).append((b, k))
    todo, seen = list(here), set()
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == f["entry"]:
            return False
        for p, k in preds.get(b, ()):
            if not failed(f, B[p], k):
                todo.append(p)
    return True


def failed(f, blk, k):
    """Edge k of the block is the one on which is_open() is false."""
    c = blk.get("c")
    pol = k == 0
    while c is not None:
        n = f["nodes"].get(c, {})
        if n.get("k") == "un" and n.get("op") == "!":
            c, pol = n.get("e", n.get("x")), not pol
        elif n.get("k") == "call" and query.base(n) in ("is_open", "good", "operator bool"):
            return not pol
        elif n.get("k") == "call" and query.base(n) in ("operator!", "fail"):
            return pol
        else:
            return False
    return False


def library(prog, r, fs):
    for f in fs:
        seen = {}
        for i, n in sorted(f["nodes"].items(), key=lambda x: (x[1].get("l", 0), x[0])):
            if n["k"] not in ("call", "construct") or n.get("u") in prog.functions:
                continue
            fn = n.get("fn", "")
            why = None
            b = query.base(n) if fn else ""
            if fn.startswith("std::filesystem::") and takes_error(fn, b):
                args = [f["nodes"].get(a, {}) for a in n.get("a", ())]
                why = None if any("error_code" in a.get("t", "") for a in args) else \
                    "throws if it fails"
            elif b == "exceptions" and n.get("cls", "").startswith("std::basic_") and n.get("a"):
                why = "makes the stream throw"
            elif b == "value" and n.get("cls") == "std::optional":
                why = "throws if there is no value"
            elif b == "get" and "variant" in fn:
                why = "throws if there is another value"
            elif b in ("rethrow_exception", "throw_with_nested"):
                why = "throws"
            else:
                continue
            seen[b] = seen.get(b, 0) + 1
            r.ob("library", "%s: %s %d" % (f["name"].replace("ppp::", ""), b, seen[b]), not why,
                 "%s: %s:%s: %s() %s" % (f["name"], f["file"], n.get("l"), b, why))


def takes_error(fn, b):
    return b in ("create_directories", "create_directory", "exists", "is_directory", "file_size",
                 "is_regular_file", "remove", "remove_all", "rename", "copy", "copy_file", "absolute",
                 "canonical", "weakly_canonical", "relative", "current_path", "temp_directory_path",
                 "resize_file", "last_write_time", "status", "space", "permissions", "is_empty",
                 "equivalent", "read_symlink")

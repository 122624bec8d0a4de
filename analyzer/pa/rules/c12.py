"""C12: the output depends on the file and the options only."""
from .. import query
from ..defini import Defini, scalar
from ..dep import Flow
from ..effects import ACCESS

CHANCE = {"rand", "random", "srandom", "drand48", "lrand48", "mrand48", "rand_r", "time", "clock",
          "gettimeofday", "clock_gettime", "getpid", "getppid", "gettid", "getenv",
          "secure_getenv", "std::random_device::operator()", "getrandom", "arc4random", "times",
          "getrusage", "tmpnam", "std::this_thread::get_id", "pthread_self", "gethostname",
          "getuid", "getcwd", "std::filesystem::current_path", "std::filesystem::last_write_time",
          "std::filesystem::file_size", "localtime", "std::localtime", "std::time", "std::clock",
          "std::rand", "std::getenv", "isatty", "getlogin"}
ENGINES = ("linear_congruential_engine", "mersenne_twister_engine", "subtract_with_carry_engine",
           "random_device")
KEYED = ("std::set<", "std::map<", "std::multiset<", "std::multimap<", "std::unordered_set<",
         "std::unordered_map<", "std::unordered_multiset<", "std::unordered_multimap<",
         "std::hash<")
WALK = {"begin", "cbegin", "rbegin", "crbegin", "extract", "lower_bound", "upper_bound"}
ORDER = {"sort", "stable_sort", "min_element", "max_element", "nth_element", "partial_sort",
         "min", "max", "minmax", "make_heap", "push_heap", "is_sorted", "lower_bound",
         "upper_bound", "binary_search"}


def keytype(t):
    """First template argument of a keyed container type, or None."""
    t = t.replace("const ", "")
    for k in KEYED:
        if t.startswith(k):
            d, out = 0, ""
            for ch in t[len(k):]:
                if ch == "," and d == 0:
                    break
                if ch in "<(":
                    d += 1
                elif ch in ">)":
                    if d == 0:
                        break
                    d -= 1
                out += ch
            return out.strip()
    return None


def custom_order(t):
    """A keyed container with a comparison (or hash) of its own."""
    return "std::less<" not in t and "std::hash<" not in t and t.count(",") >= 2 and \
        ("(lambda" in t or "ppp::" in t.split(",", 1)[1] and "std::allocator" in t and
         not t.split(",", 1)[1].strip().startswith(("std::allocator", "std::less", "std::hash")))


def chance(prog):
    """source(f, n): is the value of a node decided by chance, time, environment or addresses?"""
    lib = lambda n: n.get("u") not in prog.functions

    def ptr(f, i):
        n = f["nodes"].get(i, {})
        t = n.get("t", "").strip()
        return t.endswith("*") and "char" not in t

    def addr(f, i):
        n = f["nodes"].get(i, {})
        t = n.get("t", "").replace("const", "").strip()
        smart = t.startswith(("std::shared_ptr<", "std::unique_ptr<"))
        return smart or t.endswith("*") and "char" not in t and "(" not in t

    def src(f, n):
        k = n["k"]
        if k == "call" and lib(n):
            nm = query.plain(n.get("fn", ""))
            if nm in CHANCE or "chrono" in nm and nm.endswith("::now"):
                return nm
            cls = n.get("cls", "")
            if any(e in cls for e in ENGINES):
                return query.plain(cls) or nm
            b = query.base(n)
            if n.get("op") == "<<" and "basic_ostream" in n.get("t", "") and n.get("a") and \
                    "void *" in n.get("u", "") + n.get("fn", "") or n.get("op") == "<<" and \
                    "basic_ostream" in n.get("t", "") and any(
                        addr(f, a) for a in n.get("a", ())[-1:]):
                return "an address written out"
            if "o" in n and b in WALK:
                t = f["nodes"].get(n["o"], {}).get("t", "")
                kt = keytype(t)
                if kt and kt.endswith("*") and not custom_order(t):
                    return "order of addresses in " + t[:60]
            if b in ORDER and "o" not in n and n.get("fn", "").startswith("std::"):
                a = n.get("a", [])
                t = f["nodes"].get(a[0], {}).get("t", "") if a else ""
                elemptr = "__normal_iterator<" in t and t.split("__normal_iterator<", 1)[1].split(
                    ",")[0].strip().endswith("**")
                if elemptr and len(a) == 2 and b not in ("lower_bound", "upper_bound"):
                    return "order of addresses by " + b
                if b in ("min", "max") and len(a) == 2 and ptr(f, a[0]):
                    return "order of addresses by " + b
            if k == "call" and n.get("op") in ("<", ">", "<=", ">=", "<=>") and \
                    "std::less" in n.get("cls", "") and "*" in n.get("cls", ""):
                return "order of addresses"
        if k == "bin" and n.get("op") in ("<", ">", "<=", ">=", "<=>"):
            if ptr(f, n["x"]) and ptr(f, n["y"]) and "ppp::" in f["nodes"][n["x"]].get("t", ""):
                return "order of addresses"
        if k == "cast" and ("ki" in n or n.get("t", "") in ("unsigned long", "long")):
            if ptr(f, n["e"]) and n.get("ki") not in ("bool",) and n.get("t") != "bool":
                return "address as a number"
        return None
    return src


def results(prog):
    """Classes whose objects make up the result: reachable from the document, and what computes it."""
    out = set()
    start = [c for c in prog.records if c.endswith("::PdfDocument")]
    todo = list(start)
    while todo:
        c = todo.pop()
        if c in out or c not in prog.records:
            continue
        out.add(c)
        r = prog.records[c]
        for b in r.get("bases", ()):
            todo.append(b if isinstance(b, str) else b.get("name", ""))
        for f in r["fields"]:
            for c2 in prog.records:
                if c2.startswith("ppp::") and c2 in f.get("t", ""):
                    todo.append(c2)
        for c2, r2 in prog.records.items():
            if any((b if isinstance(b, str) else b.get("name")) == c for b in r2.get("bases", ())):
                todo.append(c2)
    return out


def locname(prog, loc):
    if loc[0] == "*":
        return "what %s points to" % locname(prog, loc[1:])
    if loc[0] == "f":
        return "%s::%s" % (loc[1].split("::")[-1], loc[2])
    if loc[0] == "ret":
        f = prog.functions.get(loc[1])
        return "the result of %s" % (f["name"] if f else loc[1])
    return loc[-1]


def reached(prog, fl, ids):
    """reason -> influenced fields, results of main and output streams."""
    recs = results(prog)
    hit = {}
    for loc, why in sorted(fl.t.items(), key=str):
        l = loc[1:] if loc[0] == "*" else loc
        if l[0] == "f":
            c = l[1]
            if c in recs or c.startswith(("ppp::modules::", "ppp::config::",
                                          "ppp::serialization::")) or \
                    c.startswith("ppp::utils::") and not c.startswith("ppp::utils::log::") or \
                    c.startswith("ppp::visualization::") and not ids:
                hit.setdefault(why, []).append((c in recs, locname(prog, loc)))
        elif l[0] == "ret" and prog.functions.get(l[1], {}).get("name") == "main":
            hit.setdefault(why, []).append((True, "the exit status"))
    for (loc, fn, line), why in sorted(fl.sinks.items(), key=str):
        if not ids and fn.startswith(("ppp::serialization::", "ppp::visualization::")):
            hit.setdefault(why, []).append((True, "what %s writes in line %s" % (fn, line)))
    return hit


def listing(xs):
    names = [x for _, x in sorted(set(xs), reverse=True)]
    return ", ".join(names[:4]) + (" and %d more" % (len(names) - 4) if len(names) > 4 else "")


def judge(prog, r, fl, ids, label):
    for why, xs in sorted(reached(prog, fl, ids).items()):
        key = why.rsplit(" (", 1)
        r.bad("source", label + key[0] + " in " + key[-1].rstrip(")").rsplit(":", 1)[0],
              "%s decides %s" % (why, listing(xs)))


def is_id(l):
    return l[0] == "f" and l[2] == "id" and l[1].startswith("ppp::types::")


def run(prog, r, tier):
    r.rule("source", "values that chance, the time, the environment or addresses decide reach only "
           "ids, running times and log messages", 2)
    r.rule("id", "ids are copied and written, but decide nothing", 0)
    r.rule("local", "no local variable is read before it has a value", 3)
    r.rule("field", "every scalar field has a value before it can be read", 3)
    r.rule("state", "what a static variable keeps from before decides nothing", 1)
    live = query.reachable(prog, [f["u"] for f in prog.fn("main")])
    src = chance(prog)
    nsrc = 0
    for u in sorted(live):
        f = prog.functions[u]
        r.analysed.add(f["name"])
        for n in f["nodes"].values():
            s = src(f, n)
            if s:
                nsrc += 1
                r.ok("source", "%s in %s" % (s, f["name"]))
    fl = Flow(prog, src, stop=is_id, reach=live)
    judge(prog, r, fl, False, "")
    ids = set(l for l in fl.stopped)
    for l in sorted(ids):
        r.ok("id", locname(prog, l))
    if ids:
        names = set((l[1], l[2]) for l in ids)
        fi = Flow(prog, lambda f, n: "the id of a %s" % n["cls"].split("::")[-1]
                  if n["k"] == "member" and (n["cls"], n["name"]) in names else None,
                  stop=is_id, reach=live,
                  skip=lambda f: f["name"].startswith("ppp::visualization::"))
        judge(prog, r, fi, True, "id -> ")
    # definite values
    D = Defini(prog)
    for u in sorted(prog.functions):
        f = prog.functions[u]
        reads, names = D.locals(f)
        got = dict(reads)
        for nm in names:
            r.ob("local", "%s in %s" % (nm, f["name"]), nm not in got,
                 nm in got and "%s may be read before it has a value (%s)" % (
                     nm, query.where(*got[nm])) or "")
    read = {}
    for u in live:
        f = prog.functions[u]
        for i, n in f["nodes"].items():
            if n["k"] == "member":
                read.setdefault((n["cls"], n["name"]), []).append((f, i))
    fields(prog, r, D, live, read)
    state(prog, r, live)


def fields(prog, r, D, live, read):
    ctors = {}
    for u, f in prog.functions.items():
        if f.get("ctor"):
            ctors.setdefault(f.get("cls"), []).append(f)
    for c, rec in sorted(prog.records.items()):
        un = [x for x in rec["fields"] if "i" not in x and scalar(x)]
        if not un:
            continue
        names = tuple(sorted(x["name"] for x in un))
        size = {}
        mine = ctors.get(c, [])
        user = [f for f in mine]
        done = None
        for f in user:
            keys = set(("this", x) for x in names)
            _, end = D.analyse(f, keys, ())
            got = set(k[1] for k in end if k[0] == "this" and len(k) == 2)
            done = got if done is None else done & got
        done = done or set()
        for x in un:
            nm = x["name"]
            key = "%s::%s" % (c.split("::")[-1], nm)
            if nm in done and user:
                r.ok("field", key)
                continue
            if (c, nm) not in read:
                r.ok("field", key + " (never read)")
                continue
            if c.startswith("ppp::types::"):
                why = fresh(prog, D, c, x, read)
                r.ob("field", key, why is None, "field %s has no value: %s" % (key, why))
            else:
                why = entered(prog, D, c, x, live)
                r.ob("field", key, why is None, "field %s has no value: %s" % (key, why))


def fresh(prog, D, c, x, read):
    """An element class: the functions that create an object set the field before they return."""
    subs = {c}
    ch = True
    while ch:
        ch = False
        for c2, r2 in prog.records.items():
            if c2 not in subs and any((b if isinstance(b, str) else b.get("name")) in subs
                                      for b in r2.get("bases", ())):
                subs.add(c2)
                ch = True
    # objects whose field is read: by the class the field is read through
    touched = set()
    for f, i in read[(c, x["name"])]:
        p = D.parent(f)
        b = f["nodes"].get(f["nodes"][i]["b"], {})
        if D.role(f, i)[0] == "write":
            continue
        if D.role(f, i)[0] == "elem" and D.role(f, D.role(f, i)[1])[0] == "write":
            continue
        t = b.get("t", "").replace("const ", "").replace("*", "").replace("&", "").strip()
        if f["name"].split("::")[-1] in ("toString", "toShortString"):
            continue
        touched.add(t)
    hit = set()
    for t in touched:
        for s in subs:
            y, seen = s, set()
            todo = [s]
            while todo:
                y = todo.pop()
                if y == t:
                    hit.add(s)
                seen.add(y)
                todo += [(b if isinstance(b, str) else b.get("name", ""))
                         for b in prog.records.get(y, {}).get("bases", ())]
    for u, f in sorted(prog.functions.items()):
        for i, n in f["nodes"].items():
            if n["k"] != "new" or n.get("at") not in hit:
                continue
            ps = D.parent(f).get(i, ())
            d = None
            for p, how in ps:
                if how == "decl":
                    d = p["d"]
                elif how == "y" and f["nodes"][p]["k"] == "assign":
                    v = f["nodes"][f["nodes"][p]["x"]]
                    d = v.get("d") if v["k"] == "var" else None
            if d is None:
                return "%s creates a %s" % (f["name"], n["at"].split("::")[-1])
            k = ("obj", d, x["name"])
            size = {}
            t = x.get("t", "")
            if "[" in t and t.split("[")[1].rstrip("]").isdigit():
                size[k] = int(t.split("[")[1].rstrip("]"))
            start = {k}
            if how != "decl":
                start = ()
            reads, end = D.analyse(f, {k}, start, size)
            if k in reads:
                return "%s reads it (%s)" % (f["name"], query.where(*reads[k]))
            if k in D.escapes:
                return "%s hands out the %s without setting it (%s)" % (
                    f["name"], n["at"].split("::")[-1], query.where(*D.escapes[k]))
    return None


def entered(prog, D, c, x, live):
    """A class with state: the methods called from outside set the field before it is read."""
    meths = [f for f in prog.functions.values() if f.get("cls") == c]
    mu = set(f["u"] for f in meths)
    inside = set()
    outside = set()
    for u, f in prog.functions.items():
        for n in f["nodes"].values():
            if n["k"] in ("call", "fnref", "memfn") and n.get("u") in mu:
                (inside if f.get("cls") == c or f.get("lambda") and f["name"].startswith(c + "::")
                 else outside).add(n["u"])
    starts = [f for f in meths if f["name"].split("::")[-1] == "startPage"]
    for f in starts:
        if x["name"] in D.method(f["u"], (x["name"],))[1]:
            return None      # the library starts every page before it reports its contents
    me = ("this", x["name"])
    implied = {}
    for y in prog.records[c]["fields"]:
        v = prog.records[c].get("nodes", {}).get(str(y.get("i")), {})
        if y.get("ki") != "bool" or v.get("k") != "bool" or v.get("v") not in ("0", 0, False):
            continue
        fk = ("this", y["name"])
        good, some = True, False
        for f in meths:
            D.analyse(f, {me}, ())
            if fk in D.setting:
                some = True
                good = good and me in D.setting[fk]
        if good and some:
            implied[fk] = frozenset([me])
    D.implied = implied
    D.memo = {k: v for k, v in D.memo.items() if k[0] != "m"}
    # fields set in every constructor are done; otherwise every entry sets it before reading
    try:
        return entries(prog, D, x, live, meths, inside, outside)
    finally:
        D.implied = {}
        D.memo = {k: v for k, v in D.memo.items() if k[0] != "m"}


def entries(prog, D, x, live, meths, inside, outside):
    for f in meths:
        if f.get("dtor") or f.get("ctor"):
            continue
        back = any(o not in prog.functions for o in f.get("overrides", ()))
        if f["u"] in outside or back or f["u"] not in inside:
            reads, _ = D.method(f["u"], (x["name"],))
            if x["name"] in reads and (f["u"] in live or True):
                return "%s may read it first (%s)" % (f["name"], query.where(*reads[x["name"]]))
    return None


def changed(prog):
    """Static variables that the program changes: name -> (function, node)."""
    fl = Flow(prog, lambda f, n: None, reach=())
    out = {}
    for u, f in prog.functions.items():
        if f["name"] == "main":
            continue
        for n in f["nodes"].values():
            ws = []
            if n["k"] == "assign":
                ws = fl.roots(f, n["x"])
            elif n["k"] == "un" and n.get("op") in ("++", "--"):
                ws = fl.roots(f, n["e"])
            elif n["k"] == "call" and n.get("u") not in prog.functions:
                if "o" in n and not n.get("const") and not n.get("static") and \
                        query.base(n) not in ACCESS:
                    ws = list(fl.roots(f, n["o"]))
                elif "o" in n and n.get("op") == "[]" and not n.get("const") and \
                        "map<" in f["nodes"].get(n["o"], {}).get("t", ""):
                    ws = list(fl.roots(f, n["o"]))
                for j, a in enumerate(n.get("a", ())):
                    if n.get("pm", "")[j:j + 1] in ("m", "p") and query.base(n) not in ACC2:
                        ws += list(fl.roots(f, a))
            elif n["k"] == "call":
                ps = prog.functions[n["u"]]["params"]
                for j, a in enumerate(n.get("a", ())):
                    if j < len(ps) and ps[j].get("t", "").endswith("&") and \
                            not ps[j].get("t", "").startswith("const "):
                        ws += list(fl.roots(f, a))
            for l in ws:
                if l and l[0] == "g" and l[1] in prog.globals:
                    d = prog.globals[l[1]]
                    if not d.get("isconst") and not fl.stream(l) and \
                            "NullStream" not in d.get("t", ""):
                        out.setdefault(l[1], (f, n))
    return out


def state(prog, r, live):
    """What the program keeps in static variables does not reach the result."""
    ch = changed(prog)
    for g, d in sorted(prog.globals.items()):
        if g not in ch:
            r.ok("state", g)
    if not ch:
        return

    def src(f, n):
        if n["k"] == "var" and n.get("vk") in ("global", "smember", "slocal"):
            g = n["qn"] if n["vk"] != "slocal" and "qn" in n else n["name"]
            if g in ch:
                return "what %s keeps from before" % g
        return None
    fl = Flow(prog, src, stop=lambda l: is_id(l) or l[0] == "g" and l[1] in ch, reach=live)
    hit = reached(prog, fl, False)
    for g, (f, n) in sorted(ch.items()):
        bad = [(w, x) for w, x in hit.items() if w.startswith("what %s keeps" % g)]
        r.ob("state", g, not bad, bad and "%s is changed in %s, and it decides %s" % (
            g, f["name"], listing(bad[0][1])) or "")


ACC2 = {"operator<<", "operator>>", "endl", "begin", "end", "size", "find", "at", "get"}

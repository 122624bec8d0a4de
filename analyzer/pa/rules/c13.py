"""C13: what is logged never changes what is extracted."""
from .. import query
from ..dep import Flow
from .c12 import is_id, listing, locname, reached

LOG = "ppp::utils::log::"
LASTING = {"std::hex", "std::oct", "std::dec", "std::fixed", "std::scientific", "std::hexfloat",
           "std::defaultfloat", "std::setprecision", "std::boolalpha", "std::noboolalpha",
           "std::showpoint", "std::showpos", "std::uppercase", "std::setfill", "std::setbase",
           "std::setiosflags", "std::resetiosflags", "std::left", "std::right", "std::internal",
           "std::showbase", "std::unitbuf", "std::ends"}
SETTERS = {"setf", "unsetf", "flags", "precision", "fill", "imbue", "rdbuf", "exceptions",
           "setstate", "clear", "copyfmt", "tie", "close", "swap", "width"}


def option_variables(prog):
    """Variables of main the options that control the log are bound to: location -> option."""
    out = {}
    for m in prog.fn("main"):
        N = m["nodes"]

        def address(i, depth=0):
            n = N.get(i, {})
            if depth > 12:
                return None
            if n.get("k") == "un" and n.get("op") == "&":
                v = N.get(n["e"], {})
                return ("v", v["d"]) if v.get("k") == "var" and "d" in v else None
            for j in list(n.get("a", ())) + [n.get(k) for k in ("o", "e", "b")]:
                if isinstance(j, int):
                    r = address(j, depth + 1)
                    if r:
                        return r
            return None
        for n in N.values():
            if n["k"] == "call" and n.get("op") == "()" and \
                    n.get("cls", "").endswith("options_description_easy_init"):
                a = n.get("a", [])
                if len(a) < 2:
                    continue
                s = N.get(a[0], {})
                while s.get("k") in ("cast", "construct"):
                    s = N.get(s.get("e", (s.get("a") or [None])[0]), {})
                name = s.get("v") if s.get("k") == "str" else None
                if isinstance(name, str) and name.strip('"').startswith(
                        ("debug", "verbos", "log")):
                    loc = address(a[1])
                    if loc:
                        out[loc] = name.strip('"').split(",")[0]
    return out


def log_settings(prog):
    """Configuration fields handed to the constructor of the logger."""
    out = set()
    for f in prog.functions.values():
        for n in f["nodes"].values():
            if n["k"] in ("construct", "new") and (n.get("cls") == LOG + "Logger" or
                                                  n.get("at") == LOG + "Logger"):
                for a in n.get("a", ()):
                    x = f["nodes"].get(a, {})
                    while x.get("k") in ("cast", "construct") and ("e" in x or x.get("a")):
                        x = f["nodes"].get(x.get("e", (x.get("a") or [None])[0]), {})
                    if x.get("k") == "member":
                        out.add((x["cls"], x["name"]))
    return out


def bare(t):
    return t.replace("const ", "").replace("&", "").strip()


def run(prog, r, tier):
    r.rule("result", "log levels, page filters and the options that set them decide nothing but "
           "which messages are written", 3)
    r.rule("abort", "no log setting decides whether the program goes on", 0)
    r.rule("format", "no message leaves the standard output in another format", 1)
    live = query.reachable(prog, [f["u"] for f in prog.fn("main")])
    opts = option_variables(prog)
    settings = log_settings(prog)

    def isset(cls, name):
        if (cls, name) in settings:
            return True
        for c, nm in settings:
            if nm == name and cls.startswith("ppp::config::"):
                return True
        return False

    def src(f, n):
        if n["k"] in ("var", "member"):
            if bare(n.get("t", "")) == LOG + "LogLevel" and n.get("vk") != "enum":
                return "log level %s" % n.get("name", "")
            if n["k"] == "member":
                if n["cls"] == LOG + "Logger":
                    return "log setting %s" % n["name"]
                if isset(n["cls"], n["name"]):
                    return "log setting %s" % n["name"]
            elif ("v", n.get("d")) in opts:
                return "option --%s" % opts[("v", n["d"])]
        return None
    seen = set()
    for u in sorted(live):
        f = prog.functions[u]
        r.analysed.add(f["name"])
        for n in f["nodes"].values():
            s = src(f, n)
            if s:
                seen.add((s, f["name"]))
    fl = Flow(prog, src, reach=live)
    hit = reached(prog, fl, False)
    bad = {}
    for why, xs in hit.items():
        ys = []
        for x in xs:
            c, _, nm = x[1].rpartition("::")
            if any(k.endswith("::" + c) or k == c for k in prog.records
                   if isset(k, nm) or k == LOG + "Logger") and "what " not in x[1]:
                continue
            ys.append(x)
        if ys:
            bad.setdefault(why.rsplit(" (", 1)[0], []).append((why, ys))
    for s, fn in sorted(seen):
        if s not in bad:
            r.ok("result", "%s in %s" % (s, fn))
    for s, xs in sorted(bad.items()):
        why, ys = xs[0]
        r.bad("result", s, "%s decides %s" % (why, listing(ys)))
    for (fn, line, what), why in sorted(fl.aborts.items(), key=str):
        if not fn.startswith(LOG):
            r.bad("abort", "%s in %s" % (what, fn), "%s decides whether %s (line %s)" % (
                why, what, line))
    formats(prog, r, live)


def formats(prog, r, live):
    """Manipulators on the stream a logger hands out (the standard output, if the message is
    written) stay in force when the text follows."""
    for u in sorted(live):
        f = prog.functions[u]
        N = f["nodes"]

        def logged(i, depth=0):
            n = N.get(i, {})
            if depth > 80:
                return False
            if n.get("k") == "var":
                return n.get("qn") == "std::cout" and f["name"].startswith(
                    (LOG, "ppp::modules::", "ppp::utils::"))
            if n.get("k") != "call":
                return False
            if n.get("cls") == LOG + "Logger":
                return "ostream" in n.get("t", "")
            if n.get("op") == "<<":
                return logged(n["o"] if "o" in n else n["a"][0], depth + 1)
            if "ostream" in n.get("t", "") and (n.get("o") is not None or n.get("a")):
                return logged(n["o"] if "o" in n else n["a"][0], depth + 1)
            return False
        any_ = False
        for n in N.values():
            if n["k"] != "call":
                continue
            if n.get("cls") == LOG + "Logger" and "ostream" in n.get("t", ""):
                any_ = True
            if n.get("op") == "<<":
                st = n["o"] if "o" in n else n["a"][0] if n.get("a") else None
                arg = n["a"][-1] if n.get("a") else None
                x = N.get(arg, {})
                while x.get("k") in ("cast", "un"):
                    x = N.get(x["e"], {})
                fn = query.plain(x.get("fn", ""))
                if fn in LASTING and st is not None and logged(st):
                    r.bad("format", f["name"], "%s writes a message with %s, which lasts "
                          "(%s)" % (f["name"], fn, query.where(f, n)))
            elif "o" in n and query.base(n) in SETTERS and logged(n["o"]) and n.get("a"):
                r.bad("format", f["name"], "%s changes the stream of the log by %s (%s)" % (
                    f["name"], query.base(n), query.where(f, n)))
        if any_:
            r.ok("format", f["name"])

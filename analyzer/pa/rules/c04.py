"""C04: standard output carries nothing but the extracted text, unless more was asked for."""
from .. import query
from ..cli import CliHooks, run_main
from ..facts import AnalysisError
from ..interp import Hooks, Interp, assume, cmpterm
from ..terms import C, FALSE, mk, show
from .c03 import SER

PRINTERS = {"printf", "puts", "putchar", "putc", "fputs", "fputc", "fwrite", "fprintf", "vprintf",
            "vfprintf", "write", "std::printf", "std::puts", "std::putchar", "std::fputs",
            "std::fwrite", "std::fprintf", "dprintf", "perror"}
STREAMS = {"std::cout", "std::wcout", "stdout", "std::clog", "std::wclog"}
STREAMS -= {"std::clog", "std::wclog"}
GETLOG = "ppp::utils::log::Logger::getostream"


def stdout_sites(prog):
    """(function, node) pairs that name standard output."""
    out = []
    for f in prog.functions.values():
        for i, n in f["nodes"].items():
            if n["k"] == "var" and (n.get("qn") or n.get("name")) in STREAMS:
                out.append((f, i, n))
            if n["k"] == "call" and n.get("fn") in PRINTERS and "u" not in \
                    {k: v for k, v in n.items() if k == "u" and v in prog.functions}:
                if n.get("fn") in ("fprintf", "fputs", "fputc", "fwrite", "std::fprintf",
                                   "std::fputs", "std::fwrite", "vfprintf", "putc", "perror",
                                   "dprintf") and not any(
                        "stdout" in str(f["nodes"].get(a, {}).get("name")) for a in n["a"]):
                    continue
                out.append((f, i, n))
    return out


class MainH(CliHooks):
    """Records insertions into standard output on paths from main; help printers are entered."""

    def __init__(self, prog, fixed, follow, nodes):
        super().__init__(prog, fixed, follow)
        self.nodes = nodes
        self.hits = set()

    def element(self, I, fr, st, el):
        if I.reporting and "n" in el and (fr.f["u"], el["n"]) in self.nodes:
            self.hits.add((fr.f["u"], el["n"], I.path(fr)))


class SerH(Hooks):
    """At the point where standard output is named: what is known about the target path?"""

    def __init__(self, nodes, target):
        self.nodes = nodes
        self.target = target
        self.hits = []
        self.opens = []

    def inline(self, I, fr, f):
        return "serializeToStream" not in f["name"]

    def element(self, I, fr, st, el):
        if not I.reporting:
            return
        if "n" in el and (fr.f["u"], el["n"]) in self.nodes:
            self.hits.append((fr.f["u"], el["n"], dash(st, self.target)))

    def call(self, I, fr, st, node, n, oloc, args):
        if I.reporting and opens_file(n):
            self.opens.append(query.where(fr.f, n))


def opens_file(n):
    if n["k"] == "construct":
        return n.get("cls", "").startswith(("std::basic_ofstream", "std::basic_fstream")) and n["a"]
    return n["k"] == "call" and n.get("fn", "").split("::")[-1].split("<")[0] in (
        "fopen", "open", "create_directories", "create_directory", "creat", "freopen")


def dash(st, t):
    """Is string t known to be exactly '-'?"""
    if t.op == "s":
        return t.a[0] == "-"
    if st.knows(cmpterm("==", t, mk("s", "-"))) is True or \
            st.knows(cmpterm("==", mk("s", "-"), t)) is True:
        return True
    return st.knows(cmpterm("==", mk("size", t), C(1))) is True and \
        st.knows(cmpterm("==", mk("elem", t, C(0)), C(45))) is True


class LogH(Hooks):
    def __init__(self):
        self.ends = []
        self.calls = []

    def exit(self, I, fr, st):
        if I.reporting and fr.up is None:
            self.ends.append(st.copy())

    def call(self, I, fr, st, node, n, oloc, args):
        if I.reporting and n.get("fn") == GETLOG:
            self.calls.append([I.val(fr, st, a) for a in args])


def run(prog, r, tier):
    r.rule("plain run", "With running times, help and version not requested, no path from main "
           "reaches a statement that names standard output, other than the serializer's and the "
           "logger's.", 1)
    r.rule("sites", "Standard output is named only in the file of the main function, in the "
           "serializer's dispatch on the target path and in the logger's choice of a stream.", 3)
    r.rule("target", "The serializer uses standard output only when the target path is '-', and "
           "creates a file only when it is not.", 2)
    r.rule("logger", "The logger selects standard output only for messages whose level is at least "
           "the configured one and whose page passes the page filter; and it selects it for all "
           "of those.", 2)
    r.rule("level", "Each logging method passes on its own level and the page of the message.", 5)
    r.rule("default", "Without verbosity and debug options every logger starts at level ERROR, and "
           "nothing in the program logs at that level during a normal extraction.", 1)
    mainf = prog.fn("main")
    ser = prog.fn(SER)
    log = prog.fn(GETLOG)
    if len(mainf) != 1 or len(ser) != 1 or len(log) != 1:
        raise AnalysisError("main, the serializer or the logger not found")
    mainf, ser, log = mainf[0], ser[0], log[0]
    sites = stdout_sites(prog)
    cg = query.callgraph(prog)
    for f, i, n in sites:
        ok = f["file"] == mainf["file"] or f["u"] in (ser["u"], log["u"]) or \
            helper_of(prog, f, {ser["u"], log["u"]})
        r.ob("sites", "%s" % f["name"], ok, "%s: %s writes to standard output"
             % (query.where(f, n), f["name"]))
    # a plain run
    nodes = set((f["u"], i) for f, i, n in sites if f["file"] == mainf["file"])
    follow = set(f["u"] for f in prog.functions.values() if f["file"] == mainf["file"])
    h = MainH(prog, {"print-running-times": FALSE, "help": FALSE, "version": FALSE,
                     "full-help": FALSE}, follow, nodes)
    I, _ = run_main(prog, h)
    r.analysed |= set(I.analysed)
    pr = [o for o in h.options if "running-times" in o]
    if not pr:
        raise AnalysisError("no option for the running times")
    for u, i, path in sorted(h.hits):
        f = prog.functions[u]
        r.bad("plain run", "%s" % f["name"], "%s: written to standard output on a plain run (%s)"
              % (query.where(f, f["nodes"][i]), path))
    r.ok("plain run", "main")
    # the serializer
    group = [f for f in prog.functions.values() if f["u"] == ser["u"] or
             helper_of(prog, f, {ser["u"]})]
    nodes = set((f["u"], i) for f, i, n in sites if f in group)
    pr = [p for p in ser["params"] if "basic_string" in p["t"]]
    if len(pr) != 1:
        raise AnalysisError("the serializer has no unique path parameter")
    tgt = mk("iv", pr[0]["d"], pr[0]["name"])

    def analyse(value):
        h = SerH(nodes, value)
        I = Interp(prog, h, max_depth=5)

        def setup(I, fr, st):
            a = mk("V", pr[0]["d"], pr[0]["name"])
            if pr[0].get("ref"):
                a = mk("V", pr[0]["d"] + "*", pr[0]["name"])
            st.env[a] = value
        I.run_root(ser, setup)
        r.analysed |= set(I.analysed)
        return h
    h = analyse(tgt)
    for u, i, d in h.hits:
        r.ob("target", "stdout", d, "%s: standard output is used although the target path may not "
             "be '-'" % query.where(prog.functions[u], prog.functions[u]["nodes"][i]))
    if not h.hits:
        r.bad("target", "stdout", "the target path '-' no longer selects standard output")
    h = analyse(mk("s", "-"))
    r.ob("target", "file", bool(h.hits) and not h.opens, "%s: with the target path '-' a file is "
         "opened instead of standard output" % (h.opens[0] if h.opens else ser["file"]))
    # the logger: all cases of its specification
    this = mk("this", log["cls"])
    lvf, pf = logger_fields(prog)
    lv = mk("ld", this, lvf, mk("ep0", lvf))
    flt = mk("ld", this, pf, mk("ep0", pf))
    prm = log["params"]
    if len(prm) != 2:
        raise AnalysisError("unexpected parameters of the logger's choice of a stream")
    a_lv = mk("sym", "level")
    pg = mk("iv", prm[1]["d"], prm[1]["name"])
    for loud in (True, False):
        for case in ("no filter", "no page", "same page", "other page"):
            h = LogH()
            I = Interp(prog, h, max_depth=4)

            def setup(I, fr, st):
                if prm[0].get("ref"):
                    st.env[mk("V", prm[0]["d"] + "*", prm[0]["name"])] = a_lv
                else:
                    st.env[mk("V", prm[0]["d"], prm[0]["name"])] = a_lv
                st.env[mk("F", this, lvf)] = lv
                st.env[mk("F", this, pf)] = flt
                assume(st, cmpterm("<=", lv, a_lv), loud)
                assume(st, cmpterm("<=", flt, C(0)), case == "no filter")
                if case != "no filter":
                    assume(st, cmpterm("<=", pg, C(0)), case == "no page")
                    if case != "no page":
                        assume(st, cmpterm("==", flt, pg), case == "same page")
            I.run_root(log, setup)
            r.analysed |= set(I.analysed)
            want = loud and case != "other page"
            got = set("cout" in show(e.ret) if e.ret is not None else None for e in h.ends)
            r.ob("logger", "%s, %s" % ("level reached" if loud else "level not reached", case),
                 got == {want}, "%s: a message %s (%s) is %s standard output" % (
                     log["file"], "whose level is reached" if loud else "below the log level", case,
                     "not written to" if want else "written to"))
    LV = {k: int(v) for k, v in prog.enums["ppp::utils::log::LogLevel"]["consts"]}
    for nm in ("trace", "debug", "info", "warn", "error"):
        for f in prog.fn(log["cls"] + "::" + nm):
            h = LogH()
            I = Interp(prog, h, max_depth=1)
            h.inline = lambda I, fr, f: False
            I.run_root(f)
            r.analysed |= set(I.analysed)
            p0 = mk("iv", f["params"][0]["d"], f["params"][0]["name"])
            r.ob("level", nm, bool(h.calls) and all(len(c) == 2 and c[0] is C(LV[nm.upper()]) and
                                                    c[1] is p0 for c in h.calls),
                 "%s: %s() selects its stream with %s" % (f["file"], nm, [
                     show(x) for x in (h.calls[0] if h.calls else [])]))
    # defaults
    errs = [(f, n) for f in prog.functions.values() for n in f["nodes"].values()
            if n["k"] == "call" and n.get("fn") == log["cls"] + "::error"]
    for f, n in errs:
        r.bad("default", "%s" % f["name"], "%s: logs at level ERROR, which is shown by default"
              % query.where(f, n))
    base = prog.records.get("ppp::config::BaseConfig")
    if not base:
        raise AnalysisError("no base configuration")
    ctor = [f for f in prog.functions.values() if f.get("cls") == "ppp::config::BaseConfig" and
            f.get("ctor")]
    done = False
    for f in ctor:
        h = LogH()
        I = Interp(prog, h, max_depth=2)
        I.run_root(f)
        th = mk("this", "ppp::config::BaseConfig")
        for e in h.ends:
            v = I.load(e, mk("F", th, "logLevel"))
            done = True
            r.ob("default", "configuration", v is C(LV["ERROR"]), "%s: the default log level is %s"
                 % (f["file"], show(v)))
    if not done:
        raise AnalysisError("the default log level was not found")


def helper_of(prog, f, owners):
    """Is f called from the given functions (and their helpers) only?"""
    cg = query.callgraph(prog)
    callers = {}
    for u, cs in cg.items():
        for c in cs:
            callers.setdefault(c, set()).add(u)
    seen = set()
    todo = [f["u"]]
    while todo:
        u = todo.pop()
        if u in owners or u in seen:
            continue
        seen.add(u)
        cs = callers.get(u, set())
        if not cs:
            return False
        todo += list(cs)
    return True


def logger_fields(prog):
    """The fields that the logger's constructor sets to its two arguments."""
    for f in prog.functions.values():
        if f["name"] == "ppp::utils::log::Logger::Logger" and len(f["params"]) == 2:
            h = LogH()
            I = Interp(prog, h, max_depth=1)
            ivs = []

            def setup(I, fr, st):
                for k, p in enumerate(f["params"]):
                    v = mk("sym", "arg%d" % k)
                    ivs.append(v)
                    st.env[mk("V", p["d"] + ("*" if p.get("ref") else ""), p["name"])] = v
            I.run_root(f, setup)
            this = mk("this", f["cls"])
            res = []
            for v in ivs:
                hit = [fld["name"] for fld in prog.records[f["cls"]]["fields"] for e in h.ends
                       if I.load(e, mk("F", this, fld["name"])) is v]
                if len(set(hit)) != 1:
                    raise AnalysisError("the logger does not keep its level and page filter")
                res.append(hit[0])
            return res
    raise AnalysisError("no constructor of the logger")

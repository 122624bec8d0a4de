"""C03: an exit status of 0 means the text was extracted and written."""
from .. import query
from ..cli import CliHooks, optsym, run_main
from ..facts import AnalysisError
from ..interp import Hooks, Interp, assume, cmpterm, neg
from ..par import pmap
from ..terms import C, FALSE, NULL, TRUE, mk, show
from .c01 import ENGINE, M, VISCLS, is_call

SER = "ppp::serialization::Serializer::serialize"
TOSTREAM = "ppp::serialization::Serializer::serializeToStream"


def stream_of(I, fr, st, n, args):
    """Name of the global stream an insertion writes to."""
    if n.get("op") != "<<" and not n.get("fn", "").startswith("std::operator<<"):
        return None
    if not args:
        return None
    try:
        l = I.loc(fr, st, args[0])
    except Exception:
        return None
    while l.op == "D" and l.a[0].op == "&":
        l = l.a[0].a[0]
    return l


class Base(Hooks):
    def init(self, prog, watch, follow):
        self.prog = prog
        self.watch = watch
        self.follow2 = follow
        self.exits = []
        self.root = None

    def partition(self, I, fr, st):
        return tuple(sorted((k, v) for k, v in st.ext.items() if k.startswith("n:")))

    def join_ext(self, key, vals):
        if key.startswith("n:"):
            return max(v or 0 for v in vals)
        return vals[0] if all(v is vals[0] for v in vals) else None

    def count(self, st, label):
        st.ext["n:" + label] = min(st.ext.get("n:" + label, 0) + 1, 2)

    def watch_call(self, I, fr, st, n, oloc, args):
        if n["k"] != "call":
            return
        for label, p in self.watch.items():
            if p(n):
                self.count(st, label)
        l = stream_of(I, fr, st, n, args)
        if l is not None and l.op == "V" and l.a[1] == "cerr":
            self.count(st, "cerr")

    def watch_called(self, I, fr, st, n, val):
        if n["k"] != "call":
            return
        for label, p in self.watch.items():
            if p(n) and val is not None:
                st.ext["r:" + label] = val


class MainH(CliHooks, Base):
    def __init__(self, prog, fixed, watch, follow):
        CliHooks.__init__(self, prog, fixed, follow)
        self.init(prog, watch, follow)

    def inline(self, I, fr, f):
        if any(p(dict(fn=f["name"], k="call", cls="")) for p in self.watch.values()):
            return False
        return CliHooks.inline(self, I, fr, f)

    def call(self, I, fr, st, node, n, oloc, args):
        self.watch_call(I, fr, st, n, oloc, args)

    def called(self, I, fr, st, node, n, oloc, args, val):
        CliHooks.called(self, I, fr, st, node, n, oloc, args, val)
        self.watch_called(I, fr, st, n, val)

    def exit(self, I, fr, st):
        if I.reporting and fr.up is None:
            self.exits.append(st.copy())


class FnH(Base):
    def __init__(self, prog, watch, follow=None):
        self.init(prog, watch, follow)

    def inline(self, I, fr, f):
        return self.follow2 is None or f["u"] in self.follow2

    def call(self, I, fr, st, node, n, oloc, args):
        self.watch_call(I, fr, st, n, oloc, args)

    def called(self, I, fr, st, node, n, oloc, args, val):
        self.watch_called(I, fr, st, n, val)

    def exit(self, I, fr, st):
        if I.reporting and fr.up is None:
            self.exits.append(st.copy())


def counts(st):
    return {k[2:]: v for k, v in st.ext.items() if k.startswith("n:")}


class SerH(FnH):
    """ext tested: the last test of the state of a stream after the text was written."""

    def __init__(self, prog, watch, follow, test):
        super().__init__(prog, watch, follow)
        self.test = test

    def call(self, I, fr, st, node, n, oloc, args):
        super().call(I, fr, st, node, n, oloc, args)
        if n.get("fn") == TOSTREAM:
            st.ext.pop("tested", None)
            st.ext["stream"] = I.argaddr(fr, st, args[3]) if len(args) > 3 else None

    def called(self, I, fr, st, node, n, oloc, args, val):
        super().called(I, fr, st, node, n, oloc, args, val)
        if self.test(n) and oloc is not None and val is not None and \
                st.ext.get("stream") is I.addr(oloc):
            st.ext["tested"] = (val, n["fn"].split("::")[-1] in ("good", "operator bool"))

    def join_ext(self, key, vals):
        if key == "tested":
            return vals[0] if all(v == vals[0] for v in vals) else None
        return super().join_ext(key, vals)


class FormatH(Hooks):
    """The values a validator stores: keys of the table of serializers?"""

    def __init__(self):
        self.vals = []

    def call(self, I, fr, st, node, n, oloc, args):
        if n.get("fn", "").startswith("boost::any::operator=") and I.reporting:
            v = I.val(fr, st, args[0])
            self.vals.append("SERIALIZERS" in repr_deep(v))


def repr_deep(t):
    if not hasattr(t, "op"):
        return " ".join(repr_deep(x) for x in t) if isinstance(t, tuple) else str(t)
    return t.op + " " + " ".join(repr_deep(x) for x in t.a)


def le(s):
    from ..terms import le_atom
    return le_atom(s, C(0))


def fails(st, ok_is_zero):
    """True: returns a failure; False: returns success; None: may be either."""
    t = st.ret
    if t is None:
        return None
    if t.op == "c":
        return bool(t.a[0]) == ok_is_zero
    k = st.knows(t if not ok_is_zero else cmpterm("!=", t, C(0)))
    if k is None:
        return None
    return k if ok_is_zero else not k


def run(prog, r, tier):
    r.rule("status", "On every path on which the program returns 0 after it started an extraction, "
           "the engine reported no error, the text was serialized exactly once with success, and "
           "the visualization, if requested, was saved with success.", 3)
    r.rule("engine", "The engine returns 0 only if the file was loaded without an error and its "
           "pages were parsed, and otherwise returns the error.", 1)
    r.rule("output", "Serialization reports success only if the text was written to the stream and "
           "the state of the stream was tested after that.", 2)
    r.rule("save", "Saving a visualization reports success only if the library did.", 1)
    r.rule("message", "A path that prints an error message reports a failure.", 1)
    r.rule("handler", "An exception handler ends in a failure, or in help or version output; the "
           "engine runs under a handler that covers every standard exception.", 2)
    r.rule("format", "A format is accepted on the command line only if it is a key of the table of "
           "serializers.", 1)
    for nm in ("main", ENGINE, SER):
        if len(prog.fn(nm)) != 1:
            raise AnalysisError("no unique %s" % nm)
    mainf = prog.fn("main")[0]
    watch = {"run": is_call(ENGINE), "serialize": is_call(SER), "save": is_call(VISCLS + "::save"),
             "getSerializer": is_call("ppp::serialization::getSerializer"),
             "vis": lambda n: n["k"] == "construct" and n.get("cls") == VISCLS}
    helpu = set(f["u"] for f in prog.functions.values() if f["file"] == mainf["file"] and
                f["u"] != mainf["u"])
    watch["info"] = lambda n: n.get("u") in helpu
    tgt = set(f["u"] for nm in (ENGINE, SER, VISCLS + "::save") for f in prog.fn(nm))
    follow = query.reaching(prog, tgt) - tgt

    def job(kind):
        fixed = {}
        if kind == "vis":
            fixed = {"visualization-path": mk("s", "v.pdf")}
        h = MainH(prog, fixed, watch, follow)
        I, _ = run_main(prog, h)
        return h, I

    # -- main
    for kind in ("main", "vis"):
        h, I = job(kind)
        r.analysed |= set(I.analysed)
        n = 0
        for st in h.exits:
            c = counts(st)
            f = fails(st, True)
            if c.get("cerr"):
                r.ob("message", "main", f is True,
                     "%s: the program can print an error and still return %s"
                     % (mainf["file"], show(st.ret) if st.ret is not None else None))
            if not c.get("run") or f is True:
                continue
            g = st.ext.get("r:getSerializer")
            if g is not None and st.knows(cmpterm("==", g, NULL)) is True:
                continue     # excluded by the rule 'format'
            n += 1
            s = st.ext.get("r:run")
            zero = s is not None and (st.entails(le(s)) or
                                      st.knows(cmpterm("==", s, C(0))) is True)
            r.ob("status", "engine status", zero and c["run"] == 1,
                 "%s: returns %s although the engine may have reported an error"
                 % (mainf["file"], show(st.ret)))
            o = st.ext.get("r:serialize")
            r.ob("status", "serialized", c.get("serialize") == 1 and o is not None and
                 st.knows(o) is True, "%s: returns %s although the text was serialized %d times or "
                 "its serialization may have failed" % (mainf["file"], show(st.ret),
                                                       c.get("serialize", 0)))
            if kind == "vis":
                o = st.ext.get("r:save")
                r.ob("status", "saved", c.get("save") == 1 and o is not None and
                     st.knows(o) is True, "%s: returns %s although the visualization was saved %d "
                     "times or saving it may have failed" % (mainf["file"], show(st.ret),
                                                            c.get("save", 0)))
        if not n:
            raise AnalysisError("main never succeeds")
    # -- engine
    eng = prog.fn(ENGINE)[0]
    disp = lambda n: n.get("fn") in ("PDFDoc::displayPages", "PDFDoc::displayPage")
    fol = query.reaching(prog, query.having(prog, disp))
    h = FnH(prog, {"parse": disp, "isOk": is_call("PDFDoc::isOk")}, fol)
    I = Interp(prog, h, max_depth=8)
    I.run_root(eng)
    r.analysed |= set(I.analysed)
    for st in h.exits:
        f = fails(st, True)
        okv = st.ext.get("r:isOk")
        if okv is None:
            okv = [a[1] for a in st.facts if a[0] in ("t", "f") and a[1].op == "m:isOk"]
            okv = okv[0] if okv else None
        loaded = st.knows(okv) if okv is not None else None
        code = st.ret is not None and st.ret.op == "m:getErrorCode"
        if loaded is False:
            r.ob("engine", "error", f is True or code, "%s: returns %s after the file could not be "
                 "loaded" % (eng["file"], show(st.ret)))
        else:
            r.ob("engine", "success", (f is True) or (loaded is True and
                 counts(st).get("parse") == 1), "%s: returns %s without having checked that the "
                 "file was loaded, or with the pages parsed %d times"
                 % (eng["file"], show(st.ret), counts(st).get("parse", 0)))
    if not any(k[0] == "engine" for k in r.obs):
        raise AnalysisError("the engine has no end")
    # -- serialize
    sf = prog.fn(SER)[0]
    fol = query.reaching(prog, set(f["u"] for f in prog.fn(TOSTREAM))) | \
        query.having(prog, lambda n: n.get("fn", "").split("::")[-1] in ("good", "fail", "is_open"))
    fol = set(u for u in fol if prog.functions[u]["name"] not in (TOSTREAM,))
    test = lambda n: n["k"] == "call" and n.get("fn", "").split("::")[-1] in (
        "good", "fail", "bad", "operator bool", "operator!") and "basic_ios" in n.get("fn", "")
    h = SerH(prog, {"write": is_call(TOSTREAM)}, fol, test)
    I = Interp(prog, h, max_depth=6)
    I.run_root(sf)
    r.analysed |= set(I.analysed)
    for st in h.exits:
        c = counts(st)
        f = fails(st, False)
        if c.get("cerr"):
            r.ob("message", SER, f is True, "%s: an error is printed but success may be reported"
                 % sf["file"])
        if f is True:
            continue
        r.ob("output", "written", c.get("write") == 1, "%s: success is reported with the text "
             "written %d times" % (sf["file"], c.get("write", 0)))
        s2 = st.copy()
        if f is None:
            assume(s2, st.ret, True)
        t = s2.ext.get("tested")
        good = t is not None and all(x is not None for x in t) and s2.knows(t[0]) is t[1]
        r.ob("output", "state tested", good, "%s: success is reported without a test of the state "
             "of the stream after writing" % sf["file"])
    if not h.exits:
        raise AnalysisError("serialize has no end")
    # -- save
    for vf in prog.fn(VISCLS + "::save"):
        sv = lambda n: n["k"] == "call" and n.get("fn", "") in (
            "PDFDoc::saveAs", "PDFDoc::saveWithoutChangesAs")
        h = FnH(prog, {"saveAs": sv}, query.reaching(prog, query.having(prog, sv)))
        I = Interp(prog, h, max_depth=4)
        I.run_root(vf)
        r.analysed |= set(I.analysed)
        for st in h.exits:
            f = fails(st, False)
            if f is True:
                continue
            s2 = st.copy()
            if st.ret is not None:
                assume(s2, st.ret, True)
            o = s2.ext.get("r:saveAs")
            r.ob("save", "save", st.ret is not None and o is not None and
                 s2.knows(cmpterm("==", o, C(0))) is True,
                 "%s: success is reported although saving may have failed" % vf["file"])
    # -- handlers
    nh = 0
    for f in sorted(prog.functions.values(), key=lambda f: f["name"]):
        for b, x in f["B"].items():
            if x.get("label") != "catch":
                continue
            nh += 1
            if f["u"] != mainf["u"]:
                ends = [e for e in f["nodes"].values() if e["k"] == "throw"]
                r.ob("handler", "%s handler %s" % (query.short(f["name"]), x["ct"]), bool(ends),
                     "%s: an exception is caught in %s and does not reach main"
                     % (f["file"], f["name"]))
    h = MainH(prog, {}, watch, follow)
    I = Interp(prog, h, max_depth=12)
    I.with_handlers = True
    I.run_root(mainf)
    for st in h.exits:
        c = counts(st)
        if not c.get("handler"):
            continue
        good = fails(st, True) is True or (c.get("info", 0) > 0 and not c.get("run"))
        r.ob("handler", "main handler %d" % c["handler"], good,
             "%s: a handler for exceptions can end with the result %s"
             % (mainf["file"], show(st.ret) if st.ret is not None else None))
    cov = False
    for t in mainf.get("tries", ()):
        if any(x["type"] in ("std::exception", "...") for x in t["handlers"]):
            reach = set(mainf["nodes"].get(i, {}).get("u") for i in t["nodes"])
            if any(u in query.reaching(prog, [prog.fn(ENGINE)[0]["u"]]) for u in reach if u):
                cov = True
    r.ob("handler", "engine covered", cov, "%s: an exception thrown by the engine is not caught "
         "by a handler for std::exception" % mainf["file"])
    # -- format
    vs = [f for f in prog.functions.values() if f["name"] == "ppp::types::validate" and
          any("SerializationFormat" in p.get("t", "") for p in f["params"])]
    if len(vs) != 1:
        raise AnalysisError("no validator of formats")
    fh = FormatH()
    I = Interp(prog, fh, max_depth=3)
    I.run_root(vs[0])
    r.analysed |= set(I.analysed)
    r.ob("format", "validator", fh.vals and all(fh.vals), "%s: a format that is not a key of the "
         "table of serializers can be accepted" % vs[0]["file"])

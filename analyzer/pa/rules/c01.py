"""C01: every command-line option sets exactly what it documents."""
from .. import query
from ..cli import CliHooks, optsym, run_main
from ..facts import AnalysisError
from ..par import pmap
from ..terms import C, TRUE, FALSE, mk, isc, show

M = "ppp::modules::"
# option suffix -> (stage class, entry point); the command line is the documented interface
STAGES = {
    "glyphs-statistics-calculation": (M + "GlyphsStatisticsCalculation", "process"),
    "diacritic-marks-merging": (M + "DiacriticalMarksMerging", "process"),
    "words-detection": (M + "WordsDetection", "process"),
    "words-statistics-calculation": (M + "WordsStatisticsCalculation", "process"),
    "page-segmentation": (M + "PageSegmentation", "process"),
    "text-lines-detection": (M + "TextLinesDetection", "process"),
    "sub-super-scripts-detection": (M + "SubSuperScriptsDetection", "process"),
    "text-lines-statistics-calculation": (M + "TextLinesStatisticsCalculation", "process"),
    "text-blocks-detection": (M + "TextBlocksDetection", "process"),
    "reading-order-detection": (M + "ReadingOrderDetection", "process"),
    "words-dehyphenation": (M + "WordsDehyphenation", "process"),
}
VIS = {
    "visualize-characters": "visualizeCharacters",
    "visualize-graphics": "visualizeGraphics",
    "visualize-figures": "visualizeFigures",
    "visualize-shapes": "visualizeShapes",
    "visualize-words": "visualizeWords",
    "visualize-text-lines": "visualizeTextLines",
    "visualize-text-blocks": "visualizeTextBlocks",
    "visualize-segments": "visualizePageSegments",
    "visualize-segment-cuts": "visualizeSegmentCuts",
    "visualize-reading-order": "visualizeReadingOrder",
    "visualize-reading-order-cuts": "visualizeReadingOrderCuts",
}
ENGINE = "ppp::PdfToTextPlusPlus::process"
VISCLS = "ppp::visualization::PdfDocumentVisualization"
LOGCLS = "ppp::utils::log::Logger"


def has_opt(t, memo):
    if not hasattr(t, "op"):
        if isinstance(t, tuple):
            r = set()
            for x in t:
                r |= has_opt(x, memo)
            return r
        return set()
    if t in memo:
        return memo[t]
    memo[t] = set()
    r = set()
    if t.op == "opt":
        r.add(t.a[0])
    for x in t.a:
        if hasattr(x, "op") or isinstance(x, tuple):
            r |= has_opt(x, memo)
    memo[t] = r
    return r


def obj_site(t):
    """(function, node) at which an object term was constructed."""
    if t.op in ("obj", "sym") and isinstance(t.a[0], tuple) and len(t.a[0]) == 3 and \
            isinstance(t.a[0][2], tuple):
        return t.a[0][1], t.a[0][2][0]
    return None


class H(CliHooks):
    """watch: label -> predicate(node); counts events per path."""

    def __init__(self, prog, fixed, follow, watch):
        super().__init__(prog, fixed, follow)
        self.watch = watch
        self.events = []       # (label, where, path, values, loggerframe)
        self.loggers = []
        self.ends = []
        self.consumed = set()
        self.memo = {}
        self.built = {}        # constructor call -> options among its arguments
        self.taint = {}        # container object -> options its contents are built from

    def called(self, I, fr, st, node, n, oloc, args, val):
        super().called(I, fr, st, node, n, oloc, args, val)
        if not self.parsed:
            return
        key = None
        if oloc is not None and n.get("u") not in self.prog.functions:
            key = I.addr(oloc)
        if key is not None:
            got = set()
            for a in args:
                if a is not None and a >= 0:
                    got |= has_opt(I.val(fr, st, a), self.memo)
            if got:
                self.taint.setdefault(key, set()).update(got)

    def partition(self, I, fr, st):
        return tuple(sorted((k, v) for k, v in st.ext.items() if k.startswith("n:")))

    def join_ext(self, key, vals):
        vals = [0 if v is None else v for v in vals]
        return vals[0] if all(v == vals[0] for v in vals) else max(vals)

    def inline(self, I, fr, f):
        if any(p(dict(fn=f["name"], cls=f.get("cls", ""), k="call")) for p in self.watch.values()):
            return False
        if f["name"].startswith(M) and not f.get("ctor") and f["name"] not in (
                M + "ReadingOrderDetection::process",
                M + "ReadingOrderDetection::detectSemanticRoles",
                M + "SemanticRolesPrediction::predict",
                M + "SemanticRolesPrediction::readModel") and f["u"] not in self.follow:
            return False
        return super().inline(I, fr, f)

    def call(self, I, fr, st, node, n, oloc, args):
        if self.parsed and I.reporting:
            for a in args:
                if a is not None and a >= 0:
                    self.consumed |= has_opt(I.val(fr, st, a), self.memo)
        for label, p in self.watch.items():
            if p(n):
                k = "n:" + label
                st.ext[k] = min(st.ext.get(k, 0) + 1, 2)
                if I.reporting:
                    self.events.append((label, query.where(fr.f, n), I.path(fr),
                                        [self.arg(I, fr, st, a) for a in args], fr.f["name"]))
        if self.parsed and n["k"] == "construct" and n.get("u") not in self.prog.functions:
            got = set()
            for a in args:
                if a is not None and a >= 0:
                    got |= has_opt(I.val(fr, st, a), self.memo)
            if got:
                self.built[(fr.f["u"], node)] = got
        if n["k"] == "construct" and n.get("cls") == LOGCLS and not n.get("copy") and I.reporting:
            owner = None
            for x in fr.stack():
                if x.f.get("ctor") and x.f.get("cls", "").startswith(M):
                    owner = x.f["cls"]
            self.loggers.append((owner, query.where(fr.f, n), [I.val(fr, st, a) for a in args],
                                 I.path(fr)))

    def arg(self, I, fr, st, a):
        """(value, address when it is an lvalue, options it is made of, its pdfFilePath field)"""
        v = I.val(fr, st, a)
        ad = I.argaddr(fr, st, a)
        o = set(has_opt(v, self.memo))
        for x in (v, ad):
            if x in self.taint:
                o |= self.taint[x]
            site = obj_site(x) if x is not None else None
            if site:
                o |= self.built.get(site, set())
        pth = I.load(st, mk("F", v, "pdfFilePath"))
        return (v, ad, sorted(o), pth)

    def branch(self, I, fr, st, block, cond, taken):
        if I.reporting:
            self.consumed |= has_opt(cond, self.memo)

    def exit(self, I, fr, st):
        if I.reporting and fr.f["name"] in (ENGINE, "main"):
            ret = st.ret
            self.ends.append((fr.f["name"], ret, {k[2:]: v for k, v in st.ext.items()
                                                  if k.startswith("n:")},
                              [(a[0], a[1].op == "m:isOk") for a in st.facts
                               if a[0] in ("t", "f") and a[1].op == "m:isOk"]))

    def edge(self, I, fr, st, p, succ, info):
        pass


def is_call(name):
    return lambda n: n.get("fn") == name and n["k"] == "call"


def run(prog, r, tier):
    mains = prog.fn("main")
    if len(mains) != 1 or not prog.fn(ENGINE):
        raise AnalysisError("entry points not found")
    r.rule("stage-skip", "A skip option keeps its stage from running, and every stage whose skip "
           "option is absent runs exactly once on every successful extraction, whatever the other "
           "options are (symbolic evaluation of main over all option values).", 24)
    r.rule("log-level", "The log level a stage works with is DEBUG when its debug option is given "
           "and the level named by --verbosity otherwise.", 40)
    r.rule("page-filter", "The page filter a stage logs with is the value of --log-page-filter.", 10)
    r.rule("visualize", "A visualize option draws its own kind of element before the file is saved, "
           "and nothing draws it when the option is absent.", 20)
    r.rule("argument", "The input path, output path, format, roles and types given on the command "
           "line are the values the extraction, the serializer and the visualization work with.", 6)
    r.rule("info", "--help, --full-help and --version end the program successfully without "
           "processing a document.", 3)
    r.rule("consumed", "The value of every option influences something.", 50)
    LV = {k: int(v) for k, v in prog.enums["ppp::utils::log::LogLevel"]["consts"]}

    stage_fns = {s: f["u"] for s, (c, m) in STAGES.items() for f in prog.fn(c + "::" + m)}
    for s, (c, m) in STAGES.items():
        if s not in stage_fns:
            raise AnalysisError("no stage entry point %s::%s" % (c, m))
    model = query.having(prog, lambda n: n["k"] == "construct" and n.get("cls") == "cppflow::model")
    if not model:
        raise AnalysisError("nothing constructs the roles model")
    base = set(stage_fns.values()) | model
    follow = query.reaching(prog, base | set(f["u"] for f in prog.functions.values()
                                             if f.get("cls") == LOGCLS and f.get("ctor")))
    # stages other than the one that predicts roles are not entered
    model_path = query.reaching(prog, model)
    follow_all = follow

    def watch_stage(s):
        c, m = STAGES[s]
        return {s: is_call(c + "::" + m)}

    jobs = []
    for s in STAGES:
        for v in (0, 1):
            jobs.append(("skip", s, v))
    for v in (0, 1):
        jobs.append(("roles", "semantic-roles-prediction", v))
    for s in sorted(STAGES) + ["pdf-parsing"]:
        for v in (0, 1):
            jobs.append(("debug", s, v))
    for v in ("trace", "debug", "info", "warn", "error", "no such level"):
        jobs.append(("verbosity", v, 0))
    for s in VIS:
        for v in (0, 1):
            jobs.append(("vis", s, v))
    for s in ("help", "full-help", "version"):
        jobs.append(("info", s, 1))
    jobs.append(("free", "", 0))
    jobs.append(("nodehyph", "", 1))

    def stage_follow(extra=()):
        # enter only what can reach a stage call, never a stage itself (except towards the model)
        out = set()
        for u in follow_all:
            f = prog.functions[u]
            if u in stage_fns.values() and u not in model_path:
                continue
            if f["name"].startswith(M) and u not in model_path and not f.get("ctor"):
                continue
            out.add(u)
        return out

    fol = stage_follow()

    def one(job):
        kind, s, v = job
        fixed = {}
        watch = {}
        if kind == "skip":
            fixed = {"skip-" + s: C(v)}
            if s == "words-dehyphenation":
                fixed["no-dehyphenation"] = FALSE
            watch = watch_stage(s)
        elif kind == "nodehyph":
            fixed = {"no-dehyphenation": TRUE}
            watch = watch_stage("words-dehyphenation")
        elif kind == "roles":
            fixed = {"skip-" + s: C(v), "skip-reading-order-detection": FALSE}
            watch = {s: lambda n: n["k"] == "construct" and n.get("cls") == "cppflow::model",
                     s + "!": is_call(M + "SemanticRolesPrediction::predict")}
        elif kind == "debug":
            fixed = {"debug-" + s: C(v), "verbosity": mk("s", "info")}
        elif kind == "verbosity":
            fixed = {"verbosity": mk("s", s)}
            for x in list(STAGES) + ["pdf-parsing", "semantic-roles-prediction"]:
                fixed["debug-" + x] = FALSE
        elif kind == "vis":
            fixed = {s: C(v), "visualization-path": mk("s", "v.pdf")}
            watch = {s: is_call(VISCLS + "::" + VIS[s]), "save": is_call(VISCLS + "::save"),
                     "serialize": is_call("ppp::serialization::Serializer::serialize")}
        elif kind == "info":
            fixed = {s: TRUE}
            watch = {"run": is_call(ENGINE)}
        elif kind == "free":
            watch = {"serialize": is_call("ppp::serialization::Serializer::serialize"),
                     "format": is_call("ppp::serialization::getSerializer"),
                     "visdoc": lambda n: n["k"] == "construct" and n.get("cls") == VISCLS and
                     not n.get("copy"),
                     "save": is_call(VISCLS + "::save"),
                     "run": is_call(ENGINE)}
        fl = fol
        if kind == "roles":
            h = H(prog, fixed, fol, {s: watch[s]})
            h.watch2 = watch[s + "!"]
        else:
            h = H(prog, fixed, fl, watch)
        if kind == "free":
            # the engine is entered so that everything is consumed where it is used
            h.inline = lambda I, fr, f: (True if f.get("ctor") else CliHooks.inline(h, I, fr, f) and
                                         not any(p(dict(fn=f["name"], k="call", cls=""))
                                                 for l, p in watch.items() if l != "run"))
        I, ex = run_main(prog, h)
        return (job, h.events, h.loggers, h.ends, sorted(h.consumed),
                {k: (show(v[0]) if v[0] is not None else None, v[1], v[2])
                 for k, v in h.options.items()}, sorted(I.analysed), h.parsed)

    for job, events, loggers, ends, consumed, options, analysed, parsed in pmap(one, jobs):
        kind, s, v = job
        r.analysed |= set(analysed)
        if not parsed:
            raise AnalysisError("the parsing of the command line was not recognised")
        evs = [e for e in events if e[0] == s]
        if kind == "skip":
            name = "skip-" + s
            if name not in options:
                r.bad("stage-skip", s, "option --%s is not declared" % name)
                continue
            ee = [x for x in ends if x[0] == ENGINE]
            if not ee:
                raise AnalysisError("the extraction engine was not reached")
            if v == 1:
                r.ob("stage-skip", s + " given", not evs,
                     "with --%s the stage still runs at %s" % (name, evs[0][1] if evs else ""))
            else:
                bad = [x for x in ee if x[2].get(s, 0) != 1 and ("f", True) not in x[3]]
                r.ob("stage-skip", s + " absent", not bad and bool(evs),
                     "without --%s a successful extraction can end with the stage run %s times"
                     % (name, bad[0][2].get(s, 0) if bad else 0))
        elif kind == "nodehyph":
            ws = [e for e in events if e[0] == "words-dehyphenation"]
            r.ob("stage-skip", "no-dehyphenation", not ws,
                 "with --no-dehyphenation words are still merged: %s" % (ws[0][1] if ws else ""))
        elif kind == "roles":
            if v == 1:
                r.ob("stage-skip", s + " given", not evs,
                     "with --skip-%s the roles model is still loaded at %s"
                     % (s, evs[0][1] if evs else ""))
            else:
                r.ob("stage-skip", s + " absent", bool(evs),
                     "without --skip-%s the roles model is never loaded" % s)
        elif kind in ("debug", "verbosity"):
            for owner, wh, vals, path in loggers:
                if owner is None or "PdfDocumentVisualization" in path:
                    continue
                own = [k for k, (c, _) in STAGES.items() if c == owner]
                own = own[0] if own else ("pdf-parsing" if owner == M + "PdfParsing" else owner)
                lvl = vals[0] if vals else None
                if kind == "debug":
                    if own != s:
                        continue
                    want = LV["DEBUG"] if v else LV["INFO"]
                    r.ob("log-level", "%s %s" % (own, "debug" if v else "plain"),
                         lvl is C(want),
                         "%s: log level of %s is %s (expected %d) %s --debug-%s and --verbosity "
                         "info" % (wh, owner, show(lvl), want, "with" if v else "without", s))
                else:
                    want = LV.get(s.upper(), LV["ERROR"])
                    r.ob("log-level", "%s verbosity %s" % (own, s), lvl is C(want),
                         "%s: with --verbosity '%s' the log level of %s is %s (expected %d)"
                         % (wh, s, owner, show(lvl), want))
                    flt = vals[1] if len(vals) > 1 else None
                    r.ob("page-filter", own, flt is optsym("log-page-filter"),
                         "%s: page filter of %s is %s, not the value of --log-page-filter"
                         % (wh, owner, show(flt) if flt is not None else "absent"))
        elif kind == "vis":
            if v == 0:
                r.ob("visualize", s + " absent", not evs,
                     "without --%s the elements are drawn at %s" % (s, evs[0][1] if evs else ""))
            else:
                bad = [x for x in ends if x[0] == "main" and x[2].get("serialize") and
                       x[1] is C(0) and
                       (x[2].get("save", 0) != 1 or x[2].get(s, 0) != 1)]
                mm = [x for x in ends if x[0] == "main" and x[2].get("save")]
                r.ob("visualize", s, not bad and bool(mm) and bool(evs),
                     "with --%s and a visualization path, a run can end with %s called %s times and "
                     "the file saved %s times" % (s, VIS[s], bad[0][2].get(s, 0) if bad else 0,
                                                  bad[0][2].get("save", 0) if bad else 0))
                docs = set(e[3][0][1] or e[3][0][0] for e in evs + [
                    x for x in events if x[0] == "serialize"] if e[3])
                r.ob("visualize", s + " document", len(docs) == 1,
                     "%s does not draw the processed document" % (evs[0][1] if evs else ""))
        elif kind == "info":
            ev = [e for e in events if e[0] == "run"]
            mm = [x for x in ends if x[0] == "main"]
            bad = [x for x in mm if x[1] is not C(0)]
            r.ob("info", s, not ev and mm and not bad,
                 "with --%s the program %s" % (s, "processes a document at %s" % ev[0][1] if ev else
                                               "does not end successfully"))
        elif kind == "free":
            for name, (loc, knd, wh) in sorted(options.items()):
                r.ob("consumed", name, name in consumed,
                     "%s: the value of option --%s is never used" % (wh, name))
            by = {}
            for e in events:
                by.setdefault(e[0], []).append(e)

            def arg(label, i, want, what, conv=lambda t: t):
                es = by.get(label)
                if not es:
                    r.bad("argument", what, "the call that should receive the %s is missing" % what)
                    return
                for e in es:
                    t = e[3][i][0] if len(e[3]) > i else None
                    t = conv(t) if t is not None else None
                    r.ob("argument", what, t is want or (t is not None and t == want),
                         "%s: receives %s instead of the %s"
                         % (e[1], show(t) if t is not None else None, what))
            for e in by.get("run", ()):
                r.ob("argument", "input path", e[3] and e[3][0][3] is optsym("pdf-file"),
                     "%s: the processed document's path is %s instead of the input path"
                     % (e[1], show(e[3][0][3]) if e[3] else None))
            if not by.get("run"):
                r.bad("argument", "input path", "no document is processed")
            arg("visdoc", 0, optsym("pdf-file"), "input path of the visualization")
            arg("serialize", 3, optsym("output-file"), "output path")
            arg("save", 0, optsym("visualization-path"), "visualization path")
            arg("format", 0, optsym("format"), "format")
            for i, nm in ((1, "role"), (2, "type")):
                for e in by.get("serialize", ()):
                    t = e[3][i]
                    got = t[2]
                    r.ob("argument", nm + "s", got == [nm],
                         "%s: the set of %ss is built from %s" % (e[1], nm, got or show(t[0])))
            docs = set(e[3][0][1] or e[3][0][0] for l in ("run", "serialize") for e in by.get(l, ()))
            r.ob("argument", "document", len(docs) == 1,
                 "the serialized document is not the processed one: %s"
                 % ", ".join(sorted(show(d) for d in docs)))

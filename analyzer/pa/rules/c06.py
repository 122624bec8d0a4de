"""C06: writing the output leaves the extracted document as it is."""
from .. import effects, query
from ..cli import CliHooks, run_main
from ..facts import AnalysisError
from ..interp import Hooks, Interp
from ..terms import mk, show
from .c01 import ENGINE, VISCLS, is_call
from .c03 import SER

SERCLS = "ppp::serialization::Serializer"


class Eff(Hooks):
    def __init__(self, prog, r, root):
        self.prog = prog
        self.r = r
        self.fields = effects.type_fields(prog)
        self.root = root
        self.n = 0

    def own(self, st, fields, root):
        """Is the object made by the code itself, or part of the output object?"""
        if not fields or not any(f in self.fields for f in fields):
            return True
        if root.op == "this" or root.op == "obj":
            return True
        if root.op in ("sym",) and "new" in repr(root.a):
            return True
        if root.op == "V" and not str(root.a[0]).endswith("*"):
            return True
        return False

    def judge(self, I, fr, st, n, loc, what):
        if not I.reporting:
            return
        self.n += 1
        fields, root = effects.chain(loc)
        if not self.own(st, fields, root):
            self.r.bad("unchanged", self.root["name"], "%s: %s changes %s (%s)"
                       % (query.where(fr.f, n), fr.f["name"], show(loc)[:120], what))

    def store(self, I, fr, st, node, loc, val, old):
        n = fr.f["nodes"].get(node, {}) if node is not None else {}
        self.judge(I, fr, st, n, loc, "assignment")

    def call(self, I, fr, st, node, n, oloc, args):
        f = self.prog.functions.get(n.get("u"))
        if f is not None and I.can_inline(fr, f, n):
            return
        if f is not None and f.get("overrides") is not None and n.get("virt"):
            return          # every overrider is a root of its own
        for loc, how in effects.writes(I, fr, st, n, oloc, args):
            self.judge(I, fr, st, n, loc, "call of " + how)

    def delete(self, I, fr, st, node, val):
        if I.reporting:
            fields, root = effects.chain(val)
            if fields and not self.own(st, fields, root):
                self.r.bad("unchanged", self.root["name"], "%s: %s deletes %s"
                           % (fr.f["file"], fr.f["name"], show(val)[:120]))


class MainEff(CliHooks):
    def __init__(self, prog, r, follow):
        super().__init__(prog, {"visualization-path": mk("s", "v.pdf")}, follow)
        self.r = r
        self.ran = 0

    def inline(self, I, fr, f):
        return f.get("ctor") or f["u"] in self.follow

    def join_ext(self, key, vals):
        for v in vals:
            if v is not None:
                return v

    def docs(self, st):
        return st.ext.get("doc")

    def call(self, I, fr, st, node, n, oloc, args):
        super().call(I, fr, st, node, n, oloc, args)
        if n.get("fn") == ENGINE and n["k"] == "call":
            st.ext["doc"] = I.val(fr, st, args[0])
            if I.reporting:
                self.ran += 1
            return
        d = st.ext.get("doc")
        if d is None or not I.reporting:
            return
        f = self.prog.functions.get(n.get("u"))
        outs = effects.writes(I, fr, st, n, oloc, args)
        for loc, how in outs:
            if effects.chain(loc)[1] is d or (d.op == "&" and effects.chain(loc)[1] is d.a[0]):
                self.r.bad("unchanged", "main", "%s: the document is changed by a call of %s "
                           "after the extraction" % (query.where(fr.f, n), how))

    def store(self, I, fr, st, node, loc, val, old):
        d = st.ext.get("doc")
        if d is None or not I.reporting:
            return
        x = effects.chain(loc)[1]
        if x is d or (d.op == "&" and x is d.a[0]):
            self.r.bad("unchanged", "main", "%s: the document is changed after the extraction"
                       % fr.f["file"])


def derived(prog, cls):
    out = {cls}
    grow = True
    while grow:
        grow = False
        for c, rec in prog.records.items():
            bs = [b if isinstance(b, str) else b.get("name") for b in rec.get("bases", ())]
            if c not in out and any(b in out for b in bs):
                out.add(c)
                grow = True
    return out


def run(prog, r, tier):
    r.rule("unchanged", "No store, mutating call or deletion reached from a serializer, a drawing "
           "or saving method or the end of main works on an element of the processed document.", 8)
    r.rule("own document", "A visualization parses only into a document of its own.", 1)
    sers = derived(prog, SERCLS)
    roots = [f for f in prog.functions.values() if f.get("cls") in sers | {VISCLS} and
             not f.get("ctor") and not f.get("dtor") and not f.get("lambda")]
    if not any(f["name"] == SER for f in roots) or not any(f["cls"] == VISCLS for f in roots):
        raise AnalysisError("no output functions found")
    n = 0
    for f in sorted(roots, key=lambda f: f["name"]):
        h = Eff(prog, r, f)
        I = Interp(prog, h, max_depth=8)
        I.run_root(f)
        r.analysed |= set(I.analysed)
        r.ok("unchanged", f["name"])
        n += h.n
    r.extra["stores_and_calls_judged"] = n
    follow = query.reaching(prog, [prog.fn(ENGINE)[0]["u"], prog.fn(SER)[0]["u"]]) - \
        {prog.fn(ENGINE)[0]["u"], prog.fn(SER)[0]["u"]}
    h = MainEff(prog, r, follow)
    I, _ = run_main(prog, h)
    if not h.ran:
        raise AnalysisError("the extraction was not reached from main")
    r.ok("unchanged", "main")
    # the parser a visualization uses as a drawing target
    for f in prog.functions.values():
        if f.get("cls") == VISCLS and f.get("ctor"):
            class Own(Hooks):
                def inline(self, I, fr, g):
                    return False

                def call(self, I, fr, st, node, nn, oloc, args):
                    if nn["k"] == "construct" and nn.get("cls") == "ppp::modules::PdfParsing" and \
                            I.reporting and not nn.get("copy"):
                        v = I.val(fr, st, args[0])
                        fields, root = effects.chain(v)
                        good = root.op in ("obj", "sym") or (root.op == "this")
                        r.ob("own document", f["name"], good, "%s: the visualization draws through "
                             "a parser that works on %s" % (query.where(fr.f, nn), show(v)))
            I = Interp(prog, Own(), max_depth=2)
            I.run_root(f)

"""C02: the stages run in the documented order, all on the caller's document."""
from .. import query
from ..facts import AnalysisError
from ..cli import CliHooks, run_main
from ..par import pmap
from ..terms import C, mk, show
from .c01 import ENGINE, M, STAGES, is_call

ORDER = ["parse", "glyphs-statistics-calculation", "diacritic-marks-merging", "words-detection",
         "words-statistics-calculation", "page-segmentation", "text-lines-detection",
         "sub-super-scripts-detection", "text-lines-statistics-calculation",
         "text-blocks-detection", "reading-order-detection", "words-dehyphenation"]
DISPLAY = "PDFDoc::displayPages"


class H(CliHooks):
    """ext: o -> order of stage calls so far on this path."""

    def __init__(self, prog, fixed, labels, follow):
        super().__init__(prog, fixed, follow)
        self.labels = labels
        self.docs = set()
        self.pages = {}
        self.calls = []
        self.ends = []

    def partition(self, I, fr, st):
        return st.ext.get("o", ())

    def call(self, I, fr, st, node, n, oloc, args):
        if n.get("fn") == ENGINE and n["k"] == "call" and I.reporting:
            self.docs.add(I.val(fr, st, args[0]))
        lab = self.labels(n)
        if not lab:
            return
        st.ext["o"] = st.ext.get("o", ()) + (lab,)
        if I.reporting:
            doc = None
            if lab == "parse":
                vals = [I.val(fr, st, a) for a in args]
                dev = vals[0] if vals else None
                if dev is not None:
                    doc = I.load(st, mk("F", dev, "_doc"))
                self.calls.append((lab, query.where(fr.f, n), doc, vals,
                                   I.addr(oloc) if oloc is not None else None))
                return
            if oloc is not None:
                doc = I.load(st, mk("F", I.addr(oloc), "_doc"))
            self.calls.append((lab, query.where(fr.f, n), doc, [], None))

    def called(self, I, fr, st, node, n, oloc, args, val):
        super().called(I, fr, st, node, n, oloc, args, val)
        if n.get("fn") == "PDFDoc::getNumPages" and oloc is not None and val is not None:
            self.pages[val] = I.addr(oloc)

    def exit(self, I, fr, st):
        if I.reporting and fr.f["name"] == ENGINE:
            ok = None
            for a in st.facts:
                if a[0] in ("t", "f") and hasattr(a[1], "op") and a[1].op == "m:isOk":
                    ok = a[0] == "t"
            self.ends.append((st.ext.get("o", ()), st.ret, ok))


def engine_hooks(prog):
    names = {c + "::" + m: s for s, (c, m) in STAGES.items()}

    def labels(n):
        if n["k"] != "call":
            return None
        if n.get("fn") == DISPLAY or n.get("fn") == "PDFDoc::displayPage":
            return "parse"
        return names.get(n.get("fn"))
    stage_u = set(f["u"] for nm in names for f in prog.fn(nm))
    follow = query.reaching(prog, stage_u | query.having(prog, lambda n: labels(n) == "parse"))
    follow = set(u for u in follow if u not in stage_u and
                 not prog.functions[u]["name"].startswith(M))
    return labels, follow


def run(prog, r, tier):
    eng = prog.fn(ENGINE)
    if len(eng) != 1:
        raise AnalysisError("no unique engine entry point")
    r.rule("order", "On every path to a successful end, with every stage enabled, the parser and "
           "each stage run exactly once and in the documented order; with any single stage disabled "
           "the others keep their order.", 12)
    r.rule("document", "The parser and every stage work on the document the caller passed.", 12)
    r.rule("pages", "The parser is given every page of the loaded file, from the first to the "
           "last.", 1)
    labels, follow = engine_hooks(prog)
    follow |= set(eng[0]["u"] for _ in (0,)) | query.reaching(prog, [eng[0]["u"]])

    def one(off):
        fixed = {"skip-" + x: C(1 if x == off else 0) for x in ORDER[1:]}
        fixed["no-dehyphenation"] = C(0)
        h = H(prog, fixed, labels, follow)
        I, _ = run_main(prog, h)
        return off, h.pages, h.docs, h.calls, h.ends, sorted(I.analysed)

    for off, pages, docs, calls, ends, an in pmap(one, [None] + ORDER[1:]):
        r.analysed |= set(an)
        good = [e for e in ends if e[2] is not False]
        if not good or len(docs) != 1:
            raise AnalysisError("the engine has no successful end")
        docv = list(docs)[0]
        if off is None:
            for lab in ORDER:
                cnt = set(e[0].count(lab) for e in good)
                r.ob("order", lab, cnt == {1}, "with every stage enabled, %s runs %s times on some "
                     "successful path" % (lab, sorted(cnt)))
            for e in good:
                r.ob("order", "sequence", list(e[0]) == ORDER,
                     "the stages run in the order %s" % " < ".join(e[0]))
            for lab, wh, doc, vals, pdf in calls:
                r.ob("document", lab, doc is docv, "%s: %s works on %s instead of the caller's "
                     "document" % (wh, lab, show(doc) if doc is not None else None))
                if lab == "parse":
                    first, last = vals[1], vals[2]
                    r.ob("pages", "range", first is C(1) and pages.get(last) is pdf,
                         "%s: pages %s to %s are parsed" % (wh, show(first), show(last)))
        else:
            for e in good:
                r.ob("order", "without " + off, list(e[0]) == [x for x in ORDER if x != off],
                     "with %s disabled the stages that run are %s" % (off, " < ".join(e[0])))

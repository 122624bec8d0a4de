"""C08: the plain text output has every selected text once, in order and separated as documented."""
import itertools

from ..facts import AnalysisError
from ..interp import Interp
from ..terms import mk
from ..trav import Trav
from .c07 import ROLE

ROOTS = {"txt": "ppp::serialization::PlainTextSerializer::serializeToStream",
         "txt-extended": "ppp::serialization::PlainTextExtendedSerializer::serializeToStream"}
P = "doc.pages[]"
B = P + ".blocks[]"
L = B + ".lines[]"
W = L + ".words[]"
CH = W + ".characters[]"


class Plain(Trav):
    """Tracks whether a block was written before, and a word of the current block."""
    accs = True

    def __init__(self, prog):
        super().__init__(prog)
        self.pure = (ROLE,)
        self.turns = {}
        self.uppered = set()

    # ------------------------------------------------ a loop that converts a text to upper case
    def store(self, I, fr, st, node, loc, val, old):
        super().store(I, fr, st, node, loc, val, old)
        if loc.op == "E" and loc.a[0].op == "&" and loc.a[0].a[0].op == "V":
            s = loc.a[0].a[0]
            now = I.load(st, loc) if old is None else old
            x = bare(val)
            good = x.op == "fn" and str(x.a[0]).split("::")[-1] == "toupper" and \
                bare(x.a[1]) is bare(now) and self.current(st, place(loc.a[1]))
            st.ext["upd"] = st.ext.get("upd", ()) + ((s if good else None),)

    def entered(self, I, fr, st, key):
        super().entered(I, fr, st, key)
        st.ext["pre"] = st.ext.get("pre", ()) + ((key, tuple(sorted((
            (l, v) for l, v in st.env.items() if l.op == "V"), key=repr))),)
        st.ext.pop("upd", None)

    def left(self, I, fr, st, key):
        super().left(I, fr, st, key)
        pre = [x for k, x in st.ext.get("pre", ()) if k == key]
        st.ext["pre"] = tuple(x for x in st.ext.get("pre", ()) if x[0] != key)
        ups = self.turns.get(key, ())
        st.ext.pop("upd", None)
        if len(ups) == 1 and self.ran_out and pre:
            (u,) = ups
            if len(u) == 1 and u[0] is not None and self.cont_addr is not None and \
                    self.cont_addr is I.addr(u[0]) and u[0] in dict(pre[0]):
                for k in [k for k in st.env if k.op == "E" and k.a[0] is self.cont_addr]:
                    del st.env[k]
                st.env[u[0]] = mk("fn", "upper", dict(pre[0])[u[0]])
                self.uppered.add(key)

    def settle(self):
        keep = lambda ev: tuple(t for t in ev if not (t[0] == "loop" and t[1] in self.uppered))
        self.variants = {k: set((keep(ev), cs, how) for ev, cs, how in v)
                         for k, v in self.variants.items() if k not in self.uppered}
        self.ends = set((keep(ev), cs) for ev, cs in self.ends)
        super().settle()

    def ghosts(self, st):
        return st.ext.get("g", (False, False))

    def conds(self, I, fr, st, facts=None):
        out = super().conds(I, fr, st, facts)
        if facts is None:
            g = self.ghosts(st)
            out |= {(("ghost", "block"), g[0]), (("ghost", "word"), g[1])}
        return out

    def partition(self, I, fr, st):
        """Paths are kept apart by what they know of the current element."""
        return super().partition(I, fr, st) + (frozenset(
            c for c in self.conds(I, fr, st) if c[0] in KNOWN),)

    def edge(self, I, fr, st, p, succ, info):
        super().edge(I, fr, st, p, succ, info)
        # what was written takes effect after the turn was recorded
        pend = st.ext.pop("pend", None)
        if pend is not None:
            st.ext["g"] = pend

    def turn(self, I, fr, st, key):
        ev = st.ext.get("ev", ())
        path = self.loop_path(I, fr, st, key)
        g = self.ghosts(st)
        some = any(t[0] != "new" for t in ev)
        if path == W[:-2] and some:
            st.ext["pend"] = (g[0], True)
        elif path == B[:-2]:
            st.ext["pend"] = (g[0] or some, False)
        self.turns.setdefault(key, set()).add(st.ext.pop("upd", ()))
        super().turn(I, fr, st, key)


def bare(t):
    """A value without conversions between integers."""
    while t.op in ("narrow", "cast", "sext", "zext", "wrap"):
        t = t.a[0]
    return t


def place(t):
    while t.op == "itx":
        t = t.a[0]
    return t


def lit(s):
    return (("lit", s),) if s else ()


def merge(toks):
    out = []
    for t in toks:
        if t[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + t[1])
        elif t != ("lit", ""):
            out.append(t)
    return tuple(out)


def spec(level, ext, at):
    """Expected events of one turn; "loop" stands for the loop over the next level."""
    if level == "end":
        return ("loop",) + lit("\n")
    if level == "pages":
        return (("loop",) + lit("\n\f")) if ext else ("loop",)
    if level == "blocks":
        if not at[("in", "roles", B + ".role")]:
            return ()
        out = lit("\n\n") if at[("ghost", "block")] else ()
        if ext:
            out += lit("[") + (("fn", "upper", "getSemanticRoleName(%s.role)" % B),) + lit("] ")
            if at[("is", B + ".isEmphasized")]:
                out += lit("\x01")
        return out + ("loop",)
    if level == "lines":
        return ("loop",)
    if level == "words":
        if at[("is", W + ".isSecondPartOfHyphenatedWord")]:
            return ()
        out = lit(" ") if at[("ghost", "word")] else ()
        if at[("is", W + ".isFirstPartOfHyphenatedWord")]:
            return out + (("val", W + ".isFirstPartOfHyphenatedWord.text"),)
        return out + ("loop",)
    if at[("is", CH + ".isBaseCharOfDiacriticMark")]:
        return (("val", CH + ".textWithDiacriticMark"),)
    if at[("is", CH + ".isDiacriticMarkOfBaseChar")]:
        return ()
    return (("val", CH + ".text"),)


NEED = {"end": (), "pages": (), "lines": (),
        "blocks": (("in", "roles", B + ".role"), ("ghost", "block")),
        "words": (("is", W + ".isSecondPartOfHyphenatedWord"), ("ghost", "word"),
                  ("is", W + ".isFirstPartOfHyphenatedWord")),
        "characters": (("is", CH + ".isBaseCharOfDiacriticMark"),
                       ("is", CH + ".isDiacriticMarkOfBaseChar"))}
KNOWN = set(a for n in NEED.values() for a in n if a[0] != "ghost") | {("is", B + ".isEmphasized")}
NEXT = {"end": ("pages", "doc.pages"), "pages": ("blocks", P + ".blocks"),
        "blocks": ("lines", B + ".lines"), "lines": ("words", L + ".words"),
        "words": ("characters", W + ".characters")}
RULE = {"end": "document", "pages": "page", "blocks": "block", "lines": "block",
        "words": "word", "characters": "character"}


def show(toks):
    return " ".join(repr(t[1]) if t[0] == "lit" else "<all %s>" % t[2] if t[0] == "loop" else
                    "<left early>" if t[0] == "brk" else t if t == "loop" else
                    "<%s>" % " ".join(str(x) for x in t[1:]) for t in toks) or "nothing"


def level(h, r, fmt, lv, variants, where, done):
    ext = fmt == "txt-extended"
    for ev, conds, how in variants:
        for toks, cs in h.expand(ev, conds):
            need = NEED[lv] + ((("is", B + ".isEmphasized"),) if ext and lv == "blocks" else ())
            free = [a for a in need if a not in cs]
            for vals in itertools.product((False, True), repeat=len(free)):
                at = dict(cs)
                at.update(zip(free, vals))
                # both a base character and a mark: its text is that of the base character
                exp = spec(lv, ext, at)
                got = []
                for t in toks:
                    if t[0] == "loop" and lv in NEXT and t[2] == NEXT[lv][1] and \
                            h.whole(t[1], t[3]):
                        got.append("loop")
                    else:
                        got.append(t)
                good = how != "break" and merge(tuple(got)) == merge(tuple(exp))
                key = "%s/%s/%s" % (fmt, lv, "".join(
                    "%s%s" % ("+" if at[a] else "-", a[-1].split(".")[-1]) for a in need))
                r.ob(RULE[lv], key, good, "%s: format %s: for %s, %s is written instead of %s" % (
                    where, fmt, ", ".join("%s%s" % ("" if at[a] else "not ",
                                                    a[-1].split("].")[-1]) for a in need) or
                    "every " + RULE[lv], show(toks) + (" and the loop is left" if how == "break"
                                                        else ""),
                    " ".join("<all %s>" % NEXT[lv][1] if x == "loop" else show([x]) for x in exp)
                    or "nothing"))
            for t in toks:
                if t[0] in ("loop", "brk") and lv in NEXT and (t[1], NEXT[lv][0]) not in done:
                    done.add((t[1], NEXT[lv][0]))
                    level(h, r, fmt, NEXT[lv][0], h.variants.get(t[1], ()), h.where.get(t[1]),
                          done)


def run(prog, r, tier):
    r.rule("document", "All pages are written and the text ends with a newline.", 2)
    r.rule("page", "All blocks of a page are visited; the extended format ends each page with a "
           "form feed.", 2)
    r.rule("block", "A block is written once if its role is selected and not at all otherwise; "
           "blocks are separated by a blank line.", 10)
    r.rule("word", "Every word is written once, separated by single spaces; both parts of a "
           "hyphenated word are written as the merged word.", 10)
    r.rule("character", "Every character is written once, with its merged diacritic mark.", 6)
    for fmt, root in ROOTS.items():
        fs = prog.fn(root)
        if len(fs) != 1:
            raise AnalysisError("no unique entry point of format %s" % fmt)
        h = Plain(prog)
        for p in fs[0]["params"]:
            t = p.get("t", "")
            nm = "doc" if "PdfDocument" in t else "roles" if "SemanticRole" in t else None
            if nm:
                h.roots[mk("iv", p["d"] + "*" if p.get("ref") else p["d"], p["name"])] = nm
                h.roots[mk("V", p["d"] + "*", p["name"])] = nm
        I = Interp(prog, h, max_depth=6)
        I.run_root(fs[0])
        r.analysed |= set(I.analysed)
        h.settle()
        level(h, r, fmt, "end", [(ev, c, "end") for ev, c in h.ends], fs[0]["file"], set())
        if len(h.variants) < 5:
            raise AnalysisError("format %s: fewer loops than levels of the document" % fmt)

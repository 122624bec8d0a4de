"""C07: the structured output has one well-formed record per element, with the element's values."""
import itertools

from .. import query
from ..facts import AnalysisError
from ..interp import Interp, assume, atom_terms
from ..terms import C, T, add, isc, le_atom, mk
from ..trav import Trav

ESC = "ppp::utils::text::escapeJson"
ROLE = "ppp::utils::elements::getSemanticRoleName"
ROOT = "ppp::serialization::JsonlSerializer::serializeToStream"
ENUM = "ppp::types::PdfElementType"

BOX = {"page": ("num", "{e}.pos.pageNum"), "minX": ("num", "{e}.pos.leftX"),
       "minY": ("num", "{e}.pos.upperY"), "maxX": ("num", "{e}.pos.rightX"),
       "maxY": ("num", "{e}.pos.lowerY")}
IDR = {"id": ("str", "{e}.id"), "rank": ("num", "{e}.rank")}
FONT = {"font": ("esc", "{e}.fontName"), "fontSize": ("num", "{e}.fontSize")}
INFO = "doc.fontInfos[{e}.fontName]"
KINDS = {
    "PAGES": ("page", ["pages"], {"num": ("num", "{e}.pageNum"), "width": ("num", "(+{e}.clipRightX -{e}.clipLeftX)"),
                                  "height": ("num", "(+{e}.clipLowerY -{e}.clipUpperY)")}),
    "CHARACTERS": ("char", ["pages", "blocks", "lines", "words", "characters"], dict(
        BOX, **IDR, **FONT, **{
            "wMode": ("num", "{e}.pos.wMode"), "rotation": ("num", "{e}.pos.rotation"),
            "weight": ("num", INFO + ".weight"), "italic": ("bool", INFO + ".isItalic"),
            "type-3": ("bool", INFO + ".isType3"), "color": ("arr", "{e}.color"),
            "opacity": ("num", "{e}.opacity"), "text": ("chartext", "{e}"),
            "word": ("str", "{3}.id"), "block": ("str", "{1}.id")})),
    "WORDS": ("word", ["pages", "blocks", "lines", "words"], dict(
        BOX, **IDR, **FONT, text=("esc", "{e}.text"), block=("str", "{1}.id"))),
    "TEXT_BLOCKS": ("block", ["pages", "blocks"], dict(
        BOX, **IDR, **FONT, text=("esc", "{e}.text"), role=("role", "{e}.role"))),
    "FIGURES": ("figure", ["pages", "figures"], dict(BOX, **IDR)),
    "SHAPES": ("shape", ["pages", "shapes"], dict(BOX, **IDR)),
    "TEXT_LINES": ("line", ["pages", "blocks", "lines"], None),
}


class Bad(Exception):
    pass


# -------------------------------------------------------------------- JSON with holes
def parse(toks):
    """One record and a newline, as {key: node}."""
    s = []
    for t in toks:
        if t[0] == "lit":
            s.extend(t[1])
        elif t[0] in ("val", "fn", "chr"):
            s.append(t)
        else:
            raise Bad("the record is interrupted by %s" % (t[0],))
    pos = [0]

    def peek():
        return s[pos[0]] if pos[0] < len(s) else None

    def ws():
        while peek() in (" ", "\t"):
            pos[0] += 1

    def need(c):
        ws()
        if peek() != c:
            got = "".join(x if isinstance(x, str) else "<value>" for x in s[max(0, pos[0] - 25):
                                                                           pos[0] + 5])
            raise Bad("the record is not valid JSON: expected %r near %r" % (c, got))
        pos[0] += 1

    def string():
        need('"')
        parts = []
        buf = ""
        while True:
            c = peek()
            if c is None:
                raise Bad("a string of the record is not closed")
            pos[0] += 1
            if c == '"':
                break
            if not isinstance(c, str):
                if buf:
                    parts.append(("lit", buf))
                    buf = ""
                parts.append(c)
                continue
            if c == "\\":
                d = peek()
                if d not in tuple('"\\/bfnrtu'):
                    raise Bad("a string of the record contains an invalid escape")
                buf += c + d
                pos[0] += 1
                continue
            if ord(c) < 32:
                raise Bad("a string of the record contains a raw control character")
            buf += c
        if buf:
            parts.append(("lit", buf))
        return ("str", tuple(parts))

    def value():
        ws()
        c = peek()
        if c == '"':
            return string()
        if c == "[":
            need("[")
            out = []
            ws()
            if peek() == "]":
                need("]")
                return ("arr", ())
            while True:
                out.append(value())
                ws()
                if peek() == "]":
                    break
                need(",")
            need("]")
            return ("arr", tuple(out))
        if c == "{":
            return ("obj", tuple(sorted(obj().items())))
        parts = []
        buf = ""
        while peek() is not None and peek() not in tuple(",]}\n \t\""):
            c = peek()
            if isinstance(c, str):
                buf += c
            else:
                if buf:
                    parts.append(("lit", buf))
                    buf = ""
                parts.append(c)
            pos[0] += 1
        if buf:
            parts.append(("lit", buf))
        if len(parts) != 1:
            raise Bad("the record contains an empty or composed number")
        return ("num", parts[0])

    def obj():
        need("{")
        out = {}
        while True:
            ws()
            k = string()
            if len(k[1]) != 1 or k[1][0][0] != "lit":
                raise Bad("a key of the record is not fixed text")
            need(":")
            if k[1][0][1] in out:
                raise Bad("the key %r occurs twice" % k[1][0][1])
            out[k[1][0][1]] = value()
            ws()
            if peek() == "}":
                break
            need(",")
        need("}")
        return out

    res = obj()
    ws()
    if s[pos[0]:] != ["\n"]:
        raise Bad("the record does not end in exactly one newline")
    return res


def paths(chain):
    out = ["doc"]
    for f in chain:
        out.append("%s.%s[]" % (out[-1], f))
    return out[1:]


def expect(kind, spec, e, ps, at):
    """Expected nodes of the record of element e, given the truth of atoms (at)."""
    out = {"type": ("str", (("lit", kind),)), "origin": ("str", (("lit", "pdftotext++"),))}
    for k, (how, path) in spec.items():
        for j, p in enumerate(ps):
            path = path.replace("{%d}" % j, p)
        path = path.replace("{e}", e)
        if how == "num":
            out[k] = ("num", ("val", path))
        elif how == "str":
            out[k] = ("str", (("val", path),))
        elif how == "esc":
            out[k] = ("str", (("fn", "escapeJson", path),))
        elif how == "role":
            out[k] = ("str", (("fn", "getSemanticRoleName", path),))
        elif how == "bool":
            out[k] = ("num", ("lit", "true" if at[("is", path)] else "false"))
        elif how == "arr":
            out[k] = ("arr", tuple(("num", ("val", "%s[%d]" % (path, i))) for i in range(3)))
        elif how == "chartext":
            f = "textWithDiacriticMark" if at[("is", e + ".isBaseCharOfDiacriticMark")] else "text"
            out[k] = ("str", (("fn", "escapeJson", e + "." + f),))
    return out


def atoms(spec, e):
    out = []
    for how, path in spec.values():
        if how == "bool":
            out.append(("is", path.replace("{e}", e)))
        if how == "chartext":
            out.append(("is", e + ".isBaseCharOfDiacriticMark"))
            out.append(("is", e + ".isDiacriticMarkOfBaseChar"))
    return out


def fmt(node):
    if node is None:
        return "nothing"
    if node[0] == "str":
        return '"%s"' % "".join(p[1] if p[0] == "lit" else "<%s>" % " ".join(p[1:])
                                for p in node[1])
    if node[0] == "num":
        return node[1][1] if node[1][0] == "lit" else "<%s>" % " ".join(node[1][1:])
    if node[0] == "arr":
        return "[%s]" % ",".join(fmt(x) for x in node[1])
    return str(node)


class Json(Trav):
    def __init__(self, prog):
        super().__init__(prog)
        self.pure = (ESC, ROLE)
        self.opaque = ()


def run(prog, r, tier):
    r.rule("dispatch", "For each element type selected, its own serialization runs once.", 3)
    r.rule("every element", "The loops from the document down to the elements visit every element "
           "once; blocks are skipped exactly if their role is not selected.", 8)
    r.rule("record", "What one turn writes is one well-formed record of the element's own values "
           "on a line of its own.", 5)
    fs = prog.fn(ROOT)
    if len(fs) != 1:
        raise AnalysisError("no unique entry point of the JSONL serialization")
    h = Json(prog)
    ps = fs[0]["params"]
    for p in ps:
        t = p.get("t", "")
        nm = "doc" if "PdfDocument" in t else "roles" if "SemanticRole" in t else \
            "units" if "PdfElementType" in t else None
        if nm:
            h.roots[mk("iv", p["d"] + "*" if p.get("ref") else p["d"], p["name"])] = nm
            h.roots[mk("V", p["d"] + "*", p["name"])] = nm
    I = Interp(prog, h, max_depth=6)
    I.run_root(fs[0])
    r.analysed |= set(I.analysed)
    r.rule("escape", "Every byte of a text is written as itself or as its JSON escape.", 256)
    escapes(prog, r)
    consts = {v: k for k, v in prog.enums[ENUM]["consts"]}
    kinds = dict(KINDS)
    reached = {}
    for ev, conds in h.ends:
        for toks, cs in h.expand(ev, conds):
            if not toks:
                continue
            if len(toks) == 1 and toks[0][0] == "loop" and toks[0][2] == "units" and \
                    h.whole(toks[0][1], toks[0][3]):
                dispatch(h, r, toks[0][1], consts, reached)
                continue
            # without a loop over the selected types: one test per type
            sel = {n: cs.get(("in", "units", v)) for v, n in consts.items()}
            for t in toks:
                if t[0] != "loop":
                    r.bad("dispatch", "end", "the output contains %s outside of all records" % (t,))
            for v, n in consts.items():
                loops = [t for t in toks if t[0] == "loop" and prefix(h, t) and
                         kindof(h, t) == n]
                if len(loops) == 1 and sel[n]:
                    reached.setdefault(n, set()).add(loops[0])
                    r.ok("dispatch", n)
                elif sel[n] and kinds[n][2] is not None:
                    r.bad("dispatch", n, "no serialization runs for the selected type %s" % n)
                elif loops and not sel[n]:
                    r.bad("dispatch", n, "type %s is written without being selected" % n)
    for n in KINDS:
        if n not in consts.values():
            r.bad("dispatch", n, "the element type %s does not exist any more" % n)
        elif n not in reached:
            r.bad("dispatch", n, "no records are written for the element type %s" % n)
    for n in consts.values():
        if n not in KINDS:
            raise AnalysisError("element type %s has no record format in the specification" % n)
    for n, loops in sorted(reached.items()):
        kind, chain, spec = KINDS[n]
        if spec is None:
            raise AnalysisError("the record format of %s is not specified" % n)
        for t in loops:
            level(h, r, n, t, 0, paths(chain))


SHORT = {'"': '\\"', "\\": "\\\\", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}


ALL = frozenset(range(-128, 128))


class Esc(Trav):
    """The escaping function: what is written for each value of a byte."""

    def __init__(self, prog):
        super().__init__(prog)
        self.out = {}           # byte -> set of event sequences
        self.rets = set()

    def stream_of(self, fr, st, loc):
        return None

    def called(self, I, fr, st, node, n, oloc, args, val):
        name = query.base(n)
        if n.get("cls") == "std::basic_string" and oloc is not None and oloc.op == "V" and \
                (n.get("op") == "+=" or name in ("push_back", "append")) and len(args) == 1:
            an = fr.f["nodes"].get(args[0], {})
            self.write(I, fr, st, oloc, I.val(fr, st, args[0]),
                       an.get("t", "").replace("const ", "") == "char")
            return
        super().called(I, fr, st, node, n, oloc, args, val)

    def edge(self, I, fr, st, p, succ, info):
        if fr.up is None and st.ext.get("stk"):
            st.ext["bytes"] = self.bytes(I, fr, st)
        super().edge(I, fr, st, p, succ, info)
        if info["back"] is not None or info["enters"] is not None:
            st.ext["bytes"] = ALL

    def partition(self, I, fr, st):
        return super().partition(I, fr, st), st.ext.get("bytes")

    def bytes(self, I, fr, st):
        """Values the current byte can have."""
        elems = set()
        for a in st.facts:
            for t in atom_terms(a):
                self.find(I, fr, st, t, elems)
        out = set()
        for c in st.ext.get("bytes", ALL):
            s2 = st.copy()
            for e in elems:
                if s2.entails(le_atom(add(e, C(1)), C(c))) or s2.entails(le_atom(C(c + 1), e)):
                    s2.dead = True
                    break
                assume(s2, mk("eq", e, C(c)), True)
                # comparisons of the byte with constants
                for a in st.facts:
                    if a[0] in ("t", "f", "nz", "z"):
                        v = const_of(a[1], e, c)
                        if v is not None and bool(v) != (a[0] in ("t", "nz")):
                            s2.dead = True
            if not s2.dead:
                out.add(c)
        return frozenset(out)

    def on_turn(self, I, fr, st, key, how):
        if I.reporting and fr.up is None:
            for c in st.ext.get("bytes", ALL):
                self.out.setdefault(c, set()).add(st.ext.get("ev", ()))

    def find(self, I, fr, st, t, out, depth=0):
        if t.op in ("elem", "E") and self.canon(I, fr, st, t) == "str[]":
            out.add(t)
        for x in t.a:
            if isinstance(x, T) and depth < 6:
                self.find(I, fr, st, x, out, depth + 1)

    def ret(self, I, fr, st, el, val):
        if fr.up is None and I.reporting and val is not None:
            self.rets.add(val.op)


def const_of(t, e, c):
    """Value of a comparison of e with a constant when e == c."""
    if t.op == "eq" and len(t.a) == 2:
        x, y = t.a
        if x is e and isc(y):
            return c == y.a[0]
        if y is e and isc(x):
            return c == x.a[0]
    if t.op in ("lt", "le") and len(t.a) == 2:
        x = c if t.a[0] is e else t.a[0].a[0] if isc(t.a[0]) else None
        y = c if t.a[1] is e else t.a[1].a[0] if isc(t.a[1]) else None
        if x is not None and y is not None and (t.a[0] is e or t.a[1] is e):
            return x < y if t.op == "lt" else x <= y
    return None


def escapes(prog, r):
    fs = prog.fn(ESC)
    if len(fs) != 1:
        raise AnalysisError("no unique escaping function")
    f = fs[0]
    h = Esc(prog)
    p = f["params"][0]
    h.roots[mk("iv", p["d"] + "*" if p.get("ref") else p["d"], p["name"])] = "str"
    h.roots[mk("V", p["d"] + "*", p["name"])] = "str"
    I = Interp(prog, h, max_depth=4)
    I.run_root(f)
    r.analysed |= set(I.analysed)
    for ev, conds in h.ends:
        good = len(ev) == 1 and ev[0][0] == "loop" and ev[0][2] == "str" and \
            h.whole(ev[0][1], ev[0][3])
        r.ob("escape", "all bytes", good, "%s: the escaped text does not consist of the escapes "
             "of all bytes in order (%s)" % (f["file"], [(e[0],)+e[2:] for e in ev]))
    if not h.out:
        raise AnalysisError("no loop over the bytes in the escaping function")
    for c in range(-128, 128):
        ch = chr(c & 255)
        got = h.out.get(c, set())
        if not got:
            r.bad("escape", "byte %02x" % (c & 255), "%s: nothing is written for the byte 0x%02x"
                  % (f["file"], c & 255))
        for ev in got:
            lits = tuple(t for t in ev if t[0] == "lit")
            vals = tuple(t for t in ev if t[0] not in ("lit",) and t[:2] != ("fn", "manip") and
                         t[:2] != ("fn", "setw") and t[:2] != ("fn", "setfill"))
            fm = set(t for t in ev if t[0] == "fn")
            raw = ev == (("chr", "str[]"),)
            hexa = lits == (("lit", "\\u"),) and vals == (("val", "str[]"),) and \
                fm == {("fn", "manip", '"hex"'), ("fn", "setw", "4"), ("fn", "setfill", "48")} and \
                ev[-1] == vals[0]
            good = False
            if 0 <= c < 32:
                good = hexa or ev == (("lit", SHORT.get(ch, "?")),)
            elif ch in SHORT and c >= 0:
                good = hexa or ev == (("lit", SHORT[ch]),)
            else:
                good = raw or (0 <= c < 128 and hexa)
            r.ob("escape", "byte %02x" % (c & 255), good, "%s: the byte 0x%02x is written as %s"
                 % (f["file"], c & 255, " ".join(t[-1] for t in ev) or "nothing"))


def prefix(h, t):
    return t[2].startswith("doc.pages")


def leaves(h, key, seen=()):
    out = set()
    for ev, conds, how in h.variants.get(key, ()):
        for toks, cs in h.expand(ev, conds):
            for t in toks:
                if t[0] == "loop" and t[1] not in seen:
                    out |= leaves(h, t[1], seen + (key,))
                elif t[0] == "lit" and '"type"' in t[1]:
                    out.add(t[1].split('"type"')[1].split('"')[1])
    return out


def kindof(h, t):
    ks = leaves(h, t[1])
    for n, (kind, _, _) in KINDS.items():
        if ks == {kind}:
            return n
    return None


def dispatch(h, r, key, consts, reached):
    for ev, conds, how in h.variants.get(key, ()):
        for toks, cs in h.expand(ev, conds):
            pos = [v for k, v in ((k, k[1] if k[2] == "units[]" else k[2])
                                  for k in cs if k[0] == "eq" and "units[]" in k) if cs[k]]
            neg = [k[1] if k[2] == "units[]" else k[2]
                   for k in cs if k[0] == "eq" and "units[]" in k and not cs[k]]
            if ("is", "units[]") in cs:
                (neg if cs[("is", "units[]")] else pos).append("0")
            names = [consts[v] for v in consts if (not pos or v in pos) and v not in neg]
            for n in names:
                if not toks and KINDS.get(n, (0, 0, None))[2] is None:
                    continue
                good = len(toks) == 1 and toks[0][0] == "loop" and kindof(h, toks[0]) == n
                if not toks:
                    continue        # reported as "no records" unless another path writes them
                r.ob("dispatch", n, good, "%s: for the type %s, %s is written" % (
                    h.where.get(key), n, " and ".join(
                        ("records of type %s" % (kindof(h, t) or "?")) if t[0] == "loop"
                        else str(t)[:80] for t in toks)))
                if good:
                    reached.setdefault(n, set()).add(toks[0])


def level(h, r, n, t, depth, ps):
    """t = ("loop", key, path, var) must visit all of the elements at ps[depth]."""
    _, key, path, var = t
    want = ps[depth][:-2]
    kind, chain, spec = KINDS[n]
    w = h.where.get(key)
    k = "%s/%s" % (n, chain[depth])
    r.ob("every element", k, path == want and h.whole(key, var),
         "%s: records of type %s: the loop over %s does not visit each element of %s once"
         % (w, n, path, want))
    last = depth == len(ps) - 1
    filt = chain[depth] == "blocks"
    e = ps[depth]
    for ev, conds, how in h.variants.get(key, ()):
        for toks, cs in h.expand(ev, conds):
            if how == "break":
                r.bad("every element", k, "%s: records of type %s: the loop over %s can end before "
                      "all elements were visited" % (w, n, path))
                continue
            need = []
            if filt:
                need.append(("in", "roles", e + ".role"))
            if last:
                need += atoms(spec, e)
            free = [a for a in need if a not in cs]
            for vals in itertools.product((False, True), repeat=len(free)):
                at = dict(cs)
                at.update(zip(free, vals))
                if filt and not at[("in", "roles", e + ".role")]:
                    r.ob("every element", k + "/role", not toks, "%s: records of type %s: a block "
                         "is not skipped although its role is not selected" % (w, n))
                    continue
                if last and at.get(("is", e + ".isDiacriticMarkOfBaseChar")) and n == "CHARACTERS":
                    r.ob("record", n + "/mark", not toks, "%s: a record is written for a "
                         "diacritic mark merged into its base character" % w)
                    continue
                if not last:
                    good = len(toks) == 1 and toks[0][0] == "loop"
                    r.ob("every element", k + "/body", good, "%s: records of type %s: a turn of "
                         "the loop over %s does not lead to exactly one loop over the next level"
                         % (w, n, path))
                    if good:
                        level(h, r, n, toks[0], depth + 1, ps)
                    continue
                try:
                    if not toks:
                        raise Bad("no record is written for the element when %s" % ", ".join(
                            "%s%s" % ("" if v else "not ", a[-1].split("].")[-1])
                            for a, v in at.items() if a[0] in ("is", "in")))
                    got = parse(toks)
                except Bad as x:
                    r.bad("record", n, "%s: records of type %s: %s" % (w, n, x))
                    continue
                exp = expect(kind, spec, e, ps, at)
                for q in sorted(set(got) | set(exp)):
                    r.ob("record", "%s.%s" % (n, q), got.get(q) == exp.get(q),
                         "%s: records of type %s: the value of %r is %s instead of %s"
                         % (w, n, q, fmt(got.get(q)), fmt(exp.get(q))))

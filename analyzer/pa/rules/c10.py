"""C10: grouping characters into words, lines, blocks and pages loses and duplicates no text."""
import re

from .. import flow, query
from ..facts import AnalysisError
from ..flow import Flow, PAYLOAD, analyse, consumed, live, own
from ..interp import Interp
from ..par import pmap
from ..terms import ZERO, mk

PG = "this._doc.pages[]"
SEG = PG + ".segments[]"
MARK = "isDiacriticMarkOfBaseChar"
PART = "isPartOfStackedMathSymbol"
PARTS = "isBaseOfStackedMathSymbol"
CUTS = {"ppp::utils::xyCut": (0, -2), "ppp::utils::xCut": (0, -2), "ppp::utils::yCut": (0, -2)}
STAGES = [
    # entry point, what must be handed on, where it must end up
    ("ppp::modules::WordsDetection::process", [PG + ".characters"], [PG + ".words"]),
    ("ppp::modules::PageSegmentation::process",
     [PG + ".words", PG + ".figures", PG + ".graphics", PG + ".shapes"], [PG + ".segments"]),
    ("ppp::modules::TextLinesDetection::process", [SEG + ".elements"], [SEG + ".lines"]),
    ("ppp::modules::TextBlocksDetection::process", [SEG + ".lines", SEG + ".blocks[].lines"],
     [SEG + ".blocks", PG + ".blocks"]),
    ("ppp::modules::ReadingOrderDetection::process", [PG + ".blocks"], [PG + ".blocks"]),
]


def mutates(f, n):
    """The field a call changes, for containers of elements."""
    if n["k"] != "call" or query.base(n) not in MUT:
        return None
    o = f["nodes"].get(n.get("o"), {})
    if not flow.holds(o.get("t", "") + n.get("fn", "")):
        return None
    return o


MUT = set(flow.MOVERS) | {"insert", "append", "assign", "clear", "operator=", "pop_back",
                          "pop_front", "erase", "resize", "swap", "remove", "merge"}


def touching(prog):
    def pred(n):
        return n["k"] in ("call", "construct") and flow.holds(n.get("fn", "") + n.get("t", "")) and \
            (n["k"] == "construct" and n.get("copy") or query.base(n) in MUT)
    return query.reaching(prog, query.having(prog, pred))


def make(prog, touch):
    def mk_(d):
        fl = Flow(prog, drain=d)
        fl.touch = touch
        fl.exempt = (MARK, PART)
        fl.link, fl.linked = PART, PARTS
        fl.news = ("PdfWord", "PdfTextLine", "PdfTextBlock", "PdfPageSegment")
        fl.copies = CUTS
        return fl
    return mk_


def stage(arg):
    from .. import facts
    name, srcs, dsts = arg
    prog = facts.load()
    fs = [f for f in prog.fn(name)]
    if len(fs) != 1:
        return ("broken", "no unique definition of %s" % name)
    touch = touching(prog)
    fl = analyse(prog, fs[0], make(prog, touch))
    obs = []
    short = "::".join(name.split("::")[-2:])

    def ob(kind, key, good, msg):
        obs.append((kind, short + "/" + key, good, msg))

    def total(ev, src, cs, depth=0):
        """How often the events hand on everything in src: (number, reason)."""
        n, why = 0, "no loop hands it on"
        for e in ev:
            if e[0] in ("put", "app", "copy") and e[2] == src and live(e[1], fl.views):
                n += 1
            elif e[0] == "loop" and e[2] == src and e[1] in fl.drain:
                if fl.whole(e[1], e[3]):
                    n += 1
                else:
                    why = "%s: a loop over it skips elements" % fl.where[e[1]]
            elif e[0] == "loop" and src.startswith(e[2] + "[]"):
                m = set()
                for ev2, cs2, how in fl.variants.get(e[1], ()):
                    k, w = total(ev2, src, cs2, depth)
                    if k == 0 and exempt(cs2, None, src):
                        continue
                    if k != 1:
                        why = w
                    if how == "break":
                        k, why = 9, "%s: a loop over %s can be left early" % (
                            fl.where[e[1]], e[2])
                    m.add(k)
                if not m or m == {0}:
                    continue
                if not fl.whole(e[1], e[3]):
                    why = "%s: a loop over %s skips some" % (fl.where[e[1]], e[2])
                    m = {0}
                if m == {1}:
                    n += 1
                elif 0 in m:
                    return 0, why if w else why
                else:
                    n += max(m)
            elif e[0] == "brk" and any(src.startswith(c + "[]") or c == src and e[1] in fl.drain
                                       for c in fl.conts.get(e[1], ())):
                why = "%s: a loop over it can be left early" % fl.where[e[1]]
        if n == 0 and depth < 3:
            # through a list of what carries the elements
            for k in [m.start() for m in re.finditer(r"\[\]", src)]:
                for d, s in puts:
                    if s in (src[:k], src[:k] + "[]") and flow.root(d) == d and \
                            not d.startswith("new:") and total(ev, src[:k], cs, 9)[0] == 1 and \
                            total(ev, d + src[k:], cs, depth + 1)[0] == 1:
                        return 1, ""
        return n, why

    puts = set((e[1], e[2]) for e in every(fl) if e[0] in ("put", "app"))

    for ev, cs in fl.ends:
        for src in srcs:
            n, why = total(ev, src, cs)
            if n == 0 and any(c[0] == "empty" and v and src.startswith(c[1])
                              for c, v in cs):
                n = 1
            ob("stage", src.split("].")[-1] if src.count("[]") < 2 else
               ".".join(src.split("[].")[1:]), n == 1,
               "%s: %s %s" % (short, src.replace("this._doc.", ""),
                              "is not handed on on every path: " + why if n == 0 else
                              "is handed on more than once"))
    for key in fl.drain:
        for cont in fl.conts.get(key, ()):
            if cont.startswith("this._doc") and cont not in srcs and not cont.endswith(PARTS):
                continue       # decided by what the stage as a whole hands on
            el = cont + "[]"
            for ev, cs, how in fl.variants.get(key, ()):
                n = consumed(fl, ev, el, fl.drain)
                good = how == "back" and (n == 1 or n == 0 and exempt(cs, el, None))
                nm = cont.replace("this._doc.", "")
                ob("turn", "%s/%s" % (fl.where[key].split(":")[-1], nm), good,
                   "%s: a turn of the loop over %s %s" % (
                       fl.where[key], nm, "leaves the loop" if how != "back" else
                       "hands its element on to nobody" if n == 0 else
                       "hands its element on %d times" % n))
                if any(e[0] == "loop" and e[2] == el + "." + PARTS and e[1] in fl.drain
                       for e in ev) or PARTS in str(fl.conts.get(key)) or \
                        any(x[0] == "is" and x[1] == el + "." + PART for x, _ in cs):
                    if cont.endswith(PARTS):
                        continue
                    k = sum(1 for e in ev if e[0] == "loop" and e[2] == el + "." + PARTS and
                            e[1] in fl.drain and fl.whole(e[1], e[3]))
                    ob("parts", "%s/%s" % (fl.where[key].split(":")[-1], nm), k == n,
                       "%s: a turn of the loop over %s hands on a word %d times but its parts %d "
                       "times" % (fl.where[key], nm, n, k))
    for e in every(fl):
        if e[0] in ("put", "app", "copy"):
            d = e[1]
            if d.startswith("this._doc") and live(d):
                ob("place", d.replace("this._doc.", ""), d in dsts,
                   "%s: elements are added to %s" % (short, d.replace("this._doc.", "")))
        elif e[0] in ("odd", "clear"):
            d = e[2] if e[0] == "odd" else e[1]
            if d.startswith("local:") and flow.root(d)[6:] in fl.views:
                continue
            if d.startswith("this._doc") and live(d) or e[0] == "odd" and live(d, fl.views):
                ob("place", "%s(%s)" % (e[0], d), False, "%s: %s takes elements out of %s" % (
                    short, e[1] if e[0] == "odd" else "clear", d.replace("this._doc.", "")))
    for (fn, at), known in fl.links.items():
        for k, msg in enumerate(("a word that may already be part of another word",
                                 "a word that may itself have parts",
                                 "a word part of one that may be part of a third word")):
            ob("link", "%s/%d" % (fn.split("::")[-1], k), all(x[k] for x in known),
               "%s: %s makes %s" % (at, fn, msg))
    for key, vs in fl.variants.items():
        for ev, cs, how in vs:
            a = sorted((e[1], e[2]) for e in ev if e[0] == "link")
            b = sorted((e[2], e[1][:-len(PARTS) - 1]) for e in ev
                       if e[0] == "put" and e[1].endswith("." + PARTS))
            if a or b:
                ob("link", "%s/both" % fl.where[key].split(":")[-1], a == b,
                   "%s: the link from a part to its word and the one back are not set together" %
                   fl.where[key])
    for what, fn, var, msg in fl.errs:
        ob("once", "%s/%s/%s" % (what, fn.split("::")[-1], var), False,
           "%s: %s %s" % (fn, var, msg))
    ob("once", "containers", True, "")
    if fl.cut:
        obs.append(("broken", "", False, "analysis of %s incomplete: %s" % (short,
                                                                         sorted(fl.cut)[:2])))
    return ("ok", obs, sorted(fl.seen), sorted(fl.analysed))


def cutting(prog, r):
    """Dividing a list of elements at cuts keeps every element."""
    fs = {n: prog.fn(n) for n in CUTS}
    for n, f in fs.items():
        if len(f) != 1:
            raise AnalysisError("no unique definition of %s" % n)
        fl = make(prog, touching(prog))(set())
        fl.track = False
        I = Interp(prog, fl)
        I.max_depth = 10
        I.run_root(f[0])
        r.analysed |= set(I.analysed)
        src = f[0]["params"][0]["name"]
        res = f[0]["params"][-2]["name"]
        (recursion if n.endswith("::xyCut") else ranges)(r, fl, n.split("::")[-1], src, res)
    ok = set(f["u"] for x in fs.values() for f in x)
    by = {}
    for u, f in prog.functions.items():
        for n in f["nodes"].values():
            if n["k"] in ("call", "construct") and n.get("u") in prog.functions:
                by.setdefault(n["u"], set()).add(u)
    more = True
    while more:                 # helpers that only they call
        more = [u for u, us in by.items() if u not in ok and us <= ok | {u}]
        ok |= set(more)
    for u, f in prog.functions.items():
        for i, n in f["nodes"].items():
            if n["k"] == "assign" and f["nodes"].get(n.get("l"), {}).get("name") == "posInElements":
                r.ob("cut", "%s/position" % f["name"].split("::")[-1], u in ok,
                     "%s: %s moves a cut" % (query.where(f, n), f["name"]))


def recursion(r, fl, short, src, res):
    def total(ev, x, cs):
        n, groups = 0, []
        if any(c == ("empty", x) and v for c, v in cs):
            return 1
        for e in ev:
            if e[0] in ("put", "app", "copy") and e[2] == x:
                if e[1] == res:
                    n += 1
                elif e[1].startswith("local:"):
                    groups.append(e[1])
            elif e[0] == "loop" and e[2] in groups and fl.whole(e[1], e[3]):
                ks = set(total(ev2, e[2] + "[]", cs2) if how == "back" else 9
                         for ev2, cs2, how in fl.variants[e[1]])
                n += ks.pop() if len(ks) == 1 else 9 if ks != {0, 1} else 0
        return n

    for ev, cs in fl.ends:
        n = total(ev, src, cs)
        r.ob("cut", short + "/groups", n == 1, "%s: a list of elements reaches the resulting groups "
             "%s" % (short, "on some paths only in part or not at all" if n == 0 else "repeatedly"))


def ranges(r, fl, short, src, res):
    def ob(key, good, msg):
        r.ob("cut", short + "/" + key, good, "%s: %s" % (short, msg))

    null = lambda cs: any(c == ("is", res) and not v for c, v in cs)
    conts = set()
    inner = {}
    for key, rec in fl.rngs.items():
        for rs, val in rec:
            for e in rs:
                conts.add(e[2][0])
                lo, hi = e[2][1], e[3][1]
                good = lo.op == "phi" and lo.a[0][0] == key and e[2][0] == e[3][0]
                ob("next", good and len(rs) == 1 and val.get(lo.a[0][1]) is hi,
                   "a group does not begin where the last one ended")
                if good:
                    inner.setdefault(key, set()).add(lo.a[0][1])
    for key, vars in inner.items():
        for rs, val in fl.rngs[key]:
            for h in vars:
                if not rs:
                    cut = val.get(h)
                    ob("skip", True, "")
    for key, vs in fl.variants.items():
        for ev, cs, how in vs:
            for e in ev:
                if e[0] == "range":
                    ob("kept", sum(1 for x in ev if x[0] == "put" and x[1] == res and
                                   x[2] == e[1]) == 1, "a group is not put into the result")
            n = sum(1 for e in ev if e[0] == "put" and e[2].startswith("new:Cut") and
                    e[1].startswith("local:"))
            if n:
                ob("order", n == 1, "two cuts at one position")
                ob("order", any(fl.whole(key, v) for v in fl.steps.get(key, ())),
                   "cuts are not found in the order of the elements")
    for fn, pos in fl.cuts:
        ob("pos", pos in ("#", "0"), "the position of a cut is %s instead of that of the element "
           "after it" % pos)
    for ev, cs in fl.ends:
        if null(cs) or not ev:
            continue
        last = [e for e in ev if e[0] == "range"]
        for e in last:
            conts.add(e[2][0])
            lo = e[2][1]
            ok = e[3][1] is mk("s", "end") and len(last) == 1
            if inner:
                ok = ok and lo.op == "phi" and lo.a[0][1] in inner.get(lo.a[0][0], ()) and \
                    all(x is ZERO for x in fl.starts.get((lo.a[0][0], lo.a[0][1]), ()))
            ob("last", ok, "the first or last group is not complete")
            ob("kept", sum(1 for x in ev if x[0] == "put" and x[1] == res and x[2] == e[1]) == 1,
               "a group is not put into the result")
        if inner:
            ob("last", len(last) == 1, "the elements after the last cut form no group")
            for c in conts:
                ob("source", sum(1 for x in ev if x[0] == "app" and x[1] == c and x[2] == src) == 1
                   and not any(x[0] == "odd" and x[2] == c for x in ev),
                   "what is divided is not the list that was given")
            for e in ev:
                if e[0] == "loop" and e[1] in inner:
                    ob("order", fl.whole(e[1], e[3]) and not any(
                        x[0] == "perm" and x[1] == e[2] for x in ev),
                        "the cuts are not taken in the order of the elements")


def every(fl):
    return [e for vs in fl.variants.values() for ev, _, _ in vs for e in ev] + \
        [e for ev, _ in fl.ends for e in ev]


def exempt(cs, el, src):
    for c, v in cs:
        if c[0] == "empty" and v and src is not None and (src.startswith(c[1])):
            return True
        if el is None:
            continue
        if c[0] == "is" and v and c[1] in (el + "." + MARK, el + "." + PART):
            return True
        if c[0] == "cast" and not v and c[1] == el:
            return True
    return False


def run(prog, r, tier):
    r.rule("stage", "Each stage hands on every element of its input exactly once.", 5)
    r.rule("turn", "Each turn of a loop that hands elements on does so exactly once with its "
           "element, unless it is a diacritic mark, a part of another word or no text.", 6)
    r.rule("parts", "Where a word is put into a line, the words that are part of it are, too.", 1)
    r.rule("place", "A stage adds elements only to the containers that are its result.", 4)
    r.rule("once", "No container is dropped while its elements are nowhere else; none is handed "
           "on twice; each new element gets one place.", 5)
    r.rule("link", "A word becomes part of another only if neither is part of a word and it has no "
           "parts, and the link back is set with it.", 1)
    r.rule("cut", "Dividing elements at cuts puts each of them into exactly one group.", 1)
    r.rule("effect", "No other function changes which elements a container holds.", 10)
    seen = set()
    for st, out in zip(STAGES, pmap(stage, STAGES)):
        if out[0] == "broken":
            raise AnalysisError(out[1])
        for kind, key, good, msg in out[1]:
            if kind == "broken":
                raise AnalysisError(msg)
            r.ob(kind, key, good, msg)
        seen |= set(out[2])
        r.analysed |= set(out[3])
    seen |= set(f["u"] for s in STAGES for f in prog.fn(s[0]))
    effect(prog, r, seen)
    cutting(prog, r)


def effect(prog, r, seen):
    cls = set(f.get("cls") for f in prog.functions.values()
              if any(o.startswith("OutputDev::") for o in f.get("overrides", ())))
    parse = query.reachable(prog, [u for u, f in prog.functions.items() if f.get("cls") in cls])
    # The engine and its helpers list the lines of a page once more, for tests.
    engine = set(u for u, f in prog.functions.items()
                 if f["name"].endswith("PdfToTextPlusPlus::process"))
    files = set(prog.functions[u]["file"] for u in engine)
    calls = query.callgraph(prog)
    while True:
        more = set(u for u, f in prog.functions.items() if u not in engine and f["file"] in files and
                   any(u in calls.get(e, ()) for e in engine) and
                   not any(u in c for v, c in calls.items() if v not in engine))
        if not more:
            break
        engine |= more
    for u, f in prog.functions.items():
        for i, n in f["nodes"].items():
            o = mutates(f, n)
            if o is None or o.get("k") != "member":
                continue
            fld = o.get("n") or o.get("name")
            if fld not in PAYLOAD:
                continue
            good = u in seen or u in parse and fld in ("characters", "figures", "graphics", "shapes")
            good = good or f.get("ctor") or u in engine and fld == "textLines"
            r.ob("effect", "%s/%s/%s" % (f["name"].split("::")[-1], query.base(n), fld), good,
                 "%s: %s changes %s with %s" % (query.where(f, n), f["name"], fld, query.base(n)))

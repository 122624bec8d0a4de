"""Output grammars: what a function writes in each turn of its loops, as canonical paths.

The hook records, per loop, every sequence of events one turn can produce together with what is
known about the elements on that path, and whether the loop visits each element of its container
exactly once.  Events are
  ("lit", text)                  literal characters
  ("val", path)                  the value at a path such as doc.pages[].pageNum
  ("fn", name, args...)          a named conversion of values
  ("alt", ((conds, events)...))  one of several, by condition
  ("loop", key, whole)           an inner loop ran to its end
  ("brk", key)                   an inner loop was left early
  ("call", name, args)           a call the rule asked to record
A text built up in a local string (`accs`) is followed by ("new", s), ("to", s, event) and
("put", s), where it is written; settle() replaces the latter by what the string held.
"""
from .interp import Hooks, assume, loops_of
from .terms import C, NULL, ONE, T, ZERO, add, isc, le_atom, mk
from . import query

MAXEV = 400


def headkey(fr, h):
    return ("b", fr.ctx, fr.f["u"], h)


def basephi(x):
    """(phi, steps) of an iterator or counter: how often it was advanced since the loop head."""
    n = 0
    while x.op in ("inc", "dec"):
        n += 1 if x.op == "inc" else -1
        x = x.a[0]
    if x.op == "it" and len(x.a) > 2 and isinstance(x.a[2], T):
        return x.a[2], n
    if x.op == "phi":
        return x, n
    if x.op == "lin":
        d = dict(x.a[0])
        if len(d) == 1 and list(d.values())[0] == 1 and list(d)[0].op == "phi":
            return list(d)[0], x.a[1]
    return None, 0


class Trav(Hooks):
    all_impl = True
    accs = False     # follow the texts built up in local strings

    def __init__(self, prog, roots=None):
        self.prog = prog
        self.roots = dict(roots or {})  # term -> name
        self.variants = {}              # loop key -> set of (events, conds, how)
        self.conts = {}                 # loop key -> set of container paths
        self.bad = {}                   # loop key -> set of reasons
        self.ends = set()               # (events, conds) at the end of the root
        self.where = {}                 # loop key -> place
        self.pure = ()                  # functions kept as named conversions

    # ---------------------------------------------------------------- canonical paths
    def canon(self, I, fr, st, t, depth=0):
        if t in self.roots:
            return self.roots[t]
        if depth > 40:
            return "?"
        c = lambda x: self.canon(I, fr, st, x, depth + 1)
        op = t.op
        if op == "c":
            return "null" if t is NULL else str(t.a[0])
        if op == "s":
            return '"%s"' % t.a[0]
        if op == "iv":
            return str(t.a[1])
        if op == "this":
            return "this"
        if op in ("V",):
            if str(t.a[0]).endswith("*"):
                return str(t.a[1])
            return "local:" + str(t.a[1])
        if op in ("&", "D", "tmp", "cstr", "itd", "get"):
            if op == "itd":
                return self.pos(I, fr, st, t.a[0], depth)
            return c(t.a[0])
        if op in ("ld", "F", "fld"):
            return c(t.a[0]) + "." + str(t.a[1])
        if op in ("elem", "E"):
            b = c(t.a[0])
            return b + self.idxpath(I, fr, st, t.a[1], depth)
        if op in ("eq", "lt", "le"):
            return "%s(%s)" % (op, ",".join(sorted(c(x) for x in t.a)) if op == "eq" else
                               ",".join(c(x) for x in t.a))
        if op == "not":
            return "!" + c(t.a[0])
        if op in ("size", "count", "begin", "end"):
            return "%s(%s)" % (op, ",".join(c(x) for x in t.a[:2 if op == "count" else 1]))
        if op == "fn":
            return "%s(%s)" % (t.a[0], ",".join(c(x) for x in t.a[1:]))
        if op.startswith("m:"):
            return "%s(%s)" % (op[2:], ",".join(c(x) for x in t.a))
        if op == "lin" or op in ("sub", "f-") and len(t.a) == 2:
            its = [(c(x), k) for x, k in t.a[0]] if op == "lin" else [(c(t.a[0]), 1), (c(t.a[1]), -1)]
            k0 = t.a[1] if op == "lin" else 0
            its.sort(key=lambda x: (-x[1], x[0]))
            return "(" + " ".join("%s%s%s" % ("-" if k < 0 else "+", "" if abs(k) == 1 else
                                              "%s*" % abs(k), x) for x, k in its) + \
                (" %+d" % k0 if k0 else "") + ")"
        if op in ("f+", "f*"):
            return "(%s)" % op[1].join(sorted(c(x) for x in t.a))
        if op in ("add", "sub", "mul", "div", "mod", "neg", "f/"):
            return "%s(%s)" % (op, ",".join(c(x) for x in t.a if isinstance(x, T)))
        if op == "strof":
            return "str(%s)" % ",".join(c(x) for x in t.a)
        if op in ("it", "inc", "dec", "itx"):
            return self.pos(I, fr, st, t, depth)
        if op in ("enum", "ec"):
            return str(t.a[-1])
        if op == "fp":
            return "%g" % t.a[0] if isinstance(t.a[0], (int, float)) else str(t.a[0])
        if op == "fnptr":
            return "fn:" + str(t.a[0])
        if op == "phi" and self.current(st, t):
            return "#"
        if op == "phi" and t in st.impl:
            return "alt"
        return "?" + op

    def active(self, st):
        return [s[0] for s in st.ext.get("stk", ())]

    def idxpath(self, I, fr, st, idx, depth):
        x = idx
        while x.op == "itx":
            x = x.a[0]
        if self.current(st, x):
            return "[]"
        if x.op == "lin" and len(x.a[0]) == 1 and x.a[0][0][1] == 1 and \
                self.current(st, x.a[0][0][0]):
            return "[%+d]" % x.a[1]
        if x.op in ("begin",) or (isc(x) and not x.a[0]):
            for _, snap in st.ext.get("stk", ()):
                pass
            for key in self.active(st):
                for l, v in st.env.items():
                    if l.op == "V":
                        p, n = basephi(v)
                        if p is not None and n == 0 and p.a[0][0] == key and \
                                st.knows_eq(v, x):
                            return "[]"
            return "[0]" if isc(x) else "[first]"
        return "[%s]" % self.canon(I, fr, st, x, depth + 1)

    def current(self, st, x):
        p, n = basephi(x)
        return p is not None and n == 0 and p.op == "phi" and p.a[0][0] in self.active(st)

    def pos(self, I, fr, st, x, depth):
        while x.op == "itx":
            x = x.a[0]
        if x.op == "it" and self.current(st, x):
            return self.canon(I, fr, st, x.a[0], depth + 1) + "[]"
        if x.op in ("inc", "dec"):
            return "%s(%s)" % (x.op, self.pos(I, fr, st, x.a[0], depth + 1))
        if x.op == "phi":
            return "?pos"
        return "pos(%s)" % self.canon(I, fr, st, x, depth + 1) if x.op not in ("it",) else "?it"

    # ---------------------------------------------------------------- conditions
    def cond(self, I, fr, st, t, pol):
        """Canonical (key, truth value) of a fact, or None."""
        if t.op == "eq":
            a, b = t.a
            for x, y in ((a, b), (b, a)):
                if x.op == "end" and y.op == "fn" and y.a[0] == "find" and len(y.a) == 4 and \
                        y.a[1].op == "begin" and y.a[1].a[0] is x.a[0]:
                    return ("in", self.canon(I, fr, st, x.a[0]),
                            self.canon(I, fr, st, y.a[3])), not pol
                if x.op == "end" and y.op == "m:find" and y.a[0] is x.a[0]:
                    return ("in", self.canon(I, fr, st, x.a[0]),
                            self.canon(I, fr, st, y.a[1])), not pol
                if x is ZERO and y.op == "count" or x is ZERO and y.op == "fn" and \
                        y.a[0] == "count":
                    return self.cond(I, fr, st, y, not pol)
                if x is NULL:
                    return self.cond(I, fr, st, y, not pol)
            return ("eq",) + tuple(sorted((self.canon(I, fr, st, a),
                                           self.canon(I, fr, st, b)))), pol
        if t.op == "count":
            return ("in", self.canon(I, fr, st, t.a[0]), self.canon(I, fr, st, t.a[1])), pol
        if t.op == "fn" and t.a[0] == "count" and t.a[1].op == "begin":
            return ("in", self.canon(I, fr, st, t.a[1].a[0]), self.canon(I, fr, st, t.a[3])), pol
        if t.op == "m:contains":
            return ("in", self.canon(I, fr, st, t.a[0]), self.canon(I, fr, st, t.a[1])), pol
        if t.op == "not":
            return self.cond(I, fr, st, t.a[0], not pol)
        return ("is", self.canon(I, fr, st, t)), pol

    def conds(self, I, fr, st, facts=None):
        out = set()
        for a in (st.facts if facts is None else facts):
            if a[0] in ("nz", "t"):
                r = self.cond(I, fr, st, a[1], True)
            elif a[0] in ("z", "f"):
                r = self.cond(I, fr, st, a[1], False)
            elif a[0] == "le":
                r = self.cond_le(I, fr, st, a)
            else:
                continue
            if r is not None and not any("?" in x or "local:" in x for x in r[0]):
                out.add(r)
        return frozenset(out)

    def cond_le(self, I, fr, st, a):
        """1 <= count(c, x) or count(c, x) <= 0."""
        items = dict(a[1])
        if len(items) == 1:
            t, k = list(items.items())[0]
            if t.op in ("count",) or t.op == "fn" and t.a[0] == "count":
                if k == -1 and a[2] == 1:
                    return self.cond(I, fr, st, t, True)
                if k == 1 and a[2] == 0:
                    return self.cond(I, fr, st, t, False)
        return None

    # ---------------------------------------------------------------- events
    def emit(self, st, evs):
        cur = list(st.ext.get("ev", ()))
        for e in evs:
            if e[0] == "lit" and cur and cur[-1][0] == "lit":
                cur[-1] = ("lit", cur[-1][1] + e[1])
            else:
                cur.append(e)
        if len(cur) > MAXEV:
            cur = cur[:MAXEV]
        st.ext["ev"] = tuple(cur)

    def tokens(self, I, fr, st, v, char=False, depth=0):
        """Events of writing value v."""
        if v.op == "s":
            return [("lit", v.a[0])] if v.a[0] else []
        if isc(v) and isinstance(v.a[0], int):
            if char:
                return [("lit", chr(v.a[0] & 255))]
            return [("lit", str(v.a[0]))]
        if v.op == "strof":
            a = v.a
            if len(a) in (2, 3) and isc(a[0]) and isc(a[1]) and 0 <= a[0].a[0] < 100:
                return [("lit", chr(a[1].a[0] & 255) * a[0].a[0])]
            if len(a) == 1:
                return self.tokens(I, fr, st, a[0], char, depth + 1)
        if v.op == "fn" and v.a[0] == "operator+" and len(v.a) == 3:
            out = []
            for x in v.a[1:]:
                out += self.tokens(I, fr, st, x, False, depth + 1)
            return out
        if v.op == "cstr":
            return self.tokens(I, fr, st, v.a[0], char, depth + 1)
        if v.op == "strm":
            return list(v.a[0])
        if v.op == "acc":
            return [("put", v)]
        if depth < 6:
            alts = self.choices(I, fr, st, v)
            if len(alts) > 1 or alts[0][0] is not v:
                return [("alt", tuple((cs, tuple(self.tokens(I, fr, st, x, char, depth + 1)))
                                      for x, cs in alts))]
        if v.op == "fn" and len(v.a) > 1 and all(isinstance(x, T) for x in v.a[1:]):
            return [("fn", v.a[0]) + tuple(self.canon(I, fr, st, x) for x in v.a[1:])]
        return [("chr" if char else "val", self.canon(I, fr, st, v))]

    def choices(self, I, fr, st, v, depth=0):
        """The values v can stand for, each with its conditions."""
        none = frozenset()
        if depth > 4:
            return [(v, none)]
        if v.op == "ite":
            out = []
            for x, pol in ((v.a[1], True), (v.a[2], False)):
                r = frozenset([self.cond(I, fr, st, v.a[0], pol)])
                out += [(y, r | cs) for y, cs in self.choices(I, fr, st, x, depth + 1)]
            return out
        if v.op in ("phi", "ret") and v in st.impl:
            out = []
            for x, facts in st.impl[v]:
                r = self.conds(I, fr, st, facts)
                out += [(y, r | cs) for y, cs in self.choices(I, fr, st, x, depth + 1)]
            return out
        if v.op == "ldp":
            alts = self.choices(I, fr, st, v.a[0], depth + 1)
            if len(alts) > 1 or alts[0][0] is not v.a[0]:
                return [(I.load(st, I.deref(x)), cs) for x, cs in alts]
        if v.op == "fn" and len(v.a) > 1:
            out = [((), none)]
            for x in v.a[1:]:
                al = self.choices(I, fr, st, x, depth + 1) if isinstance(x, T) else [(x, none)]
                out = [(xs + (y,), c1 | c2) for xs, c1 in out for y, c2 in al]
            if len(out) > 1 or any(a is not b for a, b in zip(out[0][0], v.a[1:])):
                return [(mk("fn", v.a[0], *xs), cs) for xs, cs in out]
        return [(v, none)]

    def stream_of(self, fr, st, loc):
        """None for the stream the caller supplies, a key for a string stream of the function."""
        if loc.op == "V" and not str(loc.a[0]).endswith("*"):
            return loc
        if loc.op == "D" and loc.a[0].op == "obj":
            return loc.a[0]
        if loc.op == "tmp":
            return loc.a[0]
        return None

    def write(self, I, fr, st, loc, v, char=False):
        toks = self.tokens(I, fr, st, v, char)
        key = self.stream_of(fr, st, loc)
        if key is None:
            self.emit(st, toks)
        else:
            ss = dict(st.ext.get("strm", ()))
            ss[key] = (ss.get(key, ()) + tuple(toks))[:MAXEV]
            st.ext["strm"] = tuple(sorted(ss.items(), key=lambda x: repr(x[0])))

    def record(self, I, fr, st, node, n, oloc, args):
        """Events of a call, for rules that follow more than stream output."""
        return None

    def inline(self, I, fr, f):
        return f["name"] not in self.pure

    def deref(self, I, fr, st, node, ptr):
        if ptr.op not in ("&", "this", "itd", "it") and st.knows(ptr) is None:
            assume(st, ptr, True)

    # ---------------------------------------------------------------- texts in local strings
    def call(self, I, fr, st, node, callee, oloc, args):
        super().call(I, fr, st, node, callee, oloc, args)
        if self.accs:
            v = st.env.get(oloc) if oloc is not None and oloc.op == "V" else None
            self.before = (node, v) if v is not None and v.op == "acc" else None

    def appended(self, I, fr, st, node, n, oloc, args):
        """A call that may have changed a local string that holds a text."""
        if not self.accs or self.before is None or self.before[0] != node:
            return
        acc = self.before[1]
        name = query.base(n) if not n.get("op") else n["op"]
        vals = [I.val(fr, st, a) for a in args]
        cls = n.get("cls", "")
        if "basic_string" not in cls:
            return
        evs = None
        if name in ("+=", "append", "push_back") and len(vals) == 1:
            char = fr.f["nodes"].get(args[0], {}).get("t", "").replace("const ", "") == "char"
            evs = self.tokens(I, fr, st, vals[0], char)
        elif name == "append" and len(vals) == 2 and isc(vals[0]):
            evs = self.tokens(I, fr, st, mk("strof", *vals))
        elif name == "=" and len(vals) == 1 and vals[0].op == "fn" and \
                vals[0].a[0] == "operator+" and vals[0].a[1] is acc:
            evs = self.tokens(I, fr, st, vals[0].a[2])
        elif name == "clear" or name == "=" and vals[0].op == "s" and not vals[0].a[0]:
            self.emit(st, [("new", acc)])
            evs = []
        if evs is not None:
            self.emit(st, [("to", acc, e) for e in evs])
            st.env[oloc] = acc

    def settle(self):
        """Write what the local strings hold where they are written."""
        done, inner = {}, set()
        variants = {}

        def visit(key):
            if key in done:
                return done[key]
            done[key] = None
            out = set()
            targets = set()
            for ev, cs, how in self.variants.get(key, ()):
                ev = resolve(ev)
                out.add((ev, cs, how))
                targets |= set(t[1] if t[0] == "to" else None for t in ev)
            if len(targets) == 1 and None not in targets:
                done[key] = targets.pop()
                out = set((tuple(t[2] for t in ev), cs, how) for ev, cs, how in out)
            variants[key] = out
            return done[key]

        def put(tok, held):
            """What writing tok writes."""
            if tok[0] == "put" and tok[1] in held:
                return list(held[tok[1]])
            if tok[0] == "alt":
                return [("alt", tuple((cs, tuple(x for t in ev for x in put(t, held)))
                                      for cs, ev in tok[1]))]
            return [tok]

        def resolve(seq):
            out, held = [], {}
            for t in seq:
                if t[0] == "new":
                    held[t[1]] = []
                elif t[0] == "to":
                    for x in put(t[2], held):
                        (held[t[1]] if t[1] in held else out).append(
                            x if t[1] in held else ("to", t[1], x))
                elif t[0] in ("loop", "brk"):
                    k = visit(t[1])
                    if k is None:
                        out.append(t)
                    elif k in held:
                        held[k].append(t)
                    else:
                        out.append(("to", k, t))
                else:
                    out.extend(put(t, held))
            return tuple(out)

        for key in list(self.variants):
            visit(key)
        self.ends = set((resolve(ev), cs) for ev, cs in self.ends)
        self.variants = variants

    def called(self, I, fr, st, node, n, oloc, args, val):
        self.appended(I, fr, st, node, n, oloc, args)
        if n.get("fn") in self.pure:
            st.vals[node] = mk("fn", query.base(n), *[I.val(fr, st, a) for a in args])
        evs = self.record(I, fr, st, node, n, oloc, args)
        if evs:
            self.emit(st, evs)
        op = n.get("op")
        name = query.base(n)
        if op == "<<":
            if n.get("cls") and "stream" in n["cls"] and oloc is not None:
                stream, arg = oloc, args[0]
            elif len(args) == 2 and "stream" in fr.f["nodes"].get(args[0], {}).get("t", ""):
                stream, arg = I.loc(fr, st, args[0]), args[1]
            else:
                return
            v = I.val(fr, st, arg)
            if v.op == "fnptr":
                r = repr(v.a[0])
                if "@endl<" in r:
                    v = mk("s", "\n")
                elif "@ends<" in r:
                    v = mk("s", "\0")
                elif "@flush<" in r:
                    return
                else:
                    v = mk("fn", "manip", mk("s", r.split("@F@")[-1].split("#")[0].split("<")[0]))
            an = fr.f["nodes"].get(arg, {})
            self.write(I, fr, st, stream, v, an.get("t", "").replace("const ", "") in
                       ("char", "unsigned char", "signed char"))
        elif name in ("put", "write") and oloc is not None and "stream" in n.get("cls", ""):
            v = I.val(fr, st, args[0])
            self.write(I, fr, st, oloc, v, name == "put")
        elif name == "str" and args and oloc is not None and "stream" in n.get("cls", ""):
            self.forget(fr, st, oloc)
            self.write(I, fr, st, oloc, I.val(fr, st, args[0]))
        elif name == "str" and not args and oloc is not None and "stream" in n.get("cls", ""):
            key = self.stream_of(fr, st, oloc)
            ss = dict(st.ext.get("strm", ()))
            st.vals[node] = mk("strm", ss.get(key, ()))

    def forget(self, fr, st, loc):
        ss = st.ext.get("strm")
        if ss:
            key = self.stream_of(fr, st, loc)
            keep = tuple(x for x in ss if x[0] is not key)
            if keep:
                st.ext["strm"] = keep
            else:
                st.ext.pop("strm")

    def decl(self, I, fr, st, el, loc, val):
        self.forget(fr, st, loc)
        if self.accs and val is not None and val.op == "s" and not val.a[0] and loc.op == "V" and \
                not el.get("ref") and "basic_string" in el.get("t", ""):
            acc = mk("acc", loc, repr(fr.ctx))
            st.env[loc] = acc
            self.emit(st, [("new", acc)])

    def scope_end(self, I, fr, st, el):
        if el.get("adtor") and "strm" in st.ext:
            l = st.refs.get(el["adtor"])
            self.forget(fr, st, mk("D", l) if l is not None else mk("V", el["adtor"], el.get("name")))

    # ---------------------------------------------------------------- loops
    def partition(self, I, fr, st):
        return (st.ext.get("ev", ()), st.ext.get("stk", ()), st.ext.get("strm", ()),
                self.ghosts(st))

    def ghosts(self, st):
        return None

    def loop_path(self, I, fr, st, key):
        """Path of the container a loop runs over, seen from inside (or its last turn)."""
        for l, v, n in self.loopvars(st, key):
            x = v
            while x.op in ("inc", "dec"):
                x = x.a[0]
            if x.op == "it":
                return self.canon(I, fr, st, x.a[0])
        for l, v, n in self.loopvars(st, key):
            p, _ = basephi(v)
            for a in st.facts:
                if a[0] == "le":
                    for t, k in a[1]:
                        if t.op == "size" and (st.entails(le_atom(p, t, 1)) or
                                               st.entails(le_atom(t, p))):
                            return self.canon(I, fr, st, t.a[0])
        return None

    def on_turn(self, I, fr, st, key, how):
        """End of one turn of a loop (before its events are dropped)."""

    def loopvars(self, st, key):
        out = []
        for l, v in st.env.items():
            if l.op == "V":
                p, n = basephi(v)
                if p is not None and p.op == "phi" and p.a[0][0] == key and p.a[0][1] == l.h:
                    out.append((l, v, n))
        return out

    def edge(self, I, fr, st, p, succ, info):
        loops = loops_of(fr.f)
        for h in sorted(info["exits"], key=lambda h: len(loops[h])):
            self.leave(I, fr, st, headkey(fr, h), p == h or self.only_exit(fr.f, h, p))
        if info["back"] is not None:
            self.turn(I, fr, st, headkey(fr, info["back"]))
        if info["enters"] is not None:
            key = headkey(fr, info["enters"])
            snap = []
            for l, v in st.env.items():
                if l.op == "V" and (v.op == "begin" or isc(v) and v is not NULL and
                                    isinstance(v.a[0], int) and v.a[0] in (0, 1)):
                    snap.append((l, v))
            snap = tuple(sorted(snap, key=repr))
            st.ext["stk"] = st.ext.get("stk", ()) + ((key, (st.ext.get("ev", ()), snap)),)
            st.ext["ev"] = ()
            self.where.setdefault(key, "%s:%s" % (fr.f["file"], fr.f["name"].split("::")[-1]))
            self.entered(I, fr, st, key)

    def entered(self, I, fr, st, key):
        pass

    def ran(self, st, key, cont, var, start):
        """The loop visited cont to its end, by way of var, from start on."""

    def left(self, I, fr, st, key):
        pass

    def only_exit(self, f, h, p):
        """Block p leads nowhere but to the test of the loop's condition (compound conditions)."""
        return False

    def turn(self, I, fr, st, key):
        stk = st.ext.get("stk", ())
        ev = st.ext.get("ev", ())
        self.on_turn(I, fr, st, key, "back")
        if I.reporting:
            self.variants.setdefault(key, set()).add((ev, self.conds(I, fr, st), "back"))
            self.step(I, fr, st, key)
        st.ext["ev"] = ()

    def step(self, I, fr, st, key):
        """Each candidate position is advanced by one in a turn."""
        snap = dict(next(s[1][1] for s in st.ext["stk"] if s[0] == key))
        seen = False
        for l, v, n in self.loopvars(st, key):
            if n == 1 and l in snap:
                seen = True
                self.steps = getattr(self, "steps", {})
                self.steps.setdefault(key, set()).add(l)
            else:
                self.bad.setdefault(key, set()).add(("step", l))
        if not seen:
            self.bad.setdefault(key, set()).add(("none", None))

    def leave(self, I, fr, st, key, normal):
        stk = st.ext.get("stk", ())
        if not stk or stk[-1][0] != key:
            return
        ev = st.ext.get("ev", ())
        outer, snap = stk[-1][1]
        snap = dict(snap)
        cont = None
        done = False
        self.cont_addr = None      # address of the container, if known
        found = []
        for l, v, n in self.loopvars(st, key):
            if n or l not in snap:
                continue
            if v.op == "it":
                e = mk("end", v.a[0], v.a[1])
                if st.knows_eq(v, e) is True and snap[l].op == "begin":
                    cont, done = v.a[0], True
                    self.cont_addr = v.a[1]
                    var = l
                    break
            elif v.op == "phi":
                sizes = set(t for a in st.facts if a[0] == "le" for t, k in a[1]
                            if t.op == "size")
                found += [(t, l) for t in sizes if st.entails(le_atom(t, v))]
        if not done and found:
            found.sort(key=lambda x: (le_atom(x[0], st.env[x[1]]) not in st.facts,
                                      "?" in self.canon(I, fr, st, x[0].a[0]), repr(x)))
            cont, done, var = found[0][0].a[0], True, found[0][1]
        if not done:
            # nothing to visit: the container is known to be empty
            for l, v in snap.items():
                if v.op == "begin" and st.env.get(l) is v and \
                        st.knows_eq(v, mk("end", *v.a)) is True:
                    cont, done, var = v.a[0], True, l
                    self.cont_addr = v.a[1]
        if done and self.cont_addr is None:
            for l, v in st.env.items():
                if v is cont:
                    self.cont_addr = I.addr(l)
        self.ran_out = done
        self.cont = cont
        saved = st.ext["stk"][:-1]
        st.ext["stk"] = saved
        if not saved:
            st.ext.pop("stk")
        if done and I.reporting:
            self.ran(st, key, cont, var, snap[var])
        if done and not ev:
            path = self.canon(I, fr, st, cont)
            if isc(snap[var]) and snap[var].a[0]:
                path += "@%d" % snap[var].a[0]
            if I.reporting:
                self.conts.setdefault(key, set()).add(path)
            st.ext["ev"] = outer
            self.left(I, fr, st, key)
            self.emit(st, [("loop", key, path, var)])
        else:
            if I.reporting:
                self.variants.setdefault(key, set()).add((ev, self.conds(I, fr, st), "break"))
            st.ext["ev"] = outer
            self.left(I, fr, st, key)
            self.emit(st, [("brk", key)])

    def exit(self, I, fr, st):
        if fr.up is None and I.reporting:
            self.ends.add((st.ext.get("ev", ()), self.conds(I, fr, st)))

    def whole(self, key, var):
        """Every turn of the loop advances var by exactly one."""
        return ("step", var) not in self.bad.get(key, ()) and \
            var in getattr(self, "steps", {}).get(key, (var,))

    # ---------------------------------------------------------------- expansion
    @staticmethod
    def expand(ev, conds, limit=256):
        """Sequences of events without alternatives, each with its conditions."""
        out = [((), dict(conds))]
        for e in ev:
            nxt = []
            for toks, cs in out:
                if e[0] != "alt":
                    nxt.append((toks + (e,), cs))
                    continue
                for acs, aev in e[1]:
                    c2 = dict(cs)
                    ok = True
                    for k, v in acs:
                        if k in c2 and c2[k] != v:
                            ok = False
                        c2[k] = v
                    if ok:
                        for t2, c3 in Trav.expand(aev, c2.items(), limit):
                            nxt.append((toks + t2, c3))
            out = nxt[:limit]
        res = []
        for toks, cs in out:
            m = []
            for t in toks:
                if t[0] == "lit" and m and m[-1][0] == "lit":
                    m[-1] = ("lit", m[-1][1] + t[1])
                else:
                    m.append(t)
            res.append((tuple(m), cs))
        return res

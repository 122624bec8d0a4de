"""Interned symbolic terms and linear entailment over them."""


class T:
    __slots__ = ("op", "a", "h", "gen", "__weakref__")

    def __repr__(self):
        r = _shown.get(self)
        if r is None:
            r = _shown[self] = show(self)
        return r

    def __reduce__(self):
        # terms stay interned when they travel between processes
        return _remk, (self.op, self.a)


_tab = {}
_shown = {}


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.h = len(_tab)
        g = frozenset()
        if op in GEN:
            g = frozenset((t,))
        for x in a:
            if isinstance(x, T) and x.gen:
                g = g | x.gen
        t.gen = g
        _tab[k] = t
    return t


def _remk(op, a):
    return mk(op, *a)


# operators whose terms are generated at a program point (a new meaning on each visit)
GEN = {"sym", "phi", "obj", "ret", "ep"}

NULL = mk("null")


def C(v):
    return mk("c", int(v))


TRUE, FALSE = C(1), C(0)
ZERO = FALSE
ONE = TRUE


def isc(t):
    return t.op == "c"


def show(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    if depth > 7:
        return "..."
    d = depth + 1
    op, a = t.op, t.a
    if op == "c":
        return str(a[0])
    if op in ("fp",):
        return str(a[0])
    if op == "s":
        return '"%s"' % a[0][:40]
    if op == "null":
        return "nullptr"
    if op == "iv":
        return str(a[1])
    if op == "this":
        return "this"
    if op == "F":
        b = show(a[0], d)
        if b.startswith("&"):
            return b[1:] + "." + a[1]
        return b + "->" + a[1]
    if op == "V":
        return str(a[1])
    if op == "&":
        return "&" + show(a[0], d)
    if op == "D":
        return "*" + show(a[0], d)
    if op == "ld":
        b = show(a[0], d)
        if b.startswith("&"):
            return b[1:] + "." + a[1]
        return b + "->" + a[1]
    if op == "elem":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == "E":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == "lin":
        return "(" + " + ".join((("%d*" % c) if c != 1 else "") + show(x, d) for x, c in a[0]) + \
            (" + %d" % a[1] if a[1] else "") + ")"
    if op == "phi":
        return "phi(%s)" % (show(a[-1], d),)
    if op in ("sym", "obj", "ret"):
        return "%s@%s" % (a[-1] if isinstance(a[-1], str) else op, a[0])
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in a))


# ---------------------------------------------------------------------------------- linear terms

def linparts(t):
    """t as (dict term->coef, const)."""
    if t.op == "c":
        return {}, t.a[0]
    if t.op == "lin":
        return dict(t.a[0]), t.a[1]
    return {t: 1}, 0


def mklin(d, c):
    items = tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda p: p[0].h))
    if not items:
        return C(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", items, c)


# "lin" holds terms inside a tuple: its generated symbols must be collected explicitly
def _fix_lin():
    global mk
    base = mk

    def mk2(op, *a):
        t = base(op, *a)
        if op == "lin" and not t.gen:
            g = frozenset()
            for x, _ in a[0]:
                g = g | x.gen
            t.gen = g
        return t
    mk = mk2


_fix_lin()


def add(x, y, k=1):
    dx, cx = linparts(x)
    dy, cy = linparts(y)
    for t, c in dy.items():
        dx[t] = dx.get(t, 0) + k * c
    return mklin(dx, cx + k * cy)


def mul(x, k):
    d, c = linparts(x)
    return mklin({t: v * k for t, v in d.items()}, c * k)


def le_atom(x, y, slack=0):
    """x - y + slack <= 0, as a canonical atom."""
    d, c = linparts(x)
    dy, cy = linparts(y)
    for t, v in dy.items():
        d[t] = d.get(t, 0) - v
    items = tuple(sorted(((t, v) for t, v in d.items() if v), key=lambda p: p[0].h))
    return ("le", items, c - cy + slack)


def entails_le(facts, goal, nonneg, cap=60):
    """Do the facts (iterable of ("le", items, const)) entail goal ("le", items, const)?
    nonneg(t) tells whether a term is known to be >= 0.  Rational Fourier-Motzkin, bounded."""
    _, items, const = goal
    if not items:
        return const <= 0
    # quick: identical left-hand side with a stronger constant
    for f in facts:
        if f[1] == items and f[2] >= const:
            return True
    # negated goal: items + const >= 1   ->  -items - const + 1 <= 0
    ineqs = [({t: -v for t, v in items}, 1 - const)]
    terms = set(t for t, _ in items)
    pool = [f for f in facts]
    used = set()
    for _round in range(3):
        grow = False
        for i, f in enumerate(pool):
            if i in used:
                continue
            if any(t in terms for t, _ in f[1]):
                used.add(i)
                ineqs.append((dict(f[1]), f[2]))
                for t, _ in f[1]:
                    if t not in terms:
                        terms.add(t)
                        grow = True
        if not grow:
            break
    for t in terms:
        if nonneg(t):
            ineqs.append(({t: -1}, 0))
    return _infeasible(ineqs, cap)


def _infeasible(ineqs, cap):
    # sum(coef*term) + const <= 0 for each; True if there is no solution
    work = []
    for d, c in ineqs:
        d = {t: v for t, v in d.items() if v}
        if not d:
            if c > 0:
                return True
            continue
        work.append((d, c))
    while True:
        if not work:
            return False
        occ = {}
        for d, _ in work:
            for t, v in d.items():
                p, n = occ.get(t, (0, 0))
                occ[t] = (p + (v > 0), n + (v < 0))
        t = min(occ, key=lambda x: (occ[x][0] * occ[x][1], x.h))
        pos = [(d, c) for d, c in work if d.get(t, 0) > 0]
        neg = [(d, c) for d, c in work if d.get(t, 0) < 0]
        rest = [(d, c) for d, c in work if t not in d]
        new = []
        seen = set()
        for dp, cp in pos:
            for dn, cn in neg:
                a, b = dp[t], -dn[t]
                d = {}
                for x, v in dp.items():
                    d[x] = d.get(x, 0) + v * b
                for x, v in dn.items():
                    d[x] = d.get(x, 0) + v * a
                d = {x: v for x, v in d.items() if v}
                c = cp * b + cn * a
                if not d:
                    if c > 0:
                        return True
                    continue
                g = 0
                for v in list(d.values()):
                    g = _gcd(g, abs(v))
                if g > 1:
                    d = {x: v // g for x, v in d.items()}
                    c = -((-c) // g)   # integer tightening: ceil(c/g)
                k = (tuple(sorted(((x.h, v) for x, v in d.items()))), c)
                if k in seen:
                    continue
                seen.add(k)
                new.append((d, c))
        work = rest + new
        if len(work) > cap:
            return False


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a

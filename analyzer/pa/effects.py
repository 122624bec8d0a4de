"""Effects on the elements of a document: which stores and calls change one."""
from . import query
from .terms import mk

READERS = {"find", "find_if", "find_if_not", "count", "count_if", "any_of", "all_of", "none_of",
           "accumulate", "distance", "max_element", "min_element", "minmax_element",
           "binary_search", "lower_bound", "upper_bound", "equal", "mismatch", "search", "adjacent_find",
           "is_sorted", "equal_range", "reduce", "inner_product", "next", "prev", "begin", "end",
           "cbegin", "cend", "rbegin", "rend", "size", "empty", "addressof", "make_pair",
           "make_tuple", "tie", "get", "to_string", "lexicographical_compare", "includes",
           "operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=",
           "operator-", "operator+", "operator<<", "min", "max", "minmax", "forward", "as_const",
           "ref", "cref", "data"}
# members that hand out access but change nothing themselves
ACCESS = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "crbegin", "crend", "at", "front",
          "back", "operator[]", "data", "find", "lower_bound", "upper_bound", "equal_range", "get",
          "operator->", "operator*", "c_str", "size", "empty", "reserve", "shrink_to_fit", "top",
          "count", "length", "substr", "compare", "operator bool", "operator==", "operator!="}


def type_fields(prog):
    out = set()
    for c, r in prog.records.items():
        if c.startswith("ppp::types::"):
            out |= set(f["name"] for f in r["fields"])
    return out


def element_classes(prog):
    return set(c for c in prog.records if c.startswith("ppp::types::"))


def chain(loc):
    """Fields along a location, outermost first, and its root term."""
    fields = []
    x = loc
    while True:
        if x.op == "F":
            fields.append(x.a[1])
            x = x.a[0]
        elif x.op == "E":
            x = x.a[0]
        elif x.op in ("&", "D", "tmp"):
            x = x.a[0]
        elif x.op == "ld":
            fields.append(x.a[1])
            x = x.a[0]
        elif x.op in ("elem", "itd", "get", "begin", "end", "it", "itx", "m:at", "inc", "dec"):
            x = x.a[0]
        else:
            return fields, x


def writes(I, fr, st, n, oloc, args):
    """Locations a call of a function outside the program may change, as (location, how)."""
    out = []
    name = query.base(n)
    if n["k"] not in ("call", "construct"):
        return out
    if n["k"] == "call" and oloc is not None and not n.get("const") and not n.get("static"):
        if name not in ACCESS and "stream" not in n.get("cls", ""):
            out.append((oloc, name))
    pms = n.get("pm", "")
    for k, a in enumerate(args):
        if a is None or a < 0:
            continue
        pm = pms[k] if k < len(pms) else "v"
        if pm == "m" and not (n["k"] == "call" and name in READERS):
            ad = I.argaddr(fr, st, a)
            if ad is not None:
                out.append((I.deref(ad), name))
        elif pm == "p":
            v = I.val(fr, st, a)
            if name not in READERS:
                out.append((mk("D", v), name))
        elif n["k"] == "call" and name not in READERS and oloc is None:
            v = I.val(fr, st, a)
            b = v
            while b.op in ("inc", "dec"):
                b = b.a[0]
            if b.op in ("begin", "it", "rbegin") and len(b.a) > 1 and hasattr(b.a[1], "op") and \
                    b.a[1].op == "&":
                an = fr.f["nodes"].get(a, {})
                if "const" not in an.get("t", "const"):
                    out.append((b.a[1].a[0], name))
    return out

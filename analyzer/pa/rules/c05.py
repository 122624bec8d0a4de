"""C05: the program touches only the files it was told to, and runs no other program."""
from .. import query
from ..cli import CliHooks, run_main
from ..facts import AnalysisError
from ..terms import C, FALSE, mk, show
from .c01 import ENGINE, M, VISCLS, has_opt, is_call, obj_site
from .c03 import SER

EXEC = {"system", "popen", "execl", "execlp", "execle", "execv", "execvp", "execvpe", "execve",
        "fork", "vfork", "posix_spawn", "posix_spawnp", "clone", "std::system", "wordexp",
        "dlopen", "raise", "kill", "ptrace", "boost::process::system", "socket", "connect", "listen",
        "accept", "sendto", "getaddrinfo", "gethostbyname"}
REMOVE = {"remove", "unlink", "rmdir", "rename", "truncate", "ftruncate", "chmod", "chown", "link",
          "symlink", "mkfifo", "mknod", "tmpfile", "mkstemp", "mkdtemp", "chdir", "remove_all", "copy_file", "copy", "create_symlink", "resize_file",
          "permissions", "current_path", "create_hard_link", "last_write_time", "umask", "mkdir"}


def base(n):
    return query.base(n)


def ns(n):
    return n.get("fn", "").rsplit("::", 1)[0] if "::" in n.get("fn", "") else ""


def libc(n):
    return ns(n) in ("", "std") or "filesystem" in n.get("fn", "")


def writer(n):
    """What a node writes: index of its path argument, or None."""
    if n["k"] == "construct" and n.get("cls", "").startswith(("std::basic_ofstream",
                                                              "std::basic_fstream")):
        return 0 if n["a"] else None
    if n["k"] != "call":
        return None
    if n.get("cls", "").startswith(("std::basic_ofstream", "std::basic_fstream")) and \
            base(n) == "open":
        return 0
    if libc(n) and base(n) in ("fopen", "freopen", "open", "creat", "create_directories",
                               "create_directory"):
        return 0
    if n.get("fn", "").startswith("PDFDoc::save"):
        return 0
    return None


def reader(n):
    if n["k"] == "construct" and n.get("cls", "").startswith("std::basic_ifstream"):
        return 0 if n["a"] else None
    if n["k"] == "call" and n.get("fn", "").endswith("PDFDocFactory::createPDFDoc"):
        return 0
    if n["k"] == "call" and n.get("cls", "").startswith("std::basic_ifstream") and \
            base(n) == "open":
        return 0
    return None


class H(CliHooks):
    def __init__(self, prog, fixed, follow):
        super().__init__(prog, fixed, follow)
        self.seen = {}
        self.memo = {}
        self.built = {}
        self.exact = {}        # objects built from an option's value as it is

    def call(self, I, fr, st, node, n, oloc, args):
        if n["k"] == "construct" and n.get("u") not in self.prog.functions:
            got = set()
            for a in args:
                if a is not None and a >= 0:
                    v = I.val(fr, st, a)
                    got |= has_opt(v, self.memo)
                    s = obj_site(v)
                    if s:
                        got |= self.built.get(s, set())
            if got:
                self.built[(fr.f["u"], node)] = got
            if args and args[0] is not None and args[0] >= 0:
                v = I.val(fr, st, args[0])
                if v.op == "opt" or self.exact.get(obj_site(v)):
                    self.exact[(fr.f["u"], node)] = True
        for what, fn in (("write", writer), ("read", reader)):
            k = fn(n)
            if k is None or not I.reporting or len(args) <= k:
                continue
            v = I.val(fr, st, args[k])
            o = set(has_opt(v, self.memo))
            s = obj_site(v)
            if s:
                o |= self.built.get(s, set())
            o |= built_from(st, v, self.memo)
            self.seen.setdefault((what, fr.f["u"], node), set()).add(
                (tuple(sorted(o)), show(v)[:80], query.where(fr.f, n),
                 v.op == "opt" or bool(self.exact.get(obj_site(v))) or "directories" in base(n)
                 or "directory" in base(n)))


def built_from(st, v, memo):
    out = set()
    for a in st.facts:
        if a[0] == "t" and a[1].op == "built" and occurs(a[1].a[0], v):
            out |= has_opt(a[1], memo)
    return out


def occurs(x, t, seen=None):
    if x is t:
        return True
    if not hasattr(t, "op"):
        return isinstance(t, tuple) and any(occurs(x, y) for y in t)
    return any(occurs(x, y) for y in t.a)


def run(prog, r, tier):
    r.rule("no process", "No function of the program executes another program, talks to the "
           "network or signals a process.", 1)
    r.rule("no removal", "No function of the program removes, renames, links or changes the "
           "permissions of a file.", 1)
    r.rule("write", "Every file or directory that is created or written is named by the output path "
           "or by the visualization path alone.", 3)
    r.rule("read", "Every file that is read is the input file or a model file whose path comes from "
           "the configuration and not from the document.", 2)
    n_fn = 0
    for f in prog.functions.values():
        n_fn += 1
        bad_e = [n for n in f["nodes"].values() if n["k"] in ("call", "fnref") and libc(n) and
                 (base(n) in EXEC or n.get("fn") in EXEC)]
        bad_r = [n for n in f["nodes"].values() if n["k"] in ("call", "fnref") and libc(n) and
                 base(n) in REMOVE and n.get("fn") not in ("std::remove", "std::copy")]
        # std::remove and std::copy on ranges have three or more arguments
        bad_r += [n for n in f["nodes"].values() if n["k"] == "call" and n.get("fn") ==
                  "std::remove" and len(n["a"]) == 1]
        for n in bad_e[:1]:
            r.bad("no process", f["name"], "%s: %s calls %s" % (query.where(f, n), f["name"],
                                                               n.get("fn")))
        for n in bad_r[:1]:
            r.bad("no removal", f["name"], "%s: %s calls %s" % (query.where(f, n), f["name"],
                                                               n.get("fn")))
    r.ok("no process", "%d functions" % n_fn)
    r.ok("no removal", "%d functions" % n_fn)
    sites = {(w, u, i): (f, n) for u, f in prog.functions.items() for i, n in f["nodes"].items()
             for w, fn in (("write", writer), ("read", reader)) if fn(n) is not None}
    follow = query.reaching(prog, set(u for _, u, _ in sites))
    h = H(prog, {"visualization-path": mk("opt", "visualization-path")}, follow)
    I, _ = run_main(prog, h)
    r.analysed |= set(I.analysed)
    for (w, u, i), (f, n) in sorted(sites.items(), key=lambda x: (x[0][0], x[1][0]["name"])):
        vals = h.seen.get((w, u, i))
        key = "%s in %s" % (n.get("cls") or n.get("fn"), f["name"])
        if not vals:
            if u not in query.reachable(prog, [prog.fn("main")[0]["u"]]):
                r.ok(w, key + " (unreachable)")
                continue
            if w == "write":
                r.bad(w, key, "%s: a file is written whose path was not traced to an option"
                      % query.where(f, n))
            else:
                # not entered from main with this path: decided inside its own class
                r.ob(w, key, from_config(prog, f, n), "%s: a file is read whose path does not "
                     "come from the configuration" % query.where(f, n))
            continue
        for o, txt, wh, exact in vals:
            if w == "write":
                r.ob(w, key, o in (("output-file",), ("visualization-path",)) and exact,
                     "%s: the written path %s is not exactly a requested path (made of %s)" % (wh, txt, ", ".join(o) or "no option"))
            else:
                r.ob(w, key, o == ("pdf-file",) or (not o and from_config(prog, f, n)),
                     "%s: the read path %s is made of %s" % (wh, txt, ", ".join(o) or "no option"))


def from_config(prog, f, n):
    """Is the path argument made of literals, configuration fields and members set from them?"""
    k = reader(n)
    seen = set()

    def ok(f, i):
        m = f["nodes"].get(i)
        if m is None or (f["u"], i) in seen:
            return True
        seen.add((f["u"], i))
        kind = m["k"]
        if kind in ("str", "char", "int", "bool"):
            return True
        if kind == "member":
            if "odelsDir" in m["name"] or m["name"] == "_config":
                return True
            return all(ok(g, j) for g, j in stores(m["name"]))
        if kind == "var":
            if m.get("vk") == "param":
                ix = [x for x, p in enumerate(f["params"]) if p["d"] == m.get("d")]
                return all(ok(g, c["a"][ix[0]]) for g in prog.functions.values()
                           for c in g["nodes"].values() if c["k"] in ("call", "construct") and
                           c.get("u") == f["u"] and ix and len(c["a"]) > ix[0])
            if "d" in m:
                ds = [e for b in f["B"].values() for e in b["e"] if e.get("decl") and
                      e.get("d") == m["d"]]
                return bool(ds) and all("i" in e and ok(f, e["i"]) for e in ds)
            return True          # a global constant
        if kind in ("call", "construct", "bin", "cond", "un", "cast"):
            kids = list(m.get("a", ())) + [m[x] for x in ("o", "x", "y", "c", "e") if
                                           isinstance(m.get(x), int)]
            return all(ok(f, j) for j in kids)
        return kind in ("this", "fnref", "memfn")

    def stores(name):
        out = []
        for g in prog.functions.values():
            for m in g["nodes"].values():
                if m["k"] == "assign":
                    x = g["nodes"].get(m["x"], {})
                    if x.get("k") == "member" and x.get("name") == name:
                        out.append((g, m["y"]))
        return out
    return ok(f, n["a"][k])

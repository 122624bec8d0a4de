"""Model of the command line (boost::program_options) for analyses that start at main."""
from . import terms as TM
from .interp import Hooks, Interp
from .terms import C, TRUE, FALSE
from . import query

mk = TM.mk


def optsym(name):
    return mk("opt", name)


class CliHooks(Hooks):
    """After notify() every variable bound to option NAME holds the symbol opt(NAME), or the value
    given in `fixed`."""

    def __init__(self, prog, fixed=None, follow=None):
        self.prog = prog
        self.fixed = fixed or {}
        self.follow = follow
        self.options = {}       # name -> (location, type of semantic)
        self.parsed = False

    def inline(self, I, fr, f):
        if f.get("ctor"):
            return True
        if self.follow is None or f["u"] in self.follow:
            return True
        # small helpers of the file of main: they may set what the stages are configured with
        return f.get("file") == fr.f.get("file") == self.home() and len(f["nodes"]) < 150

    def home(self):
        if not hasattr(self, "_home"):
            m = self.prog.fn("main")
            self._home = m[0].get("file") if len(m) == 1 else None
        return self._home

    def optval(self, name):
        name = name.split(",")[0]
        return self.fixed.get(name, optsym(name))

    def called(self, I, fr, st, node, n, oloc, args, val):
        fn = n.get("fn", "")
        if fn in ("boost::program_options::bool_switch", "boost::program_options::value"):
            a = I.val(fr, st, args[0]) if args else None
            kind = "switch" if fn.endswith("bool_switch") else "value"
            if a is not None and a.op == "&":
                t = mk("sem", kind, a.a[0])
                st.vals[node] = t
        elif "typed_value" in n.get("cls", "") and "o" in n:
            o = I.val(fr, st, n["o"])
            if o.op == "sem":
                if fn.endswith("::default_value") and args:
                    pass
                st.vals[node] = o
        elif n.get("cls", "").endswith("options_description_easy_init") and n.get("op") == "()":
            nm = I.val(fr, st, args[0])
            sem = I.val(fr, st, args[1]) if len(args) > 1 else None
            if nm.op == "s":
                name = nm.a[0].split(",")[0]
                if sem is not None and sem.op == "sem":
                    self.options[name] = (sem.a[1], sem.a[0], query.where(fr.f, n))
                else:
                    self.options[name] = (None, "flag", query.where(fr.f, n))
        elif fn == "boost::program_options::notify":
            for name, (loc, kind, _) in self.options.items():
                if loc is None:
                    continue
                v = self.optval(name)
                I._drop_sub(st, loc)
                st.env[loc] = v
                if v.op == "opt" and kind == "switch":
                    pass
            self.parsed = True
        elif n.get("cls", "").endswith("program_options::variables_map") or \
                n.get("cls", "").endswith("abstract_variables_map"):
            if n.get("op") == "[]" and args:
                nm = I.val(fr, st, args[0])
                if nm.op == "strof" and nm.a[0].op == "s":
                    nm = nm.a[0]
                if nm.op == "s":
                    st.lvs[node] = mk("D", mk("optcell", nm.a[0]))
        elif n.get("cls", "").endswith("program_options::variable_value") and \
                fn.split("<")[0].endswith("::as"):
            if oloc is not None and oloc.op == "D" and oloc.a[0].op == "optcell":
                v = self.optval(oloc.a[0].a[0])
                if n.get("lv"):
                    st.lvs[node] = mk("tmp", v)
                    st.vals[node] = v
                else:
                    st.vals[node] = v


def run_main(prog, hooks, budget=400000):
    m = prog.fn("main")
    if len(m) != 1:
        from .facts import AnalysisError
        raise AnalysisError("no unique main function")
    I = Interp(prog, hooks, max_depth=12, budget=budget)
    ex = I.run_root(m[0])
    return I, ex

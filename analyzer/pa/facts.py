"""Builds the extractor, runs it over every translation unit of the repository and loads the result.

The facts are recomputed from the repository's current working tree; they are cached under
/verif/build keyed by the content of every source file, header, flag and of the extractor itself.
"""
import glob
import hashlib
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"


class AnalysisError(Exception):
    """The analysis cannot be carried out (vanished anchor, source that does not parse, ...)."""


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def build_extractor():
    src = os.path.join(VERIF, "analyzer", "extract.cpp")
    key = _sha(_read(src))
    out = os.path.join(BUILD, "extract-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.check_output([LLVM + "/bin/llvm-config", "--cxxflags"], text=True).split()
    flags = [f for f in flags if not f.startswith("-std=")]
    tmp = out + ".tmp%d" % os.getpid()
    cmd = ["clang++", "-std=c++17", "-fno-rtti", "-O1", *flags, src, "-o", tmp,
           LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM-18.so"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError("cannot build the extractor:\n" + r.stderr[-3000:])
    os.rename(tmp, out)
    return out


def flags():
    rd = subprocess.check_output(["clang++", "-print-resource-dir"], text=True).strip()
    return ["-std=c++20", "-include", "algorithm", "-include", "cstring", "-I/usr/include/poppler",
            "-I" + os.path.join(VERIF, "stubs"), "-w",
            '-DCONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR="models"',
            '-DPROGRAM_NAME="pdftotext++"', '-DPROGRAM_DESCRIPTION="description"',
            '-DPROGRAM_USAGE="usage"', '-DVERSION="version"', "-resource-dir", rd]


def sources(repo=None):
    repo = repo or REPO
    return sorted(glob.glob(repo + "/src/*.cpp") + glob.glob(repo + "/src/*/*.cpp"))


def headers(repo=None):
    repo = repo or REPO
    return sorted(glob.glob(repo + "/src/*.h") + glob.glob(repo + "/src/*/*.h"))


class Program:
    """The merged, type-resolved program."""

    def __init__(self):
        self.functions = {}   # usr -> function
        self.records = {}     # qualified name -> record
        self.enums = {}
        self.globals = {}
        self.units = []
        self.by_name = {}     # qualified name -> [function]
        self.src_hash = ""

    def fn(self, name):
        """All definitions with that qualified name."""
        return self.by_name.get(name, [])


def _extract_one(tool, fl, repo, src, out):
    for _ in range(2):     # a second try in case memory ran low
        r = subprocess.run([tool, repo + "/src", out, "--", *fl, src], capture_output=True,
                           text=True, cwd=repo)
        if r.returncode == 0:
            break
    if r.returncode != 0 or not os.path.exists(out):
        raise AnalysisError("cannot analyse %s:\n%s" % (src, r.stderr[-3000:]))
    with open(out) as f:
        d = json.load(f)
    os.unlink(out)
    return d


def load(repo=None):
    repo = repo or REPO
    tool = build_extractor()
    fl = flags()
    srcs = sources(repo)
    if not srcs:
        raise AnalysisError("no sources under %s/src" % repo)
    content = [tool, " ".join(fl), _read(os.path.abspath(__file__))]
    for p in srcs + headers(repo) + sorted(glob.glob(VERIF + "/stubs/*/*")):
        content += [p, _read(p)]
    key = _sha(*content)
    cache = os.path.join(BUILD, "facts-%s.pickle" % key)
    if os.path.exists(cache):
        try:
            with open(cache, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    tmp = tempfile.mkdtemp(prefix="facts-")
    try:
        with ThreadPoolExecutor(8) as ex:
            parts = list(ex.map(lambda a: _extract_one(tool, fl, repo, a[1],
                                                       os.path.join(tmp, "%d.json" % a[0])),
                                list(enumerate(srcs))))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prog = Program()
    prog.src_hash = key
    for i, (src, d) in enumerate(zip(srcs, parts)):
        prog.units.append(src)
        for f in d["functions"]:
            if f["u"] in prog.functions or f.get("nocfg"):
                continue
            _prep(f, i, repo)
            prog.functions[f["u"]] = f
        for r in d["records"]:
            r["file"] = os.path.relpath(r["file"], repo)
            prog.records.setdefault(r["name"], r)
        for e in d["enums"]:
            prog.enums.setdefault(e["name"], e)
        for g in d["globals"]:
            g["file"] = os.path.relpath(g["file"], repo)
            g["nodes"] = {int(k): v for k, v in g["nodes"].items()}
            prog.globals.setdefault(g["name"], g)
    for f in prog.functions.values():
        prog.by_name.setdefault(f["name"], []).append(f)
    os.makedirs(BUILD, exist_ok=True)
    t = cache + ".tmp%d" % os.getpid()
    with open(t, "wb") as f:
        pickle.dump(prog, f, protocol=4)
    os.rename(t, cache)
    # keep only the few newest fact files
    old = sorted(glob.glob(os.path.join(BUILD, "facts-*.pickle")), key=os.path.getmtime)
    for p in old[:-4]:
        try:
            os.unlink(p)
        except OSError:
            pass
    return prog


def _prep(f, tu, repo):
    f["tu"] = tu
    f["file"] = os.path.relpath(f["file"], repo)
    f["nodes"] = {int(k): v for k, v in f["nodes"].items()}

    def q(d):
        return "%d.%d" % (tu, d)
    for n in f["nodes"].values():
        if "d" in n:
            n["d"] = q(n["d"])
        if "f" in n:
            n["f"] = os.path.relpath(n["f"], repo) if n["f"] else ""
        for c in n.get("caps", []):
            if "d" in c:
                c["d"] = q(c["d"])
    for p in f["params"]:
        p["d"] = q(p["d"])
    f["B"] = {}
    unwrapped = set()
    for b in f["blocks"]:
        f["B"][b["id"]] = b
        for e in b["e"]:
            if "d" in e:
                e["d"] = q(e["d"])
            for x in e.get("bindings", []):
                x["d"] = q(x["d"])
            if "adtor" in e:
                e["adtor"] = q(e["adtor"])
            if "n" in e and not e.get("w"):
                unwrapped.add(e["n"])
    # a wrapper element whose core expression is an element of its own adds nothing
    for b in f["blocks"]:
        b["e"] = [e for e in b["e"] if not (e.get("w") and e["n"] in unwrapped)]
    del f["blocks"]


if __name__ == "__main__":
    import time
    t = time.time()
    p = load()
    print(len(p.units), "units", len(p.functions), "functions", len(p.records), "records",
          "%.1fs" % (time.time() - t))

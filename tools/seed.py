"""Planted bugs: (re)generates /verif/seeded/<id>/ from seeds.py and verifies them in a scratch copy.

seed.py gen [ID...]            write patch.diff, demo.sh, meta.json
seed.py verify [ID...]         build, stable tests, demo with and without the patch
seed.py check [ID...] [-c C..] run the checks of the property (or the given ones) with the patch
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
SCR = "/tmp/seedrepo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)


def fresh():
    sh("rm -rf %s; cp -a /repo %s" % (SCR, SCR))


def edit(seed, root):
    for f, old, new in seed["edits"]:
        p = os.path.join(root, f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit("%s: pattern occurs %d times in %s: %r"
                             % (seed["id"], s.count(old), f, old[:60]))
        open(p, "w").write(s.replace(old, new))


def gen(seed):
    sh("git -C %s checkout -q -- ." % SCR)
    edit(seed, SCR)
    d = os.path.join(VERIF, "seeded", seed["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, "patch.diff"), "w") as f:
        f.write(sh("git -C %s diff --no-color" % SCR).stdout)
    body = "#!/bin/bash\n# %s\n. \"$(dirname \"$0\")/lib.sh\"\n%s" % (seed["shows"], seed["demo"])
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(body)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    shutil.copy(os.path.join(HERE, "demo", "lib.sh"), d)
    shutil.copytree(os.path.join(HERE, "demo", "cppflow"), os.path.join(d, "cppflow"))
    for nm, txt in seed.get("files", {}).items():
        with open(os.path.join(d, nm), "w") as f:
            f.write(txt)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": seed["property"], "needs": seed["needs"],
                   "what_it_breaks": seed["breaks"]}, f, indent=1)
        f.write("\n")
    sh("git -C %s checkout -q -- ." % SCR)


def build():
    return sh("sed 's,cd /repo,cd %s,' /opt/vp/build.sh > /tmp/seedbuild.sh; "
              "bash /tmp/seedbuild.sh" % SCR)


def tests():
    """Set of passing tests in SCR."""
    sh("sed -e 's,/repo,%s,g' -e 's,/opt/vp/build.sh,/tmp/seedbuild.sh,' /opt/vp/test.sh > "
       "/tmp/seedtest.sh; bash /tmp/seedtest.sh /tmp/seedtest.json" % SCR)
    return set(json.load(open("/tmp/seedtest.json"))["passed"])


def demo(d):
    t = "/tmp/seeddemo"
    sh("rm -rf %s; cp -r %s %s; rm -f %s/*.diff %s/meta.json" % (t, d, t, t, t))
    return sh("cd %s && timeout 300 bash %s/demo.sh" % (SCR, t))


def main(argv):
    import seeds
    cmd = argv[0]
    ids = []
    checks = []
    cur = ids
    for a in argv[1:]:
        if a == "-c":
            cur = checks
        else:
            cur.append(a)
    todo = [s for s in seeds.SEEDS if not ids or s["id"] in ids]
    fresh()
    if cmd in ("gen", "all"):
        for s in todo:
            gen(s)
    if cmd in ("verify", "all"):
        b = build()
        base = tests()
        for s in todo:
            d = os.path.join(VERIF, "seeded", s["id"])
            r0 = demo(d)
            a = sh("git -C %s apply %s/patch.diff" % (SCR, d))
            b = build()
            t = tests() if b.returncode == 0 else set()
            r1 = demo(d)
            sh("git -C %s checkout -q -- ." % SCR)
            build()
            good = a.returncode == 0 and b.returncode == 0 and not (base - t) and \
                r0.returncode == 0 and r1.returncode not in (0, 99)
            print("%-6s %s apply %d build %d lost tests %d demo clean %d patched %d" %
                  (s["id"], "ok " if good else "BAD", a.returncode, b.returncode, len(base - t),
                   r0.returncode, r1.returncode))
            if not good:
                print(r1.stdout[-400:])
    if cmd in ("check", "all"):
        for s in todo:
            d = os.path.join(VERIF, "seeded", s["id"])
            sh("git -C %s checkout -q -- .; git -C %s apply %s/patch.diff" % (SCR, SCR, d))
            for c in checks or [s["property"]]:
                r = sh("VP_REPO=%s %s/check %s" % (SCR, VERIF, c))
                print("%-6s %s %s" % (s["id"], c, {0: "MISSED", 1: "caught"}.get(
                    r.returncode, "ERROR %d" % r.returncode)))
                for l in r.stdout.split("\n"):
                    if l.startswith("  [") or "BROKEN" in l:
                        print("      " + l.strip()[:200])
    sh("rm -rf " + SCR)


main(sys.argv[1:])

"""tools/seed.py SPEC.py...: writes seeded/<id> from a specification and tries it in a scratch copy of /repo.
  -v   also validates it against /repo itself (build.sh, stable tests, demo), one after another
A specification sets: prop, edits [(file, old, new)], needs, breaks, demo (python), files (extra files beside the demo)."""
import os, sys, json, shutil, subprocess, runpy

V = os.environ.get("SEED_V", "/verif")
WT, WTB = "/tmp/wt", "/tmp/wtb"


def sh(cmd, cwd=None, env=None, timeout=1200):
    r = subprocess.run(cmd, cwd=cwd, env=env and {**os.environ, **env}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
    return r.returncode, r.stdout.decode(errors="replace")


def fresh():
    if not os.path.isdir(WT):
        shutil.copytree("/repo", WT, symlinks=True, ignore=shutil.ignore_patterns("_build"))
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfdx", WT)
    a, b = sh("git rev-parse HEAD", WT)[1], sh("git rev-parse HEAD", "/repo")[1]
    assert a == b


def make(spec):
    s = runpy.run_path(spec)
    sid = os.path.basename(spec)[:-3]
    d = f"{V}/seeded/{sid}"
    fresh()
    touched = []
    for f, old, new in s["edits"]:
        p = f"{WT}/{f}"
        t = open(p, encoding="utf-8", newline="").read()
        if t.count(old) != 1:
            print(f"{sid}: text occurs {t.count(old)} times in {f}: {old[:80]!r}")
            return None
        open(p, "w", encoding="utf-8", newline="").write(t.replace(old, new))
        touched.append(f)
    rc, patch = sh("git diff", WT)
    # only lines of the original repository may be removed
    mine = []
    for f in set(touched):
        bl = sh(f"git blame -s HEAD -- {f}", WT)[1].split("\n")
        cur = sh(f"git diff -U0 HEAD -- {f}", WT)[1].split("\n")
        for h in cur:
            if h.startswith("@@"):
                a = h.split()[1][1:].split(",")
                st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                for i in range(st, st + n):
                    if not bl[i - 1].startswith("^"):
                        mine.append(bl[i - 1][:120])
    if mine:
        print(f"{sid}: NOTE changes lines of my own commits: {mine[:3]}")
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write("from demolib import *\n" + s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run in a checkout: exit 0 when the property holds\nHERE=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 python3 "$HERE/demo.py"\n')
    shutil.copy(V + "/tools/demo/demolib.py", d)
    for f in ["gpkg.h", "gpkg_shim.cpp"] + list(s.get("files", [])):
        shutil.copy(f"{V}/native/{f}", d)
    return sid, s


def demo(sid, cwd):
    rc, out = sh(["bash", f"{V}/seeded/{sid}/demo.sh"], cwd, timeout=300)
    return rc, out.strip().split("\n")[-1][:300]


def main(args):
    val = "-v" in args
    nocheck = "-n" in args
    specs = [a for a in args if a.endswith(".py")]
    extra = [a[2:] for a in args if a.startswith("C=")]
    for spec in specs:
        r = make(spec)
        if not r:
            continue
        sid, s = r
        rc1, o1 = demo(sid, WT)
        res = []
        for c in ([] if nocheck else [s["prop"]] + extra):
            rc, out = sh(["python3-vt", "run.py", c], V, {"VERIF_REPO": WT, "VERIF_BUILD": WTB, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            v = [l for l in out.split("\n") if "VIOLATION" in l]
            res.append(f"{c}:rc={rc} nviol={len(v)}" + ("" if rc in (0, 1) else out[-300:]))
        fresh()
        rc0, o0 = demo(sid, WT)
        print(f"{sid}: demo patched={rc1} ({o1}) unpatched={rc0} {'' if rc0 == 0 else o0} | checks {' '.join(res)}", "" if rc1 and not rc0 else "<<< BAD DEMO", flush=True)
        if val:
            rc, out = sh(f"git -C /repo apply {V}/seeded/{sid}/patch.diff")
            try:
                bb = sh("bash /opt/vp/build.sh"); rcb, ob = (bb if bb[0] else sh("bash /opt/vp/test.sh /tmp/seedtest.json"))
                t = json.load(open("/tmp/seedtest.json"))
                base = json.load(open("/opt/vp/BASELINE.json"))
                names = base.get("stable") or base.get("passed") or base
                print(f"   repo: apply={rc} test.sh={rcb} passed={len(t['passed'])} failed={t['failed']}", flush=True)
            finally:
                sh("git -C /repo checkout -- .")
    if val:
        print(sh("bash /opt/vp/build.sh")[0])


main(sys.argv[1:])

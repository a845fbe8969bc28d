#!/usr/bin/env python3
"""mutate.py N SEED LANES: random small changes of /repo's sources (in copies), checks run against each; survivors are written to /tmp/mut/survivors.txt
Known findings are violations that the checks tolerate themselves; everything works in copies under /tmp/mut."""
import os, re, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
N, SEED, LANES = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/mut"
S = "geodiff/src/"
ORDER = {
    "drivers/sqlitedriver.cpp": "C07 C01 C16 C17 C02 C18 C19 C14 C08 C31 C20 C15 C05 C29 C27 C22 C13 C09 C30",
    "drivers/sqliteutils.cpp": "C01 C07 C14 C15 C13 C18 C16 C19 C20 C08 C27 C30 C22 C31",
    "drivers/postgresdriver.cpp": "C25 C26 C18 C30 C31 C20 C22",
    "drivers/postgresutils.cpp": "C25 C26 C18 C30 C31 C20 C22",
    "geodiffrebase.cpp": "C04 C06 C05 C28 C20 C10 C15 C29",
    "changesetreader.cpp": "C10 C09 C01 C14 C13 C11 C29",
    "changesetwriter.cpp": "C09 C01 C13 C14 C29",
    "changesetutils.cpp": "C03 C06 C25 C26 C11 C12 C28 C10 C05 C30 C29 C20",
    "changeset.h": "C01 C09 C11 C04 C27 C10",
    "geodiff.cpp": "C22 C20 C05 C12 C13 C15 C18 C01 C27 C21 C19 C28 C14 C24 C23 C30",
    "geodiffutils.cpp": "C04 C01 C13 C15 C20 C21 C30 C05 C11 C22 C27",
    "tableschema.cpp": "C18 C16 C30 C25",
    "geodifflogger.cpp": "C20 C21 C22",
    "geodiffinfo.cpp": "C24",
    "driver.cpp": "C22 C20 C01 C25 C24",
    "geodiffcontext.cpp": "C20",
}
OPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
    (r"\( !", "( "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r" \+ 1\b", ""), (r" - 1\b", ""),
    (r"\boldValues\b", "newValues"), (r"\bnewValues\b", "oldValues"), (r"^(\s*)break;", r"\1;"), (r"^(\s*)continue;", r"\1;"), (r"^(\s*)throw [^;]*;$", r"\1;"),
    (r"^(\s*)([\w.\->\[\]]+ (=|\+=|\|=) [^;]*;)$", r"\1;"), (r"^(\s*)([\w.\->:]+\( ?[^;]*\);)$", r"\1;"), (r"^(\s*)return [^;]*;$", r"\1;"),
    (r" AND ", " OR "), (r" IS NOT ", " IS "), (r" IS ", " = "), (r"\bmodified\b", "base"), (r"\bbase\b", "modified"), (r"\bfirst\b", "second"), (r"OpInsert", "OpDelete"), (r"OpDelete", "OpInsert"), (r"OpUpdate", "OpInsert"),
    (r"\+\+", "--"), (r"\bsize\(\)", "size() - 1"), (r"\bif \( ", "if ( false && "), (r"\bif \( ", "if ( true || "), (r"GEODIFF_ERROR", "GEODIFF_SUCCESS"), (r"GEODIFF_SUCCESS", "GEODIFF_ERROR"),
]


def candidates():
    out = []
    for f in ORDER:
        p = f"/repo/{S}{f}"
        if not os.path.exists(p):
            continue
        L = open(p).read().split("\n")
        comment = False
        for i, l in enumerate(L):
            st = l.strip()
            if st.startswith("/*"):
                comment = True
            if comment:
                if "*/" in st:
                    comment = False
                continue
            if not st or st.startswith(("//", "#", "*", "namespace", "using", "class", "struct", "assert", "virtual", "const char *", "static const")) or "Logger::instance" in st or "std::cout" in st:
                continue
            code = re.sub(r"//.*", "", l)
            for a, b in OPS:
                for m in re.finditer(a, code):
                    if b.startswith(r"\1") and re.match(r"\s*(else|case|default)", code):
                        continue
                    n = code[:m.start()] + m.expand(b) + code[m.end():]
                    if n != code:
                        out.append((f, i, n))
    return out


def one(lane, k, mu):
    f, i, n = mu
    d = f"{R}/l{lane}"
    src = f"{d}/repo/{S}{f}"
    orig = open(f"/tmp/mut/orig/{S}{f}").read().split("\n")
    L = list(orig)
    L[i] = n
    open(src, "w").write("\n".join(L))
    env = dict(os.environ, VERIF_REPO=f"{d}/repo", VERIF_BUILD=f"{d}/build", VERIF_WORKERS="2", VERIF_SCALE="0.2", VERIF_STOP="4")
    t0, res = time.time(), None
    try:
        for c in ORDER[f].split():
            try:
                r = subprocess.run(["python3", "run.py", c], cwd=f"{d}/verif", env=env, capture_output=True, text=True, timeout=420)
            except subprocess.TimeoutExpired:
                res = ("timeout", c)
                break
            if r.returncode == 1:
                res = ("killed", c)
                break
            if r.returncode != 0:
                res = ("error", c, (r.stdout + r.stderr)[-300:])
                if "BuildError" in r.stdout + r.stderr or "error:" in r.stdout + r.stderr:
                    res = ("nobuild", c)
                break
        else:
            res = ("SURVIVED",)
    finally:
        open(src, "w").write("\n".join(orig))
        subprocess.run(f"rm -rf {d}/verif/replay/*", shell=True)
    with open(R + "/log.txt", "a") as g:
        g.write(f"{k} {f}:{i + 1} {res} {time.time() - t0:.0f}s\n   - {orig[i].strip()}\n   + {n.strip()}\n")
    if res[0] == "SURVIVED":
        with open(R + "/survivors.txt", "a") as g:
            g.write(f"{f}:{i + 1}\n   - {orig[i].strip()}\n   + {n.strip()}\n")


def main():
    shutil.rmtree(R, True)
    os.makedirs(R)
    shutil.copytree("/repo/geodiff", R + "/orig/geodiff", ignore=shutil.ignore_patterns("_build", "testdata"))
    for l in range(LANES):
        d = f"{R}/l{l}"
        subprocess.run(["cp", "-a", "/repo/.", d + "/repo/"], check=False) if False else shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git", "_build"))
        shutil.copytree(V, d + "/verif", ignore=shutil.ignore_patterns(".git", ".build", "seeded", "replay"))
    ms = candidates()
    print(len(ms), "candidates")
    rng = random.Random(SEED)
    by = {}
    for m in ms:
        by.setdefault((m[0], m[1]), []).append(m)      # one change per line
    keys = sorted(by)
    rng.shuffle(keys)
    pick = [rng.choice(by[k]) for k in keys[:N]]
    print(len(keys), "lines,", len(pick), "picked")
    import queue, threading
    q = queue.Queue()
    for k, m in enumerate(pick):
        q.put((k, m))
    def lane(l):
        while True:
            try:
                k, m = q.get_nowait()
            except queue.Empty:
                return
            one(l, k, m)
    T = [threading.Thread(target=lane, args=(l,)) for l in range(LANES)]
    [t.start() for t in T]
    [t.join() for t in T]


main()

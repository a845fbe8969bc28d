"""Check framework: driver-process client, case runner, verdicts, known findings, evidence."""
import os, sys, json, time, random, shutil, subprocess, tempfile, select, hashlib, multiprocessing, traceback, signal, re, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/lib")
import build

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
SCALE = float(os.environ.get("VERIF_SCALE", "1"))
STOP = int(os.environ.get("VERIF_STOP", "60"))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))

SUCCESS, ERROR = 0, 1
OP_READ, OP_WRITE, OP_TRUNC, OP_SYNC, OP_DELETE, OP_OPEN, OP_SIZE, OP_LOCK, OP_STMT, OP_ROW = 1, 2, 4, 8, 16, 32, 64, 128, 256, 512
M_OFF, M_FAIL, M_KILL, M_PAUSE = 0, 1, 2, 3


class CheckFail(Exception):
    """the property is broken in this case. key identifies what failed, for the known-findings file"""
    def __init__(self, key, msg, **detail):
        super().__init__(msg)
        self.key, self.msg, self.detail = key, msg, detail


class Skip(Exception):
    """the case turned out not to exercise the property"""


class Hang(Exception):
    pass


class HarnessError(Exception):
    pass


class Died(Exception):
    def __init__(self, fn, report, status):
        super().__init__(fn)
        self.fn, self.report, self.status = fn, report, status

    def key(self):
        return crash_key(self.report)


def crash_key(rep):
    kind = "abort"
    m = re.search(r"SUMMARY: \w+: ([\w\-]+)", rep) or re.search(r"ERROR: \w+Sanitizer: ([\w\-]+)", rep)
    if m:
        kind = m.group(1)
    m2 = re.search(r"runtime error: ([^\n:]{0,60})", rep)
    if m2:
        kind = "ub " + re.sub(r"[-\d]+", "N", m2.group(1))
    m3 = re.search(r"Assertion [`'](.{0,60})", rep)
    if m3:
        kind = "assert " + m3.group(1)
    m4 = re.search(r"terminate called after throwing an instance of '([^']+)'", rep) or re.search(r"terminating due to uncaught exception of type (\S+)", rep)
    if m4:
        kind = "uncaught " + m4.group(1)
    return "crash:" + kind.strip()


class Reply:
    def __init__(self, d):
        self.rc = d.get("rc")
        self.logs = d.get("logs", 0)
        self.log = [(l, bytes.fromhex(m).decode("utf-8", "replace")) for l, m in d.get("log", [])]
        self.vfs = d.get("vfs", {})

    def errors(self):
        return [m for l, m in self.log if l == 1]

    def warnings(self):
        return [m for l, m in self.log if l == 2]

    def __repr__(self):
        return f"rc={self.rc} log={[(l, m[:200]) for l, m in self.log[-4:]]}"


def enc(a):
    if a is None:
        return "N"
    if isinstance(a, str):
        a = os.fsencode(a)
    elif isinstance(a, int):
        a = str(a).encode()
    return "h" + a.hex()


class Gd:
    """one driver process (restarted when it dies)"""
    def __init__(self, exe, tmp, timeout=60, env=None):
        self.exe, self.tmp, self.timeout, self.p = exe, tmp, timeout, None
        self.errpath = tmp + "/gdrun.err"
        self.extra_env = env or {}
        self.calls = 0

    def start(self):
        env = dict(os.environ)
        env.update({
            "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2048:handle_abort=1:symbolize=1:detect_stack_use_after_return=0",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
            "TMPDIR": self.tmp + "/",
        })
        env.pop("GEODIFF_LOGGER_LEVEL", None)
        env.update(self.extra_env)
        self.err = open(self.errpath, "wb")
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=self.tmp)
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def report(self):
        try:
            with open(self.errpath, "rb") as f:
                return f.read()[-12000:].decode("utf-8", "replace")
        except OSError:
            return ""

    def send(self, cmd, *args):
        if self.p is None:
            self.start()
        line = cmd + "".join(" " + enc(a) for a in args) + "\n"
        try:
            self.p.stdin.write(line.encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def recv(self, fn, timeout=None):
        end = time.time() + (timeout or self.timeout)
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            r, _, _ = select.select([fd], [], [], max(0, end - time.time()))
            if not r:
                self.stop()
                raise Hang(fn)
            b = os.read(fd, 1 << 20)
            if not b:
                st = self.p.wait()
                rep = self.report()
                self.stop()
                raise Died(fn, rep, st)
            self.buf += b
        l, self.buf = self.buf.split(b"\n", 1)
        d = json.loads(l)
        if "error" in d:
            raise HarnessError(d["error"])
        return d

    def cmd(self, cmd, *args):
        self.send(cmd, *args)
        return self.recv(cmd)

    def call(self, fn, *args, timeout=None):
        """one API call; a crash raises Died"""
        self.calls += 1
        self.send("call", fn, *args)
        return Reply(self.recv(fn, timeout))

    def fork(self, fn, *args):
        """one API call in a forked child: returns Reply, or ('exit'|'signal', status)"""
        self.calls += 1
        self.send("fork", fn, *args)
        d = self.recv(fn)
        if "rc" in d:
            r = self.recv(fn) if False else Reply(d)
            return r
        if d["died"] == "signal":
            rep = self.report()
            raise Died(fn, rep, d["status"])
        return ("exit", d["status"])

    def sites(self, kind, *call):
        """one call; the places in the library (numbers) from which its events of a kind came"""
        self.cmd("sites", kind)
        r = self.call(*call)
        return r, self.cmd("sites", "")["sites"]

    def vfs(self, mode=M_OFF, mask=0, k=-1, sticky=0, code=0, torn=0, only=""):
        self.cmd("vfs", str(mode), str(mask), str(k), str(int(sticky)), str(code), str(int(torn)), only)


def pick_sites(rng, sites, limit):
    """positions of events to disturb: every place in the library, then random ones"""
    if len(sites) <= limit:
        return list(range(len(sites)))
    groups = {}
    for k, s in enumerate(sites):
        groups.setdefault(s, []).append(k)
    ks = [rng.choice([g[0], g[-1], rng.choice(g)]) for g in groups.values()]
    if len(ks) > limit:
        return sorted(rng.sample(ks, limit))
    rest = sorted(set(range(len(sites))) - set(ks))
    return sorted(ks + rng.sample(rest, limit - len(ks)))


class Ctx:
    """what one case sees"""
    def __init__(self, gd, work):
        self.gd, self.work = gd, work
        self.rng = None
        self.counts, self.sigs, self.samples = {}, [], []
        self.dir = None

    def begin(self, check, seed, index):
        self.rng = random.Random(f"{check}/{seed}/{index}")
        self.index = index
        self.counts, self.sigs, self.samples = {}, [], []
        self.dir = f"{self.work}/c{index}"
        if self.rng.random() < 0.08:      # names that need quoting somewhere
            self.dir += self.rng.choice([" with space", "'quote", '"dq', "%s%n%d", "?x=1", "#frag", "Ünï 表", ";semi", "new\nline", "back\\slash", "[b]*"])
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def path(self, name):
        return self.dir + "/" + name

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sig(self, *o):
        """register an observed, non-trivial situation"""
        self.sigs.append(hashlib.md5(repr(o).encode()).hexdigest()[:16])

    def sample(self, o):
        self.samples.append(o)

    def fail(self, key, msg, **detail):
        raise CheckFail(key, msg, **detail)

    def call(self, fn, *args, **kw):
        self.count("api_calls")
        self.count("api:" + fn)
        return self.gd.call(fn, *args, **kw)

    def ok(self, fn, *args, key=None):
        r = self.call(fn, *args)
        if r.rc != SUCCESS:
            self.fail(key or f"{fn}-failed", f"{fn} returned {r.rc}: {r.errors()[-2:]}")
        return r


_W = {}


def _worker_init(exe_fn, root, check, seed, tier, case_fn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    work = tempfile.mkdtemp(prefix="w", dir=root)
    _W.update(ctx=Ctx(Gd(exe_fn, work), work), check=check, seed=seed, tier=tier, fn=case_fn)


def _run_one(index):
    ctx, case_fn = _W["ctx"], _W["fn"]
    out = {"index": index}
    for attempt in (0, 1):
        ctx.begin(_W["check"], _W["seed"], index)
        try:
            case_fn(ctx, index)
            out["status"] = "ok"
        except Skip:
            out["status"] = "skip"
        except CheckFail as e:
            out.update(status="fail", key=e.key, msg=e.msg, detail=e.detail)
        except Died as e:
            out.update(status="fail", key=e.key(), msg=f"driver process died in {e.fn} (status {e.status})", detail={"report": e.report[-6000:]})
        except Hang as e:
            if attempt == 0:
                ctx.gd.stop()
                shutil.rmtree(ctx.dir, ignore_errors=True)
                continue
            out.update(status="fail", key="hang:" + str(e), msg=f"{e} did not return twice within {ctx.gd.timeout}s", detail={})
        except Exception:
            out.update(status="error", msg=traceback.format_exc()[-3000:])
        break
    out["counts"], out["sigs"], out["samples"] = ctx.counts, ctx.sigs, ctx.samples[:1]
    if out["status"] in ("fail", "error"):
        try:
            ctx.gd.stop()
        except Exception:
            pass
        keep = f"{VERIF}/replay/{_W['check']}-{_W['seed']}-{index}"
        try:
            shutil.rmtree(keep, ignore_errors=True)
            sz = sum(os.path.getsize(os.path.join(d, f)) for d, _, fs in os.walk(ctx.dir) for f in fs)
            if sz < 20e6:
                shutil.copytree(ctx.dir, keep, symlinks=True, ignore=lambda d, ns: [n for n in ns if not os.path.isfile(os.path.join(d, n)) and not os.path.isdir(os.path.join(d, n))])
        except Exception:
            pass
    shutil.rmtree(ctx.dir, ignore_errors=True)
    return out


def known_findings(check):
    known = {}
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == check:
                known[m.group(2)] = m.group(3)
    return known


def norm_key(k):
    return re.sub(r"\s+", "_", k)


class Check:
    def __init__(self, check, level="exploration", rule="", assumptions=()):
        self.check, self.level, self.rule, self.assumptions = check, level, rule, list(assumptions)
        self.t0 = time.time()
        self.counts, self.sigs, self.samples = {}, set(), []
        self.evals = self.skips = 0
        self.viol, self.errors = [], []
        self.root = None
        self.extra = {}

    def scratch(self):
        if not self.root:
            base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
            self.root = tempfile.mkdtemp(prefix=f"verif-{self.check}-", dir=base)
            atexit.register(shutil.rmtree, self.root, True)
        return self.root

    def run_cases(self, case_fn, indices, exe=None, workers=WORKERS, tag=""):
        """run case_fn(ctx, index) over the indices in parallel worker processes"""
        if exe is None:
            exe = build.gdrun()
        root = self.scratch()
        indices = list(indices)
        if SCALE != 1:      # a shorter run (used while planting bugs)
            indices = indices[:max(8, int(len(indices) * SCALE))]
        mp = multiprocessing.get_context("fork")
        with mp.Pool(min(workers, max(1, len(indices))), _worker_init, (exe, root, self.check + tag, SEED, TIER, case_fn)) as pool:
            it = pool.imap_unordered(_run_one, indices, 1)
            for n in range(len(indices)):
                self.add(it.next(timeout=600))
                if len(self.viol) >= STOP or len(self.errors) >= 20:
                    pool.terminate()
                    break

    def add(self, o):
        for k, v in o["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.sigs.update(o["sigs"])
        if len(self.samples) < 4:
            self.samples += o["samples"]
        self.evals += 1
        if o["status"] == "skip":
            self.skips += 1
        elif o["status"] == "fail":
            self.viol.append(o)
        elif o["status"] == "error":
            self.errors.append(o)

    def finish(self):
        known = known_findings(self.check)
        seen_known, new = {}, []
        for v in self.viol:
            k = norm_key(v["key"])
            if k in known:
                seen_known.setdefault(k, v)
            else:
                new.append(v)
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.sigs), "rule": self.rule, "samples": self.samples[:4],
               "observed": dict(sorted(self.counts.items())), "skipped_cases": self.skips}
        cov.update(self.extra)
        ev = {"property": self.check, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.check}.json", "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for k, v in seen_known.items():
            print(f"KNOWN-FINDING: property={self.check} {known[k]}")
        rc = 0
        if new:
            os.makedirs(VERIF + "/replay", exist_ok=True)
            bykey = {}
            for v in sorted(new, key=lambda v: v["index"] if isinstance(v["index"], int) else 0):
                bykey.setdefault(v["key"], v)
            for k, v in list(bykey.items())[:8]:
                p = f"{VERIF}/replay/{self.check}-{SEED}-{v['index']}.json"
                with open(p, "w") as f:
                    json.dump({"check": self.check, "seed": SEED, "tier": TIER, "index": v["index"], "key": v["key"], "msg": v["msg"], "detail": v["detail"]}, f, indent=1, default=repr)
                print(f"VIOLATION property={self.check} replay={p}")
                print(f"  key={norm_key(k)} count={sum(1 for x in new if x['key'] == k)} case={v['index']}: {v['msg'][:600]}")
            rc = 1
        if self.errors and not new:
            print(f"HARNESS-ERROR {self.check}: {len(self.errors)} cases; first: {self.errors[0]['msg']}")
            rc = 3
        if self.evals == 0 or (not new and len(self.sigs) == 0):
            print(f"HARNESS-ERROR {self.check}: nothing observed")
            rc = rc or 4
        print(f"{self.check} tier={TIER} seed={SEED}: {self.evals} cases, {len(self.sigs)} distinct observations, {len(new)} violations, {len(seen_known)} known, {self.skips} skipped, {time.time() - self.t0:.1f}s")
        return rc

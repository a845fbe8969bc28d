"""Histories of several clients editing, pulling and pushing; the ledger of pushed edits is the oracle."""
import os, shutil, sqlite3
import vf, dbgen
from dbgen import q
from changeset import canon, decode
from c02 import read

PKS = ["int", "int", "autoinc", "pklast", "text", "intnorowid", "worowid"]


def schema(rng):
    gpkg = rng.random() < 0.4
    opts = {"generated": False}
    if gpkg:
        tables = dbgen.gen_gpkg_schema(rng, opts)
    else:
        tables = [dbgen.gen_table(rng, n, {"generated": False, "pk": rng.choice(PKS)}) for n in dbgen.gen_names(rng, rng.choice([1, 2, 3]))]
    for t in tables:
        for c in t.cols:
            if c[3] == "uniq":
                c[3], c[4] = "text", ""
        nm = "tok"
        while nm in [c[0].lower() for c in t.cols]:
            nm += "_"
        t.cols.append([nm, "TEXT", True, "tok", ""])
        t.tok = len(t.cols) - 1
    return gpkg, tables


class Client:
    def __init__(self, n, base, work):
        self.n, self.base, self.work, self.version, self.top = n, base, work, 0, {}


class World:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.P = ctx.path
        self.gpkg, self.tables = schema(self.rng)
        self.ntok = 0
        self.trace = []
        self.kinds = set()
        self.files = 0
        s = self.P("server.db")
        c = dbgen.create_db(s, self.tables, self.gpkg)
        c.execute("BEGIN")
        for t in self.tables:
            for _ in range(self.rng.choice([0, 2, 5, 10])):
                self.insert(c, t, None)
        c.execute("COMMIT")
        c.close()
        self.server = s
        self.versions = [self.copy(s, "v0.db")]
        self.diffs = []
        self.ledger = self.content(s)
        self.keys = self.keymap(s)

    def tmp(self, suffix):
        self.files += 1
        return self.P(f"f{self.files}.{suffix}")

    def copy(self, a, name):
        shutil.copyfile(a, self.P(name))
        return self.P(name)

    # ---- edits
    def insert(self, c, t, cl):
        rng = self.rng
        row = dbgen.new_row(rng, t)
        self.ntok += 1
        row[t.tok] = f"tok{self.ntok}"
        if t.cols[t.pk[0]][3] == "int":
            # keys as an application hands them out: above all it has seen, two clients meet on the same ones
            top = c.execute(f"SELECT coalesce(max({q(t.cols[t.pk[0]][0])}), 0) FROM {q(t.name)}").fetchone()[0]
            if cl:
                top = max(top, cl.top.get(t.name, 0))
            row[t.pk[0]] = top + rng.choice([1, 1, 1, 1, 2])
            if cl:
                cl.top[t.name] = row[t.pk[0]]
        else:
            row[t.pk[0]] = f"key{self.ntok}"
        dbgen.insert(c, t, row)

    def edit(self, cl):
        rng = self.rng
        c = dbgen.connect(cl.work)
        c.execute("PRAGMA synchronous=OFF")
        c.execute("BEGIN")
        n = 0
        for t in self.tables:
            kc = q(t.cols[t.pk[0]][0])
            vals = [i for i in range(len(t.cols)) if i not in t.pk and i != t.tok]
            if cl.base != cl.work:
                b = dbgen.connect(cl.base)
                top = b.execute(f"SELECT coalesce(max({kc}), 0) FROM {q(t.name)}").fetchone()[0]
                b.close()
                if isinstance(top, int):
                    cl.top[t.name] = max(cl.top.get(t.name, 0), top)
            # the kinds of edits, and whether everyone works on the same few rows
            r0, r1 = rng.choice([(0.4, 0.55), (0.4, 0.55), (0, 0.15), (0, 0.5), (0.8, 0.9)])
            hot = rng.random() < 0.4
            for _ in range(rng.choice([0, 1, 3, 8])):
                r = rng.random()
                if r < r0:
                    self.insert(c, t, cl)
                    n += 1
                    continue
                keys = [x[0] for x in c.execute(f"SELECT {kc} FROM {q(t.name)} ORDER BY {kc}")]
                if not keys:
                    continue
                k = rng.choice(keys[:4] if hot else keys)
                if r < r1:
                    c.execute(f"DELETE FROM {q(t.name)} WHERE {kc} IS ?", (k,))
                elif vals:
                    sel = rng.sample(vals, rng.choice([1, 1, min(2, len(vals)), len(vals)]))
                    c.execute(f"UPDATE {q(t.name)} SET " + ",".join(f"{q(t.cols[i][0])}=?" for i in sel) + f" WHERE {kc} IS ?",
                              (*[dbgen.value(rng, t.cols[i][3], t.cols[i][2]) for i in sel], k))
                n += 1
        if self.gpkg and rng.random() < 0.5:
            c.execute("UPDATE gpkg_contents SET last_change=?, min_x=? WHERE table_name=?", ("2020-01-%02dT00:00:00.000Z" % rng.randint(1, 28), rng.choice([None, rng.randint(1, 99)]), rng.choice(self.tables).name))
        c.execute("COMMIT")
        c.close()
        self.ctx.count("edits", n)
        self.trace.append(f"edit{cl.n}:{n}")

    # ---- observation
    def content(self, p):
        """{table: {identity: values without the key}}"""
        toks = {t.name: t.tok for t in self.tables}
        out = {}
        for t, d in dbgen.dump(p).items():
            if "rows" not in d:
                out[t] = d["list"]
                continue
            rows = {}
            for k, r in d["rows"].items():
                ident = r[toks[t]] if t in toks else k
                if ident in rows:
                    self.ctx.fail("doubled", f"{t}: row {ident} is there twice; history {self.trace}")
                rows[ident] = tuple(canon(v) for v, pk in zip(r, d["pk"]) if not pk)
            out[t] = rows
        return out

    def keymap(self, p):
        toks = {t.name: t.tok for t in self.tables}
        return {(t, r[toks[t]]): k for t, d in dbgen.dump(p).items() if t in toks for k, r in d["rows"].items()}

    def push_ledger(self, base, work, L):
        """what the edits of one client do to the pushed state"""
        for t in work:
            if not isinstance(work[t], dict):
                continue
            for k in base[t].keys() - work[t].keys():
                if L[t].pop(k, None) is not None:
                    self.kinds.add("deleted")
                else:
                    self.kinds.add("both deleted")
            for k in work[t].keys() - base[t].keys():
                L[t][k] = work[t][k]
                self.kinds.add("inserted")
            for k in work[t].keys() & base[t].keys():
                ch = {i: v for i, (u, v) in enumerate(zip(base[t][k], work[t][k])) if u != v}
                if ch and k in L[t]:
                    if any(L[t][k][i] != base[t][k][i] for i in ch):
                        self.kinds.add("same column")
                    elif L[t][k] != base[t][k]:
                        self.kinds.add("same row")
                    L[t][k] = tuple(ch.get(i, v) for i, v in enumerate(L[t][k]))
                elif ch:
                    self.kinds.add("updated a deleted row")

    def same(self, got, want, what):
        if got == want:
            return
        out = []
        for t in want:
            a, b = got.get(t), want[t]
            if a != b:
                if isinstance(b, dict) and isinstance(a, dict):
                    out.append(f"{t}: missing {sorted(map(str, b.keys() - a.keys()))[:4]} unexpected {sorted(map(str, a.keys() - b.keys()))[:4]} different {[(k, a[k], b[k]) for k in a.keys() & b.keys() if a[k] != b[k]][:2]}")
                else:
                    out.append(t)
        self.ctx.fail("state", f"{what}: {out}"[:1500] + f"; history {self.trace}")

    # ---- synchronisation
    def pull_diff(self, cl):
        """the server's changes since the version the client has"""
        ds = self.diffs[cl.version:]
        if len(ds) == 1 and self.rng.random() < 0.6:
            return ds[0]
        p = self.tmp("diff")
        self.ctx.ok("createChangeset", self.versions[cl.version], self.server, p)
        return p

    def fresh_taken(self, base, work, server):
        """rebase would pick a fresh key that base has already (known finding of C04): the client has to take its edits back"""
        b, w, s = dbgen.dump(base), dbgen.dump(work), dbgen.dump(server)
        for t in self.tables:
            k, m, th = ({x[0][1] for x in d[t.name]["rows"] if x[0][0] == "i"} for d in (b, w, s))
            new = th - k
            if new & (m - k) and any(x > max(new) for x in k):
                self.ctx.count("edits taken back: fresh key taken")
                return True
        return False

    def sync(self, cl):
        ctx, rng = self.ctx, self.rng
        way = rng.choice(["rebase", "rebaseEx", "changeset", "changeset", "stepwise", "stepwise", "discard"] if rng.random() < 0.9 else ["discard"])
        base, before = self.content(cl.base), self.content(cl.work)
        conf = self.tmp("conflict")
        if way not in ("discard", "stepwise") and self.fresh_taken(cl.base, cl.work, self.server):
            way = "forced"
        if way == "discard" and rng.random() < 0.7:
            way = "rebase"
        if way in ("discard", "forced"):
            # the client gives its edits up: the inverse takes them back
            d, i = self.tmp("diff"), self.tmp("diff")
            ctx.ok("createChangeset", cl.base, cl.work, d)
            ctx.ok("invertChangeset", d, i)
            ctx.ok("applyChangeset", cl.work, i)
            self.same(self.content(cl.work), base, "taken back edits")
            before = base
            for d in self.diffs[cl.version:]:
                ctx.ok("applyChangeset", cl.work, d)
        elif way == "rebase":
            ctx.ok("rebase", cl.base, self.server, cl.work, conf)
        elif way == "rebaseEx":
            ctx.ok("rebaseEx", "sqlite", "", cl.base, cl.work, self.pull_diff(cl), conf)
        elif way == "stepwise":
            # one version after the other
            # (a value that equals one of a version on the way is no edit any more after that version)
            now = before
            for v in range(cl.version, len(self.diffs)):
                if before is not base and self.fresh_taken(self.versions[v], cl.work, self.versions[v + 1]):
                    d, i = self.tmp("diff"), self.tmp("diff")
                    ctx.ok("createChangeset", self.versions[v], cl.work, d)
                    ctx.ok("invertChangeset", d, i)
                    ctx.ok("applyChangeset", cl.work, i)
                    before = base
                    now = self.content(self.versions[v])
                ctx.ok("rebaseEx", "sqlite", "", self.versions[v], cl.work, self.diffs[v], self.tmp("conflict"))
                nxt = self.content(self.versions[v + 1])
                self.push_ledger(self.content(self.versions[v]), now, nxt)
                now = nxt
            if len(self.diffs) - cl.version > 1:
                self.kinds.add("pull of several versions")
        else:
            d = self.pull_diff(cl)
            out, new = self.tmp("diff"), self.tmp("db")
            ctx.ok("createRebasedChangeset", cl.base, cl.work, d, out, conf)
            shutil.copyfile(cl.base, new)
            ctx.ok("applyChangeset", new, d)
            self.same(self.content(new), self.content(self.server), "pulled")
            ctx.ok("applyChangeset", new, out)
            os.replace(new, cl.work)
        if way == "stepwise":
            self.ledger = now
        else:
            self.push_ledger(base, before, self.ledger)
        self.same(self.content(cl.work), self.ledger, f"client {cl.n} after {way}")
        # push
        d = self.tmp("diff")
        ctx.ok("createChangeset", self.server, cl.work, d)
        self.trace.append(f"{way}{cl.n}@{cl.version}:{len(decode(read(d)))}")
        if read(d):
            ctx.ok("applyChangeset", self.server, d)
            self.diffs.append(d)
            self.versions.append(self.copy(self.server, f"v{len(self.diffs)}.db"))
        if dbgen.norm(dbgen.dump(self.server)) != dbgen.norm(dbgen.dump(cl.work)):
            ctx.fail("push", f"client and server differ after the push: {dbgen.diffdesc(dbgen.dump(cl.work), dbgen.dump(self.server))}; history {self.trace}")
        self.same(self.content(self.server), self.ledger, "server")
        k = self.keymap(self.server)
        for ident in k.keys() & self.keys.keys():
            if k[ident] != self.keys[ident]:
                ctx.fail("key-changed", f"row {ident} had key {self.keys[ident]} on the server, now {k[ident]}; history {self.trace}")
        self.keys.update(k)
        cl.version = len(self.diffs)
        shutil.copyfile(self.server, cl.base)
        ctx.count("syncs")
        ctx.count("syncs:" + way)


def case(ctx, i):
    rng = ctx.rng
    w = World(ctx)
    n = rng.choice([1, 2, 2, 3, 4])
    cl = [Client(j, w.copy(w.server, f"base{j}.db"), w.copy(w.server, f"work{j}.db")) for j in range(n)]
    for _ in range(rng.choice([4, 8, 14])):
        c = rng.choice(cl)
        if rng.random() < 0.6:
            w.edit(c)
        else:
            w.sync(c)
    # the edits stop: two rounds bring all to the same state
    for _ in range(2):
        for c in rng.sample(cl, n):
            w.sync(c)
    want = dbgen.norm(dbgen.dump(w.server))
    for c in cl:
        if dbgen.norm(dbgen.dump(c.work)) != want:
            ctx.fail("diverged", f"client {c.n} differs from the server in the end; history {w.trace}")
    # the whole history replayed on the first version, and taken back
    a = w.copy(w.versions[0], "replay.db")
    for d in w.diffs:
        ctx.ok("applyChangeset", a, d)
    if dbgen.norm(dbgen.dump(a)) != want:
        ctx.fail("replay", f"the history replayed gives another state: {dbgen.diffdesc(dbgen.dump(w.server), dbgen.dump(a))}; history {w.trace}")
    for d in reversed(w.diffs):
        inv = w.tmp("diff")
        ctx.ok("invertChangeset", d, inv)
        ctx.ok("applyChangeset", a, inv)
    if dbgen.norm(dbgen.dump(a)) != dbgen.norm(dbgen.dump(w.versions[0])):
        ctx.fail("replay", f"the inverses of the history do not lead back; history {w.trace}")
    ctx.count("versions", len(w.diffs))
    ctx.sig("history", sorted(w.kinds), w.trace)
    for k in w.kinds:
        ctx.count("met:" + k)
    ctx.sample({"clients": n, "history": w.trace[:12]})


def main(only=None):
    c = vf.Check("C28", rule="histories of 1-4 clients editing, pulling (rebase, rebaseEx, rebased changeset, one version after the other), taking edits back and pushing; a ledger of pushed edits by row token is compared with server and client after each sync. Non-trivial: distinct histories",
                 assumptions=["applications hand out integer keys above all keys they have seen", "no unique constraints besides the key (see C01 known finding)"])
    c.run_cases(case, only or range(900 if vf.TIER == "quick" else 6000))
    return c.finish()

"""C35: the cross-rank reports of MPI programs aggregate what every rank did."""
import json, os, random, shutil, subprocess, tempfile
from vf import build
from vf.engine import Fail, Invalid
from vf.driver import Crash, Inconclusive, san_tail
from checks.c19 import MPIENV
from checks.c33 import table, tree_paths, near
from checks import c34

OPTS = ["time.exclusive", "region.count", "region.stats", "profile.mpi", "mpi.message.count", "mpi.message.size", "comm.stats", "order_by_time"]
RBASE = ["MPI_Comm_rank", "MPI_Comm_size", "MPI_Wtick", "MPI_Wtime"]
COMM = ["Sends (min)", "Sends (max)", "Sends (total)", "Recvs (min)", "Recvs (max)", "Recvs (total)", "Dst ranks (min)", "Dst ranks (max)", "Dst ranks (avg)", "Src ranks (min)", "Src ranks (max)", "Src ranks (avg)",
        "Coll (max)", "Bytes sent (min)", "Bytes sent (max)", "Bytes sent (total)", "Bytes recv (min)", "Bytes recv (max)", "Bytes recv (total)"]
GAP = ["Irecv gap (min)", "Irecv gap (avg)", "Irecv gap (max)"]
avg = lambda l: sum(l) / len(l)
iavg = lambda l: (sum(l) // len(l), sum(l) / len(l))   # averages of integers may be truncated

def gen_tree(r, depth):
    return [[r.choice(["foo", "bar", "init", "solve", "a b", "main", "MPI_X"]), r.choice([0, 0, 20, 100, 400]), r.choice([1, 1, 1, 2, 5]), gen_tree(r, depth - 1)] for _ in range(r.choice([0, 1, 1, 2, 3] if depth else [0]))]

def gen_mgr(r, k, when):
    if r.random() < 0.2: return {"name": "M%d" % k, "when": when, "conf": "mpi-report", "opts": [], "inc": [], "exc": []}
    o = [x for x in OPTS if r.random() < 0.35]
    fns = r.sample(c34.ALL, 3) + ["MPI_Allreduce", "MPI_Send", "MPI_Recv", "MPI_Barrier", "MPI_Irecv", "MPI_Waitall"]
    msgs = "mpi.message.count" in o or "mpi.message.size" in o or "comm.stats" in o
    return {"name": "M%d" % k, "when": when, "conf": "runtime-report", "opts": o, "inc": r.sample(fns, 3) if not msgs and r.random() < 0.25 else [], "exc": [x for x in r.sample(fns, 2) if not msgs or x not in c34.REQ] if r.random() < 0.25 else []}

# ---- queries of mpireport channels. Operands and keys are disjoint; all values are integers or scaled by powers of two, so that sums are exact in any order
NUM = ["step", "mpi.msg.size", "mpi.msg.tag", "mpi.msg.dst", "mpi.msg.src"]
KEYS = ["region", "path", "path", "mpi.function", "mpi.rank", "mpi.rank", "comm.region", "mpi.coll.type", "event.end#region"]
def gen_where(r, num, keys):
    def one():
        k = r.random()
        if k < 0.5: return r.choice(["", "not "]) + r.choice(keys + num)
        if k < 0.8: return "%s%s%s%d" % (r.choice(["", "not "]), r.choice(num + ["mpi.rank"]), r.choice("=<>"), r.choice([0, 1, 2, 3, 4, 16, 100]))
        return "%s%s=%s" % (r.choice(["", "not "]), r.choice(["region", "mpi.function", "comm.region"]), r.choice(["foo", "main", "MPI_Send", "MPI_Barrier", "halo"]))
    return " WHERE " + ",".join(one() for _ in range(r.choice([1, 1, 2])))
def numtype(x): return "uint" if x.endswith("count") else "double" if x.endswith("x") else "int"
def gen_let(r, name, num):
    a = r.choice(num)
    b = r.choice([x for x in num if numtype(x) == numtype(a)])
    f = r.choice(["scale(%s,%s)" % (a, r.choice(["2", "0.5", "-4", "16"])), "scale(%s,%s)" % (a, r.choice(["2", "8"])), "truncate(%s,%d)" % (a, r.choice([1, 2, 4, 8])), "first(%s,%s)" % (a, b), "sum(%s,%s)" % (a, b)])
    return " LET %s=%s" % (name, f) + (" IF " + r.choice(num + ["region", "mpi.function", "not region"]) if r.random() < 0.25 else "")
def gen_ops(r, num, kinds):
    l = []
    for _ in range(r.choice([1, 2, 2, 3, 4])):
        o = r.choice(kinds)
        x = "count()" if o == "count" else "%s(%s,4)" % (o, r.choice(num)) if o == "scale" else "%s(%s)" % (o, r.choice(num))
        if x not in l: l.append(x)
    return l
def opres(o):
    f, a = o[:-1].split("(")
    return "count" if f == "count" else "%s#%s" % ({"percent_total": "percent_total", "inclusive_sum": "inclusive", "scale": "scale"}.get(f, f), a.split(",")[0])
def gen_srv(r, k):
    num, keys = list(NUM), sorted(set(KEYS) - {"path"})
    agg = r.random() < 0.4
    q = ""
    if r.random() < 0.5: q += gen_let(r, "lx", num); num = num + ["lx", "lx"]
    lk = sorted(set(r.sample(KEYS, r.choice([1, 2, 3]))))
    lo = gen_ops(r, num, ["sum", "sum", "min", "max", "count"] if not agg else ["count", "count", "sum", "min"])
    if r.random() < 0.4: q += gen_where(r, num, keys)
    cnum = [opres(o) for o in lo]
    q = "AGGREGATE " + ",".join(lo) + " GROUP BY " + ",".join(lk) + q
    c = ""
    if r.random() < 0.6: c += gen_let(r, "cx", cnum); cnum = cnum + ["cx", "cx"]
    ck = [x for x in lk if r.random() < 0.7 and x != "mpi.rank"] or [lk[0]]
    co = gen_ops(r, cnum, ["sum", "sum", "min", "max", "avg", "count", "percent_total", "inclusive_sum", "scale", "variance"])
    if r.random() < 0.35: c += gen_where(r, cnum, [x for x in lk if x != "path"] or ["region"])
    if r.random() < 0.3: c = " ORDER BY " + r.choice(ck + cnum).replace("path", "region") + r.choice(["", " desc"]) + c
    if r.random() < 0.6: c = "SELECT %s" % ",".join([x for x in ck] + [o + (" AS n%d" % i if r.random() < 0.3 else "") for i, o in enumerate(co)]) + " GROUP BY " + ",".join(ck) + c
    else: c = "AGGREGATE " + ",".join(co) + " GROUP BY " + ",".join(ck) + c
    same = r.random() < 0.15     # without a local query, the cross query is used for both
    return {"name": "S%d" % k, "when": r.choice(["pre", "post", "post"]), "agg": agg, "msgs": r.choice([True, True, False]), "fns": r.sample(c34.ALL, 4) + ["MPI_Send", "MPI_Recv", "MPI_Isend", "MPI_Waitall", "MPI_Barrier", "MPI_Allreduce"],
            "akey": r.choice(["", "", "path,mpi.rank", "region,mpi.function"]), "local": "" if same else q, "cross": (q if same else c) + " FORMAT " + r.choice(["expand", "expand", "json", "table", "tree", "json(records)"])}

class Node:
    def __init__(self): self.n = 0; self.ilo = self.ihi = self.lo = self.hi = 0.0; self.v = []; self.S = []; self.R = []; self.K = []; self.T = []; self.amb = False

class C35(c34.C34):
    id = "C35"
    rule = ("generated MPI programs for 1-4 ranks (communication as in C34, plus region trees with busy waiting that differ between the ranks) measured with one to three runtime-report / mpi-report configurations with random options, started before or "
            "after MPI_Init, flushed over MPI_COMM_WORLD or through an MpiChannelManager on the program's own (split, duplicated) communicators; rows, visit counts, message counts and sizes, comm-region statistics and the clock bounds of the times "
            "of every rank are computed from the interpreter's log, aggregated, and compared with each report; or with one to three mpireport channels with random local and cross queries (LET, WHERE, aggregation, ORDER BY, six output forms) over event and message "
            "traces or on-line aggregates, whose report at MPI_Finalize is compared with the queries applied to the ranks' recorder files; non-trivial: a report with at least 3 rows over at least 2 ranks")
    assumptions = ["averages of message sizes are only bounded (they average over groups of messages)", "each report is flushed once, outside of regions", "the operands of first() and sum() in a LET of a cross-rank query have the same type (the type of the result follows the first record of each rank)"]
    quick, thorough = 120, 5000
    quick_wall = 400
    jobs = 4

    def gen(self, r, i, tier):
        n = r.choice([1, 2, 2, 3, 3, 4])
        ph = []
        for _ in range(r.choice([1, 2, 3, 4])):
            steps = []
            for _ in range(r.choice([1, 2, 3, 5])):
                st = c34.gen_step(r, n); st["off"] = False
                if st["k"] in ("pers", "cancel", "free") or r.random() < 0.4:
                    st = {"k": "work", "reg": [r.choice(["main", "foo"])] if r.random() < 0.3 else [], "comm": 0, "off": False, "trees": [gen_tree(r, r.choice([1, 2, 3])) for _ in range(r.choice([1, n, n]))]}
                steps.append(st)
            ph.append({"cr": r.choice([None, None, None, "halo", "x y", "coll"]), "steps": steps})
        mgrs = []
        for k in range(r.choice([1, 1, 2, 3])):
            when = r.choice(["pre", "post", "post", "comm"])
            mgrs.append(gen_mgr(r, k, when))
            if when == "comm":
                st = {"k": "mcm", "name": "M%d" % k, "comm": r.choice([0, r.randrange(12)]), "reg": [], "off": False}
                p = r.choice(ph); at = r.randrange(len(p["steps"]) + 1)
                p["cr"] = None; p["steps"].insert(at, st)
        case = {"n": n, "init": r.choice(["init", "init", "thread"]), "chans": [], "mgrs": mgrs, "types": [], "phases": ph, "srv": []}
        if r.random() < 0.4:      # channels of their own: an MPI call that one channel records as a region is visible in all
            case["mgrs"] = []
            for p in ph: p["steps"] = [st for st in p["steps"] if st["k"] != "mcm"]
            for k in range(r.choice([1, 2, 3])): case["srv"].append(gen_srv(r, k))
        return case

    def srv_line(self, s):
        kv = {"CALI_SERVICES_ENABLE": "event,mpi,mpireport,recorder," + ("aggregate" if s["agg"] else "trace"), "CALI_RECORDER_FILENAME": s["name"] + "-%mpi.rank%.cali", "CALI_CHANNEL_FLUSH_ON_EXIT": "false", "CALI_MPIREPORT_FILENAME": s["name"] + ".out",
              "CALI_MPIREPORT_WRITE_ON_FINALIZE": "true", "CALI_MPIREPORT_CONFIG": s["cross"], "CALI_MPI_WHITELIST": ",".join(s["fns"]), "CALI_MPI_MSG_TRACING": "true" if s["msgs"] else "false"}
        if s["local"]: kv["CALI_MPIREPORT_LOCAL_CONFIG"] = s["local"]
        if s["agg"] and s["akey"]: kv["CALI_AGGREGATE_KEY"] = s["akey"]
        return "%s %s %s\n" % (s["when"], s["name"], " ".join("%s=%s" % x for x in ((a, b.replace(" ", "\1")) for a, b in kv.items())))

    def srv_check(self, ctx, d, n, s):
        """the report must be the cross query applied to each rank's result of the local query"""
        drv = ctx.drv()
        def q(query, *t):
            o = drv.req("query", query, "", str(len(t)), *t)
            if o[0] != "ok": raise Invalid("query rejected: " + query)
            if o[2]: raise Fail("reader: recorder output of an MPI program is not readable: %s" % o[2])
            return o[1]
        loc, nrec = [], 0
        for k in range(n):
            f = os.path.join(d, "%s-%d.cali" % (s["name"], k))
            t = open(f, errors="surrogateescape").read() if os.path.exists(f) else ""
            nrec += t.count("__rec=ctx")
            loc.append(q((s["local"] or s["cross"].split(" FORMAT ")[0]) + " FORMAT cali", t))
        want = q(s["cross"], *loc)
        f = os.path.join(d, s["name"] + ".out")
        if not os.path.exists(f) and nrec: raise Fail("mpireport: no report was written by %s" % s)
        got = open(f, errors="surrogateescape").read() if os.path.exists(f) else ""
        fmt = s["cross"].split(" FORMAT ")[1]
        if got != want:
            if fmt.startswith("json"):
                canon = lambda t: sorted(repr(sorted(x.items())) for x in json.loads(t or "[]"))
            elif fmt == "expand": canon = lambda t: sorted(repr(sorted(l.split(","))) for l in t.split("\n") if l.strip())
            else: canon = lambda t: sorted(" ".join(sorted(l.split())) for l in t.split("\n") if l.strip())
            if canon(got) != canon(want): raise Fail("mpireport: local query %r, cross query %r: the report is\n%s\nthe queries applied to the recorded data give\n%s" % (s["local"], s["cross"], got[:1500], want[:1500]))
        return len([l for l in want.split("\n") if l.strip()])

    def extra_step(self, st, P, inst, ci):
        if st["k"] == "work":
            for q in range(len(P)):
                def walk(t):
                    for name, us, rep, kids in t:
                        for _ in range(max(1, min(rep, 10))):
                            P[q].append("rb " + name.replace(" ", "_"))
                            if us: P[q].append("spin %d" % min(us, 1000))
                            walk(kids)
                            P[q].append("re " + name.replace(" ", "_"))
                walk(st["trees"][q % len(st["trees"])])
        elif st["k"] == "mcm":
            m = [x for x in self._mgrs if x["name"] == st["name"] and x["when"] == "comm"]
            if not m or any(x.split()[:2] == ["mcm", st["name"]] for x in P[0] + P[-1]): raise Invalid("mcm")
            for ins in inst:
                for q in ins: P[q].append("mcm %s %d %s" % (st["name"], ci, self.config(m[0], ins[0])))
        else: raise Invalid("kind")

    def config(self, m, k):
        o = ["output=%s-%d.txt" % (m["name"], k)]
        if m["conf"] == "runtime-report": o += ["max_column_width=400"] + m["opts"] + (["mpi.include=\"%s\"" % ",".join(m["inc"])] if m["inc"] else []) + (["mpi.exclude=\"%s\"" % ",".join(m["exc"])] if m["exc"] else [])
        return "%s(%s)" % (m["conf"], ",".join(o))

    def wraps(self, m):
        if m["conf"] == "mpi-report": return set(ALLF) - {"MPI_Comm_size", "MPI_Comm_rank", "MPI_Wtime"}
        black = set(m["exc"])     # the last option's list counts
        if not black:
            for o in m["opts"]:
                if o == "profile.mpi": black = set(RBASE)
                elif o in ("mpi.message.count", "mpi.message.size", "comm.stats"): black = {"MPI_Wtime", "MPI_Comm_rank", "MPI_Comm_size"}
        if m["inc"]: return set(m["inc"]) - black
        return set(ALLF) - black if black else set()

    def run(self, ctx, case):
        n = case["n"]; self._mgrs = case["mgrs"]
        names = [m["name"] for m in case["mgrs"]]
        srv = case.get("srv", [])
        names += [s["name"] for s in srv]
        if not names or len(set(names)) != len(names) or srv and case["mgrs"]: raise Invalid("managers")
        if any(s["when"] not in ("pre", "post") or not s["fns"] or not s["cross"] for s in srv): raise Invalid("channel")
        for m in case["mgrs"]:
            if m["conf"] not in ("mpi-report", "runtime-report") or m["when"] not in ("pre", "post", "comm") or any(x not in OPTS for x in m["opts"]): raise Invalid("config")
        P, msgs, C, tsz = self.compile(case)
        where = {}     # manager -> list of rank lists
        for m in case["mgrs"]:
            if m["when"] == "comm":
                ops = [[x for x in p if x.split()[:2] == ["mcm", m["name"]]] for p in P]
                ci = [int(x[0].split()[2]) for x in ops if x]
                if not ci: continue
                if not C[ci[0]]["alive"]: raise Invalid("freed communicator")
                where[m["name"]] = C[ci[0]]["inst"]
                for ins in C[ci[0]]["inst"]:
                    for q in ins: P[q].append("mcmflush " + m["name"])
            else:
                where[m["name"]] = [list(range(n))]
                for p in P: p.append("mflush " + m["name"])
        d = tempfile.mkdtemp(prefix="vfmpi")
        try:
            open(os.path.join(d, "chans"), "w").write("".join("m%s %s %s\n" % (m["when"], m["name"], self.config(m, 0)) for m in case["mgrs"] if m["when"] != "comm") + "".join(self.srv_line(s) for s in srv))
            for q in range(n): open(os.path.join(d, "prog.%d" % q), "w").write("".join(x + "\n" for x in P[q]))
            self.mpirun(d, n, case["init"])
            tags, nt = set(), False
            logs = []
            for q in range(n):
                log = [l.split() for l in open(os.path.join(d, "log.%d" % q)).read().split("\n") if l]
                if not log or log[-1] != ["END"]: raise Crash("rank %d did not finish its program" % q)
                logs.append(log[:-1])
            for m in case["mgrs"]:
                for ins in where.get(m["name"], []):
                    f = os.path.join(d, "%s-%d.txt" % (m["name"], ins[0] if m["when"] == "comm" else 0))
                    text = open(f, errors="replace").read() if os.path.exists(f) else ""
                    data = {q: self.data(case, m, q, P[q], logs[q], msgs, C, tsz) for q in ins}
                    what = "%s over ranks %s" % (self.config(m, 0), ins)
                    k = self.report(m, data, text, what) if m["conf"] == "runtime-report" else self.mpireport(m, data, text, what)
                    nt = nt or k >= 3 and len(ins) > 1
                    tags |= {m["conf"], m["when"], "ranks:%d" % len(ins)} | set(m["opts"])
            for s in srv:
                k = self.srv_check(ctx, d, n, s)
                nt = nt or k >= 3 and n > 1
                tags |= {"mpireport:" + ("aggregate" if s["agg"] else "trace"), "format:" + s["cross"].split(" FORMAT ")[1]} | ({"rows"} if k else {"no rows"})
            left = [f for f in os.listdir(d) if f.endswith(".txt") and not any(f.startswith(m["name"] + "-") for m in case["mgrs"])]
            if left: raise Fail("files: unexpected output files %s" % left)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return dict(tags=sorted(tags), nontrivial=nt, show=dict(program=P[0][:12], configs=[self.config(m, 0) for m in case["mgrs"]]))

    def mpirun(self, d, n, init):
        env = {k: v for k, v in os.environ.items() if not k.startswith("CALI")}
        env.update(MPIENV); env["CALI_LOG_VERBOSITY"] = "0"; env["OMPI_MCA_btl"] = "self,vader"; env["TMPDIR"] = d
        try:
            p = subprocess.run(["timeout", "-k", "5", "90", "mpirun", "--oversubscribe", "-n", str(n), build.tool("vmpi"), "prog", "log", "chans", init], cwd=d, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
        except subprocess.TimeoutExpired: raise Inconclusive("mpirun timeout")
        err = p.stderr.decode(errors="replace")
        if p.returncode in (124, 137): raise Inconclusive("mpirun timeout")
        if "vmpi: bad op" in err: raise Invalid("op")
        if p.returncode:
            if not any(os.path.exists(os.path.join(d, "log.%d" % q)) for q in range(n)): raise Inconclusive("mpirun failed: " + err[-500:])
            raise Crash("MPI program failed: " + (san_tail(err) or err[-1500:]))

    # ---- what rank q did while the channel of manager m was active: {path: Node}
    def data(self, case, m, q, prog, log, msgs, C, tsz):
        T, by = {}, {}
        for l in log:
            if l[0] == "T": T[int(l[1])] = (int(l[2]), int(l[3]))
            else: by.setdefault(int(l[1]), []).append((l[0], l[2]))
        init = "MPI_Init_thread" if case["init"] == "thread" else "MPI_Init"
        wrapped = set(); on = self.wraps(m)
        for x in case["mgrs"]:
            if x["when"] == "pre": wrapped |= self.wraps(x)
        N = {}; path = []; st = dict(active=False, prev=None, tot=None, dst=set(), src=set(), amb=False)
        opened = []
        func = {}; self._f = func   # mpi function time, for mpi-report
        mpi = m["conf"] == "mpi-report"
        def snap(t):    # account for the time since the last snapshot
            if not st["active"]: return
            p0 = st["prev"]; st["prev"] = t
            if path:
                x = N.setdefault(tuple(path), Node())
                x.lo += max(0, t[0] - p0[1]) * 1e-9; x.hi += max(0, t[1] - p0[0]) * 1e-9
        def begin(name, t, fn=False):
            if not mpi or fn: snap(t)
            path.append(name); opened.append((st["active"], t))
        def end(t, fn=False):
            if not mpi or fn: snap(t)
            act, t0 = opened.pop()
            if st["active"] and (fn or not mpi):
                x = N.setdefault(tuple(path) if not mpi else ("/".join(path), path[-1]), Node()); x.n += 1
                lo, hi = max(0, t[0] - t0[1]) * 1e-9, max(0, t[1] - t0[0]) * 1e-9
                x.ilo += lo; x.ihi += hi; x.v.append((lo, hi))
            path.pop()
        if m["when"] == "pre": st.update(active=True, prev=T[-1])
        if init in wrapped: begin(init, T[-1], True); end(T[-1], True)
        for x in case["mgrs"]:
            if x["when"] == "post": wrapped |= self.wraps(x)
        if m["when"] == "post": st.update(active=True, prev=(T[-1][1], T[0][0] if 0 in T else T[-1][1]))
        for oi, line in enumerate(prog):
            t = line.split(); o = t[0]; tm = T[oi]
            if o == "rb": begin(t[1], tm)
            elif o in ("re", "ce"):
                if o == "ce" and st["active"] and "comm.stats" in m["opts"]:
                    N.setdefault(tuple(path), Node()).T.append(tuple(st["tot"]) + (len(st["dst"]), len(st["src"])))
                end(tm)
            elif o == "cb": begin(t[1], tm); st.update(tot=[0] * 5, dst=set(), src=set())
            elif o == "mcm":
                for x in case["mgrs"]:
                    if x["name"] == t[1]: wrapped |= self.wraps(x)
                if t[1] == m["name"]: st.update(active=True, prev=tm)
            elif o in ("mflush", "mcmflush"): break
            cur = None
            def close():
                nonlocal cur
                if cur and cur in wrapped: end(tm, True)
                cur = None
            for kind, v in by.get(oi, []):
                if kind == "C":
                    close(); cur = v
                    if cur in wrapped: begin(cur, tm, True)
                    if o == "coll" and cur[4:] == t[1] and t[1] in c34.COLL and cur in on and st["active"]:
                        x = self.coll(t, C, q, tsz)
                        nd = N.setdefault(tuple(path), Node())
                        if isinstance(x[1], tuple): nd.amb = True
                        nd.K.append(x[1] if not isinstance(x[1], tuple) else x[1][0])
                        if st["tot"]: st["tot"][2] += 1
                elif cur in on and st["active"]:
                    mm = msgs[int(v)]
                    nd = N.setdefault(tuple(path), Node())
                    (nd.S if kind == "S" else nd.R).append(mm["bytes"])
                    if st["tot"]:
                        k = 0 if kind == "S" else 1
                        st["tot"][k] += 1; st["tot"][4 - k] += mm["bytes"]   # tot: sends, recvs, colls, recv bytes, send bytes
                        st["dst" if kind == "S" else "src"].add(mm["dst" if kind == "S" else "src"])
            close()
        return {p: x for p, x in N.items() if x.n}

    def cells(self, got, exp, what):
        """exp: {column: value or (lo, hi) or None}"""
        for c, v in exp.items():
            g = got.get(c, "")
            if v is None:
                if g != "": raise Fail("value: %s of %s is %r, expected none" % (c, what, g))
                continue
            if g == "": raise Fail("value: %s of %s is empty, expected %s" % (c, what, v))
            try: x = float(g)
            except ValueError: raise Fail("value: %s of %s is %r, expected %s" % (c, what, g, v))
            lo, hi = v if isinstance(v, tuple) else (v, v)
            if not lo - 1.5e-6 - 1e-5 * abs(lo) <= x <= hi + 1.5e-6 + 1e-5 * abs(hi): raise Fail("value: %s of %s is %s, expected %s" % (c, what, g, v))

    def report(self, m, data, text, what):
        on = lambda x: x in m["opts"]
        paths = sorted(set(p for D in data.values() for p in D))
        lines = text.split("\n")
        if not paths:
            if any(l.strip() for l in lines if not l.startswith("Path")): raise Fail("rows: %s: no region was executed, but the report shows %r" % (what, text[:300]))
            return 0
        tot = (sum(x.lo for D in data.values() for x in D.values()), sum(x.hi for D in data.values() for x in D.values()))
        # inclusive times over descendants
        exp = {}; gaps = False
        for p in paths:
            L = [D[p] for D in data.values() if p in D]
            e = exp[p] = {}
            f3 = lambda g: [(f([g(x)[0] for x in L]), f([g(x)[1] for x in L])) for f in (min, avg, max)]
            inc = lambda x: (x.ilo, x.ihi)
            e["Min time/rank"], e["Avg time/rank"], e["Max time/rank"] = f3(inc)
            e["Time %"] = (100 * sum(x.ilo for x in L) / max(tot[1], 1e-12) - 0.01, 100 * sum(x.ihi for x in L) / max(tot[0], 1e-12) + 0.01)
            if on("time.exclusive"):
                e["Min time/rank (E)"], e["Avg time/rank (E)"], e["Max time/rank (E)"] = f3(lambda x: (x.lo, x.hi))
                e["Time % (E)"] = (100 * sum(x.lo for x in L) / max(tot[1], 1e-12) - 0.01, 100 * sum(x.hi for x in L) / max(tot[0], 1e-12) + 0.01)
            ns = [x.n for x in L]
            if on("region.count"): e.update({"Calls/rank (min)": min(ns), "Calls/rank (avg)": iavg(ns), "Calls/rank (max)": max(ns), "Calls (total)": sum(ns)})
            if on("region.stats"):
                V = [v for x in L for v in x.v]
                b = lambda f, vs: (f([a for a, _ in vs]) * 1e9, f([c for _, c in vs]) * 1e9)
                e["Visits"] = sum(ns); e["Nsec/visit (min)"] = b(min, V); e["Nsec/visit (max)"] = b(max, V)
                e["Nsec/visit (avg)"] = (avg([b(avg, x.v)[0] for x in L]), avg([b(avg, x.v)[1] for x in L]))
            if on("mpi.message.count"):
                s, r, k = [len(x.S) for x in L if x.S], [len(x.R) for x in L if x.R], [len(x.K) for x in L if x.K]
                e.update({"Msgs sent (avg)": iavg(s) if s else None, "Msgs sent (max)": max(s) if s else None, "Msgs recvd (avg)": iavg(r) if r else None, "Msgs recvd (max)": max(r) if r else None, "Collectives (max)": max(k) if k else None})
            if on("mpi.message.size"):
                z = [b for x in L for b in x.S + x.R + [k for k in x.K if k is not None]]
                lo, hi = (min(z), max(z)) if z else (None, None)
                e["Msg size (min)"], e["Msg size (avg)"], e["Msg size (max)"] = (lo, (lo, hi), hi) if z else (None, None, None)
                if any(x.amb for x in L): e["Msg size (min)"] = (0, hi); e["Msg size (avg)"] = e["Msg size (max)"] = (0, hi * 16 + 16)
            if on("comm.stats"):
                Z = [x.T for x in L if x.T]
                f = lambda g, k: g([t[k] for T in Z for t in T])
                a2 = lambda k: (avg([iavg([t[k] for t in T])[0] for T in Z]) // 1, avg([avg([t[k] for t in T]) for T in Z]))
                names = [("Sends", 0), ("Recvs", 1), ("Bytes sent", 4), ("Bytes recv", 3)]
                for c in COMM: e[c] = None
                if Z:
                    for c, k in names: e[c + " (min)"], e[c + " (max)"], e[c + " (total)"] = f(min, k), f(max, k), f(sum, k)
                    for c, k in (("Dst ranks", 5), ("Src ranks", 6)): e[c + " (min)"], e[c + " (max)"], e[c + " (avg)"] = f(min, k), f(max, k), a2(k)
                    e["Coll (max)"] = f(max, 2)
        cols = [c for c in exp[paths[0]] if any(exp[p][c] is not None for p in paths)]
        head = lines[0]
        if on("comm.stats") and "Irecv gap (min)" in head: cols += GAP
        try: rows, used = table(text, cols, "Path")
        except Fail as x: raise Fail("%s: %s" % (str(x), what))
        got = tree_paths(rows)
        if sorted(p for p, _ in got) != paths: 
            a, b = ["/".join(p) for p, _ in got], ["/".join(p) for p in paths]
            raise Fail("rows: %s: report also shows %s, lacks %s, twice %s; it has %s, the program visited %s" % (what, sorted(set(a) - set(b)), sorted(set(b) - set(a)), sorted(x for x in set(a) if a.count(x) > 1), a, b))
        if any(l.strip() for l in lines[used:]): raise Fail("layout: %s: additional output %r" % (what, lines[used:][:5]))
        for p, c in got:
            self.cells(c, exp[p], "/".join(p) + " in " + what)
            for x in GAP:
                if c.get(x) and not 0 <= float(c[x]) <= 100: raise Fail("value: %s of %s is %s" % (x, "/".join(p), c[x]))
        if on("order_by_time"):
            pass
        return len(got)

    def mpireport(self, m, data, text, what):
        # one record per rank, region path and function; the calls' begin events make up the records outside of MPI
        F, O = {}, {}
        for q, D in data.items():
            for (p, f), x in D.items():
                F.setdefault(f, []).append((x.n, x.ilo, x.ihi))
                k = (q, p[:-len(f) - 1]); O[k] = O.get(k, 0) + x.n
        rows, used = table(text, ["Count (min)", "Count (max)", "Time (min)", "Time (max)", "Time (avg)", "Time %"], "Function") if text.strip() else ([], 0)
        got = {t.strip(): c for t, c in rows}
        if len(got) != len(rows): raise Fail("rows: %s: a function appears twice: %r" % (what, text))
        exp = set(F) | ({""} if O else set())
        if set(got) != exp: raise Fail("rows: %s: report shows %s, the program called %s" % (what, sorted(got), sorted(exp)))
        pct = [float(c["Time %"]) for _, c in rows]
        if pct != sorted(pct, reverse=True): raise Fail("order: %s: rows are not ordered by time: %s" % (what, pct))
        if pct and abs(sum(pct) - 100) > 0.01: raise Fail("percent: %s: times add up to %s" % (what, sum(pct)))
        for f, c in got.items():
            if f == "":
                self.cells(c, {"Count (min)": min(O.values()), "Count (max)": max(O.values())}, "outside in " + what); continue
            L = F[f]
            g = lambda k: (k([y[1] for y in L]), k([y[2] for y in L]))
            self.cells(c, {"Count (min)": min(y[0] for y in L), "Count (max)": max(y[0] for y in L), "Time (min)": g(min), "Time (max)": g(max), "Time (avg)": g(avg)}, f + " in " + what)
        return len(got)

ALLF = c34.ALL
CHECK = C35

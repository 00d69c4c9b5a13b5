"""C43: OpenMP tool events are recorded exactly as the runtime reports them."""
from vf.engine import Check, Fail
from vf.driver import enc, dec
from vf.model import *
from vf.rt import World
from checks import rtgen
from checks.c33 import BWorld, Clock, config_text, table, near, labels

PAR, TYP, SYN, WRK, TID, NUM, PROC = "omp.parallel", "omp.thread.type", "omp.sync", "omp.work", "omp.thread.id", "omp.num.threads", "omp.proc.id"
ATTRS = [(PAR, "uint", THREAD), (TYP, "string", THREAD | UNALIGNED), (SYN, "string", THREAD), (WRK, "string", THREAD), ("omp.state", "string", THREAD | SKIP_EVENTS)] + [(n, "int", THREAD | UNALIGNED | SKIP_EVENTS) for n in (PROC, TID, NUM)]
SUBS = (PAR, TYP, SYN, WRK)
TYPE = {1: "initial", 2: "worker", 3: "other"}
WORK = dict(enumerate(["loop", "sections", "single_executor", "single_other", "workshare", "distribute", "taskloop", "scope"], 1))
SYNC = dict(enumerate(["barrier", "barrier_implicit", "barrier_explicit", "barrier_implementation", "taskwait", "taskgroup", "reduction", "barrier_implicit_workshare", "barrier_implicit_parallel", "barrier_teams"], 1))
FUNCS = ["ompt_set_callback", "ompt_get_state", "ompt_enumerate_states", "ompt_get_proc_id", "ompt_finalize_tool"]
BOOL = {"1": True, "true": True, "0": False, "false": False}

class Omp:
    """the stand-in runtime's events"""
    def omp_init(self, env): self.env, self.n, self.made, self.state, self.fin, self.api = env, 0, False, "none", 0, True
    def has(self, ch): return "ompt" in ch.cfg.get("CALI_SERVICES_ENABLE", "").split(",")
    def event(self, kind, a, v, t):
        if a.name not in SUBS: return super().event(kind, a, v, t)
        for ch in self.channels:
            if ch.alive and ch.active and ch.event and self.has(ch) and ch.marked(a): self.ch_event(ch, kind, a, v, t, t.bb)
    def reply(self, l, want, what):
        self.expect(l, lambda r: None if r == want else "%s: %s instead of %s" % (what, r, want))
    def op_omp(self, tid, what, *a):
        t = self.thread(tid); x = [int(v) for v in a] if what != "start" else a
        if what == "start":
            if self.state != "none": return
            if x and x[0] not in FUNCS: return
            want = BOOL[self.env] if self.env is not None else self.n > 0
            self.state = ("failed" if x else "on") if want else "none"
            if want: self.api = not (x and x[0] == FUNCS[4])
            self.reply(self.emit(tid, "omp", "start", *x), "refused" if not want else "failed" if x else "ok 7", "starting the tool")
            return
        if what == "state":
            self.reply(self.emit(tid, "omp", "state"), "%s %d" % ("running" if self.state == "on" else "off", self.fin), "the tool's state"); return
        f = getattr(self, "omp_" + what, None)
        if not f or not self.valid(what, x): return
        l = self.emit(tid, "omp", what, *x)
        self.reply(l, "ok" if self.state == "on" else "none", "callback " + what)
        if self.state == "on":
            self.stats["cb." + what] += 1
            if not self.made: self.stats["early"] += 1
            f(t, *x)
    def valid(self, what, x):
        return len(x) == {"tb": 2, "te": 0, "pb": 1, "pe": 0, "it": 4, "wk": 2, "sy": 2}[what] and all(-2**31 <= v < 2**32 for v in x)
    def open(self, t, n, v):
        if self.made: self.begin(t, self.attrs[n], v); self.stats["opened"] += 1
    def shut(self, t, n):
        if self.made and self.get(t, self.attrs[n]) is not None: self.end(t, self.attrs[n])
    def omp_tb(self, t, ty, proc):
        if proc >= 0: self.open(t, PROC, ("int", proc))
        self.open(t, TYP, ("string", TYPE.get(ty, "unknown")))
    def omp_te(self, t): self.shut(t, TYP); self.shut(t, PROC)
    def omp_pb(self, t, n): self.open(t, PAR, ("uint", n))
    def omp_pe(self, t): self.shut(t, PAR)
    def omp_it(self, t, ep, par, idx, flags):
        if flags & 1: return
        if ep == 1: self.open(t, NUM, ("int", par)); self.open(t, TID, ("int", idx))
        else: self.shut(t, TID); self.shut(t, NUM)
    def scoped(self, t, n, ep, v):
        if ep == 1: self.open(t, n, ("string", v))
        elif ep == 2: self.shut(t, n)
    def omp_wk(self, t, ep, k): self.scoped(t, WRK, ep, WORK.get(k, "UNKNOWN"))
    def omp_sy(self, t, ep, k): self.scoped(t, SYN, ep, SYNC.get(k, "UNKNOWN"))

class OWorld(Omp, World):
    reserved = tuple(a[0] for a in ATTRS)
    def __init__(self, ops, env=None):
        super().__init__()
        self.omp_init(env)
        self.start({"CALI_USE_OMPT": env} if env is not None else None)
        for op in ops: self.do(op)
    def op_chnew(self, tid, c, active, cfg):
        if c in self.chname: return
        if "ompt" in cfg.get("CALI_SERVICES_ENABLE", "").split(","):
            super().op_chnew(tid, c, active, cfg)
            for a in ATTRS: self.mk(*a)
            self.made = True; self.n += 1
        else: super().op_chnew(tid, c, active, cfg)
    def op_chdel(self, tid, c):
        ch = self.ch(c); was = ch and ch.alive and self.has(ch)
        super().op_chdel(tid, c)
        if was:
            self.n -= 1
            if self.n == 0 and self.state in ("on", "failed", "fin") and self.api:
                if self.state == "on": self.state = "fin"
                self.fin += 1

class RWorld(Omp, BWorld):
    reserved = tuple(a[0] for a in ATTRS)
    def __init__(self, ops, confs):
        self.omp_init(None)
        super().__init__(ops, confs)
    def has(self, ch): return True
    def op_cm(self, tid, what):
        if what == "start" and not self.started and tid == 0:
            for a in ATTRS: self.mk(*a)
            self.made = True; self.n = len(self.confs)
        super().op_cm(tid, what)

LOCAL = {"threads": ["#Threads"], "init": ["Time (thread)"], "total": ["Time (total)"], "work": ["Time (work)"], "sync": ["Time (barrier)"], "workp": ["Work %"], "syncp": ["Barrier %"]}
CROSS = {"threads": ["#Threads"], "init": ["Time (thread) (avg)"], "total": ["Time (total)"], "work": ["Time (work) (avg)", "Time (work) (total)"], "sync": ["Time (barrier) (avg)", "Time (barrier) (total)"], "workp": ["Work % (min)", "Work % (avg)"], "syncp": ["Barrier % (avg)", "Barrier % (max)"]}

def table_(text, cols, first):
    """an aligned table; cells of columns that are shown twice must agree"""
    import re
    lines = text.encode("utf-8", "surrogateescape").decode("latin-1").split("\n")   # columns are aligned by bytes
    while lines and not lines[0].strip(): lines.pop(0)
    if not lines: raise Fail("layout: empty report")
    head = lines[0]; pos = []; at = 0
    if first and not head.startswith(first): raise Fail("layout: header %r" % head)
    used = [(0, len(first))] if first else []
    for c in sorted(cols, key=len, reverse=True):
        for m in re.finditer(r"(?<!\S)" + re.escape(c) + r"(?= |$)", head):
            if any(a < m.end() and m.start() < b for a, b in used): continue
            used.append((m.start(), m.end())); pos.append((m.start(), c)); break
        else: raise Fail("columns: report has no column %r: %s" % (c, head))
    rest = "".join(ch for i, ch in enumerate(head) if not any(x <= i < y for x, y in used)).strip()
    if rest: raise Fail("columns: unexpected columns %r in %s" % (rest, head))
    pos.sort(); rows = []
    for l in lines[1:]:
        if not l.strip(): continue
        b = l
        t = b[:pos[0][0]] if first else ""
        cells = {}
        for i, (s, c) in enumerate(pos):
            x = b[s:(pos[i + 1][0] if i + 1 < len(pos) else len(b))].strip()
            if c in cells and cells[c] != x: raise Fail("columns: %s is %r and %r" % (c, cells[c], x))
            cells[c] = x
        rows.append((t.rstrip().encode("latin-1").decode("utf-8", "surrogateescape"), cells))
    return rows, 0

def tame(ops):
    """annotations that a table of paths shows one way only"""
    out = []
    for q in ops:
        if q[0] == "glob": continue
        if q[0] in ("attr", "attrc", "ann"):
            k = 4 if q[0] == "ann" else 5
            q[k] &= ~(HIDDEN | NOMERGE)
            if q[k] & NESTED and (q[0] == "ann" or q[4] != "string"): q[k] &= ~NESTED
            if q[k] & NESTED: q[k] &= ~(GLOBAL | UNALIGNED | ASVALUE | 60)
        for k in range(len(q)):
            if q[k] == "": q[k] = "e"
            if q[k] == ["string", ""]: q[k] = ["string", "e"]
            if q[k] == rtgen.STR[-1]: q[k] = "somename"
            if q[k] == ["string", rtgen.STR[-1]]: q[k] = ["string", "somename"]
        out.append(q)
    return out

class Acc:
    def __init__(self): self.n, self.threads, self.v = 0, None, {}
    def add(self, k, lo, hi):
        x = self.v.setdefault(k, [0.0, 0.0]); x[0] += lo; x[1] += hi

class C43(Check):
    id = "C43"
    flavors = ("plain",)
    rule = ("a stand-in OpenMP runtime starts the tool at any point of a generated program on 1-4 threads and reports thread, parallel, implicit-task, worksharing and synchronization events of all kinds (also unknown kinds, initial tasks, zero-length scopes, ends whose begin the tool never saw, entry points that are missing), mixed with annotations, while 1-3 channels with and without the ompt service are created, paused, cleared and deleted; "
            "every channel's trace and every thread's state must be the annotation model's with one region per reported scope; the tool is started, refused and finalized by the documented rule; non-trivial: at least 4 scopes were opened")
    assumptions = ["a runtime reports the events of one thread in order", "the runtime stops reporting when the tool asks it to finalize"]
    quick, thorough = 1500, 50000

    def gen(self, r, i, tier):
        if r.random() < 0.3: return self.gen_report(r, tier)
        def cfg(first):
            sv = ["event", "trace"]
            if r.random() < (0.9 if first else 0.7): sv.append("ompt")
            r.shuffle(sv)
            c = {"CALI_SERVICES_ENABLE": ",".join(sv)}
            if r.random() < 0.15: c["CALI_EVENT_TRIGGER"] = ",".join(r.sample(list(SUBS) + ["at.0", "at.1", "region"], r.randrange(1, 5)))
            if r.random() < 0.15: c["CALI_EVENT_ENABLE_SNAPSHOT_INFO"] = r.choice(["true", "false"])
            if r.random() < 0.1: c["CALI_EVENT_REGION_LEVEL"] = r.choice(["0", "1", "phase"])
            return c
        env = r.choice([None, None, "1", "true", "1", "0", "false"] if r.random() < 0.6 else ["1", "true"])
        more, wrong = r.random() < 0.5, r.choice([0, 0, 0, 0.03])
        k0 = lambda rr, n: rr.choice([0, n + 1, -1, 99]) if rr.random() < 0.1 else rr.randrange(1, n + 1)
        def extra(rr, w, t):
            if w.state == "none" and rr.random() < 0.25: return ["omp", t, "start"] + ([rr.choice(FUNCS)] if rr.random() < 0.08 else [])
            k = rr.random()
            th = w.threads.get(t); top = th.bb.p["R"][-1][0] if th and th.bb.p["R"] else None
            U = {n for n, v in th.bb.p["U"]} if th else set()
            anyend = rr.random() < wrong
            if top in (PAR, SYN, WRK) and rr.random() < 0.35:
                return ["omp", t, "pe"] if top == PAR else ["omp", t, "sy" if top == SYN else "wk", 2, k0(rr, 8)]
            inn = {n for n, v in th.bb.p["R"]} if th else set()
            if k < 0.12: return ["omp", t, "pb", rr.choice([0, 1, 2, 4, 48, 2**31, 2**32 - 1])]
            if k < 0.17 and (anyend or PAR not in inn or top == PAR): return ["omp", t, "pe"]
            if k < 0.27: return ["omp", t, "it", 1, rr.choice([0, 1, 4, 64]), rr.randrange(64), rr.choice([2, 2, 2, 1, 3, 4])]
            if k < 0.35: return ["omp", t, "it", 2, 0, rr.randrange(8), rr.choice([2, 2, 2, 1])]
            if k < 0.47: return ["omp", t, "wk", rr.choice([1, 1, 1, 3]), k0(rr, 8)]
            if k < 0.51 and (anyend or WRK not in inn or top == WRK): return ["omp", t, "wk", rr.choice([2, 2, 3, 0]), k0(rr, 8)]
            if k < 0.63: return ["omp", t, "sy", rr.choice([1, 1, 1, 3]), k0(rr, 10)]
            if k < 0.67 and (anyend or SYN not in inn or top == SYN): return ["omp", t, "sy", rr.choice([2, 2, 3, 0]), k0(rr, 10)]
            if k < 0.73: return ["omp", t, "tb", rr.choice([1, 2, 2, 3, 4, 0]), rr.choice([-1, 0, 3, 17])]
            if k < 0.77: return ["omp", t, "te"]
            if k < 0.78: return ["omp", t, "state"]
            if k < 0.82: return ["ctx", t]
            if not more: return None
            j = rr.random()
            if j < 0.35: return ["chnew", t, rr.choice(["c1", "c2", "c3"]), rr.random() < 0.8, cfg(False)]
            if j < 0.5: return ["chdel", t, rr.choice(["c0", "c1", "c2"])]
            if j < 0.55: return ["chclear", t, rr.choice(["c0", "c1", "c2"])]
            return [rr.choice(["chact", "chdeact"]), t, rr.choice(["c0", "c1", "c2"])]
        pre = [["omp", 0, "start"]] if r.random() < 0.4 else []
        for _ in range(r.choice([0, 0, 0, 1, 3]) if pre else 0):   # events before there is a channel
            pre.append(r.choice([["omp", 0, "tb", 1, 0], ["omp", 0, "pb", 2], ["omp", r.randrange(2), "it", 1, 2, 0, 2], ["omp", r.randrange(2), "sy", 1, 2], ["omp", r.randrange(2), "wk", 1, 1]]))
        ops = rtgen.history(r, channels=True, chcfg=cfg(True), extra_op=extra, xprob=0.65, query=0.08, world=lambda: OWorld([], env), prefix=pre, big=tier != "quick")
        return {"env": env, "ops": ops}

    def gen_report(self, r, tier):
        o = {}
        if r.random() < 0.6: o["aggregate_across_ranks"] = "false"
        for x in ("show_threads", "show_thread_type", "openmp.threads"):
            if r.random() < 0.3: o[x] = "true"
        for x in ("show_regions", "openmp.efficiency", "openmp.times"):
            if r.random() < 0.25: o[x] = "false"
        if o.get("openmp.times") == "false": o["openmp.efficiency"] = "false"
        o["output"] = "out.txt"
        confs = [{"name": "openmp-report", "o": dict(r.sample(list(o.items()), len(o)))}]
        def extra(rr, w, t):
            th = w.threads.get(t); R = th.bb.p["R"] if th else []; U = {n for n, v in th.bb.p["U"]} if th else set()
            top = R[-1][0] if R else None
            if w.state == "none": return ["omp", t, "start"]
            k = rr.random()
            if k < 0.25: return ["busy", t, rr.choice([1, 20, 100, 300])]
            if top in (PAR, SYN, WRK) and k < 0.5: return ["omp", t, "pe"] if top == PAR else ["omp", t, "sy" if top == SYN else "wk", 2, 1]
            if k < 0.6 and TYP not in U: return ["omp", t, "tb", 1 if t == 0 else 2, t]
            if k < 0.7 and TID not in U: return ["omp", t, "it", 1, rr.choice([2, 4, 64]), t, 2]
            if k < 0.73 and TID in U: return ["omp", t, "it", 2, 0, t, 2]
            if k < 0.75 and TYP in U: return ["omp", t, "te"]
            if k < 0.83: return ["omp", t, "wk", 1, rr.randrange(1, 9)]
            if k < 0.9: return ["omp", t, "sy", 1, rr.randrange(1, 11)]
            return ["omp", t, "pb", 2]
        ops = rtgen.history(r, nthreads=r.choice([1, 2, 3]), channels=False, query=0.0, flush=0, extra_op=extra, xprob=0.6, usr=False, proc=0.0, nattr=r.choice([1, 2]), length=r.choice([10, 20, 40, 60]), big=tier != "quick", prefix=[["cm", 0, "start"]], world=lambda: RWorld([], confs))
        return {"confs": confs, "ops": tame(ops) + [["cm", 0, "flush"]]}

    def run_report(self, ctx, case):
        for o in case["ops"]:
            if o[0] in ("attr", "attrc", "ann"):
                p = o[5] if o[0] != "ann" else o[4]
                if p & NESTED and (o[0] == "ann" or o[4] != "string" or p & (GLOBAL | UNALIGNED | ASVALUE | 60)) or p & (HIDDEN | NOMERGE): return None
            if "" in o or ["string", ""] in o: return None
        w = RWorld(case["ops"], case["confs"])
        if len(w.flushes) != 1: return None
        res = ctx.drv("plain").run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        c = case["confs"][0]; o = c["o"]; what = config_text(c)
        for l in w.adds:
            if dec(res.res[l]).strip() != "1 -": raise Fail("config: %s: %s" % (w.lines[l], res.res[l]))
        if "parse error" in res.err: raise Fail("config: %s: %s" % (what, res.err[:300]))
        text = res.files.get("out.txt")
        if text is None: raise Fail("output: %s wrote no file" % what)
        clk = Clock(w, res)
        on = lambda x, d=False: o.get(x, "true" if d else "false") == "true"
        tree, cols = on("show_regions", True), CROSS if o.get("aggregate_across_ranks") != "false" else LOCAL
        bytid, bytype = on("show_threads") or on("openmp.threads"), on("show_thread_type") or on("openmp.threads")
        acc, inc = {}, {}
        for rec in w.flushes[0][1][0]:
            path, at = (), {}
            for e in rec[1]:
                if e[0] != "R": continue
                p = tuple((n, show_text(*v)) for n, v in e[1] if n in w.attrs and w.attrs[n].props & NESTED)
                if p: path = p
                for n, v in e[1]:
                    if n in (TYP, NUM, TID) and n in at: return None
                    at[n] = v[1]
            key = (str(at[TID]) if bytid and TID in at else "", at.get(TYP, "") if bytype else "")
            path = labels(path) if tree else ()
            lo, hi = clk.span(rec)
            a = acc.setdefault((path, key), Acc()); a.n += 1
            if NUM in at: a.threads = max(a.threads or 0, at[NUM])
            vals = [("total", True)] + [("init", at.get(TYP) == "initial"), ("work", WRK in at), ("sync", SYN in at), ("any", WRK in at or SYN in at)]
            for k in range(len(path) + 1):
                i = inc.setdefault((path[:k], key), Acc())
                for n, ok in vals:
                    if ok: i.add(n, lo, hi)
            for n, ok in vals:
                if ok: a.add(n, lo, hi)
        if tree:
            acc = {k: v for k, v in acc.items() if k[0]}; inc = {k: v for k, v in inc.items() if k[0]}
        want = {}
        for k, names in cols.items():
            if k in ("work", "sync") and not on("openmp.times", True) or k in ("workp", "syncp") and not on("openmp.efficiency", True): continue
            src = {"threads": lambda a: a.threads is not None, "workp": lambda a: "work" in a.v, "syncp": lambda a: "sync" in a.v}.get(k, lambda a: k in a.v)
            if not tree or any(src(a) for a in acc.values()): want[k] = names   # a table shows all columns
        if not acc: return dict(tags=["report", "report empty"], nontrivial=False, show=w.lines[:40])
        present = [n for l in want.values() for n in l]
        # the same column can be requested by two options
        keycols = (["Thread"] if bytid and (not tree or any(k[1][0] for k in acc)) else []) + (["Type"] if on("show_thread_type") and (not tree or any(k[1][1] for k in acc)) else [])
        if on("openmp.threads") and "threads" in want: present.append("#Threads")
        if on("show_threads") and on("openmp.threads") and "Thread" in keycols: present.append("Thread")
        rows, used = table_(text, present + keycols, "Path" if tree else None)
        got = {}
        stack = []
        for t, cells in rows:
            if tree:
                if t.strip() in ("", "|", "|-"): pass   # another row of the same node
                else:
                    d = (len(t) - len(t.lstrip(" "))) // 2
                    del stack[d:]; stack.append(t.strip())
            k = (tuple(stack), (cells.get("Thread", ""), cells.get("Type", "")))
            got.setdefault(k, []).append(cells)
        showkey = lambda k: (k[0], (k[1][0], k[1][1] if on("show_thread_type") else ""))
        exp = {}
        for k, a in acc.items(): exp.setdefault(showkey(k), []).append((a, inc[k]))
        for k, l in exp.items():
            if k not in got: raise Fail("rows: %s has no row for %s" % (what, k))
            if len(got[k]) < len(l): raise Fail("rows: %s has %d rows for %s instead of %d" % (what, len(got[k]), k, len(l)))
            if len(l) > 1 or len(got[k]) > 1: continue
            a, i = l[0]; cells = got[k][0]
            lab = "%s of %s %s" % ("%s", "/".join(k[0]).replace("%", "%%"), "/".join(k[1]))
            for col, names in want.items():
                for n in names:
                    x = cells[n]
                    if col == "threads":
                        if x != ("" if a.threads is None else str(a.threads)): raise Fail("threads: %s is %r instead of %s" % (lab % n, x, a.threads))
                        continue
                    src = i if col in ("total", "init", "workp", "syncp") else a
                    kk = col.rstrip("p") if col in ("workp", "syncp") else col
                    if kk not in src.v and not float(x or 0): continue
                    if kk not in src.v: raise Fail("time: %s is %s, but no such time was spent" % (lab % n, x))
                    if x == "":
                        if kk in a.v: raise Fail("time: %s is empty" % (lab % n))
                        continue
                    lo, hi = src.v[kk]
                    if col in ("workp", "syncp"): near(float(x), 100 * lo / max(src.v["any"][1], 1e-12), min(100.0, 100 * hi / max(src.v["any"][0], 1e-12)), lab % n, eps=0.01)
                    else: near(float(x), lo, hi, lab % n)
        for k, l in got.items():
            if k not in exp and any(c[n] for c in l for n in present if n in c) and not any(p[:len(k[0])] == k[0] for p, _ in exp): raise Fail("rows: %s shows %s, which the program did not visit" % (what, k))
        return dict(tags=["report"] + (["report tree"] if tree else []) + (["report cross"] if cols is CROSS else []) + (["report threads"] if bytid or bytype else []), nontrivial=len(exp) >= 2 and "work" in want and w.stats["opened"] >= 4, show=dict(config=what, program=[x for x in w.lines if not x.endswith(" now")][:40]))

    def run(self, ctx, case):
        if "confs" in case: return self.run_report(ctx, case)
        env = case.get("env")
        if env is not None and env not in BOOL: return None
        w = OWorld(case["ops"], env)
        if not w.channels: return None
        w.op_omp(0, "state")
        w.finish()
        res = ctx.drv("plain").run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        return dict(tags=sorted(k for k in w.stats if k.startswith("cb.")) + [k for k in ("early",) if w.stats[k]] + ["state." + w.state, "channels%d" % len(w.channels)], nontrivial=w.stats["opened"] >= 4, show=w.lines[:40])

CHECK = C43

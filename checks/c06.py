"""C06: concurrent annotation loses and mixes nothing."""
from vf.engine import Check, Fail, Invalid
from vf.driver import enc, dec, Crash, san_tail
from vf.model import *
from vf.rt import World, Channel, Thread, BB, parse_rec, compare_records, thr_of, show
from checks import rtgen
from checks.c04 import AWorld, compare_rows, NUM, RES, wrap

NPROC = 3       # process-scope values p.0 .. p.2; only thread k+1 sets p.k

class CWorld(AWorld):
    """threads 1.. run concurrently between barriers; operations of thread 0 are sequential"""
    def __init__(self, case):
        self.cap = None; self.nsub = 0; self.wrote = {}; self.ids = {}; self.init = case["init"]; self.plog = {}
        self.rets = []
        World.__init__(self)
        self.rows = {}; self.nmulti = self.ndump = 0; self.cleared = {}
        if self.init: self.start_init(case["chans"][0][1])
        else:
            self.start()
            for c, cfg in case["chans"]: self.op_chnew(0, c, True, cfg)
            for n in case["pre"]: self.do(["attr", 0, "pre." + n] + case["attrs"][n])
            for k in range(NPROC): self.do(["attr", 0, "p%d" % k, "p.%d" % k, "int", ASVALUE | PROCESS, "attr"])
        for ph in case["phases"]:
            self.par = True
            for o in ph["ops"]:
                if o[1] > 0: self.cop(o)
            self.par = False
            self.raw("RUN")
            for o in ph["seq"]:
                if o[0] in ("join", "dump", "chclear") and not self.init: self.do(o)
    def start_init(self, cfg):
        """the threads initialize the runtime concurrently; the channel is configured by environment variables"""
        full = dict(cfg); full["CALI_CHANNEL_FLUSH_ON_EXIT"] = "false"
        for k, v in full.items(): self.raw("ENV %s %s" % (enc(k), enc(v)))
        ch = Channel(0, "c0", True, full)
        self.channels.append(ch); self.chname["c0"] = ch
    def thread(self, tid):
        if tid == 0 and self.init and not self.threads.get(0): self.threads[0] = t = Thread(-1); t.tagged = True; return t
        if self.init and tid not in self.threads:
            for h, n, ty, p in [("thr", "thr", "int", ASVALUE | SKIP_EVENTS)]: self.emit(tid, "cattr", h, n, ty, p)
            for n in ("region", "phase", "comm.region", "loop"):
                self.emit(tid, "cattr", "B." + n, enc(n), "string", 0); self.h["B." + n] = n
            for k in range(NPROC): self.emit(tid, "cattr", "p%d" % k, "p.%d" % k, "int", ASVALUE | PROCESS)
            for k in range(NPROC): self.mk("p.%d" % k, "int", ASVALUE | PROCESS); self.h["p%d" % k] = "p.%d" % k
        return super().thread(tid)
    def emit(self, tid, *words):
        if self.cap is not None: self.cap.append(" ".join(str(w) for w in words)); return -1
        return super().emit(tid, *words)
    def expect(self, line, fn):
        if line >= 0: super().expect(line, fn)
    def cop(self, o):
        if o[0] == "sub" and len(o) == 3:
            if self.init: self.thread(o[1])      # a short-lived thread must not be the one that initializes the runtime
            tid = 1000 + self.nsub; self.nsub += 1
            self.cap = []
            for x in o[2]:
                if x[0] in ("attr", "b", "s", "e", "rb", "re", "fn", "sc", "pb", "pe", "pop", "lp", "it", "lpend"): self.do([x[0], tid] + x[1:])
            t = self.threads.get(tid)
            lines, self.cap = self.cap, None
            if t:
                while t.objs: self._popobj(t)
                del self.threads[tid]
            if lines: self.emit(o[1], "sub", enc("\n".join(lines))); self.stats["sub"] += 1
            return
        if o[0] == "attr":
            n = o[3]
            if len(o) < 7: return
            self.do(o)
            if self.cap is None: self.rets.append((len(self.lines) - 1, n))
            return
        if o[0] in ("yield", "busy"): 
            self.thread(o[1]); self.emit(o[1], *([o[0]] if o[0] == "yield" else ["busy", min(int(o[2]), 200)])); return
        if o[0] == "pset":      # thread k+1 counts up p.k
            k = o[1] - 1
            if not 0 <= k < NPROC or o[1] >= 1000: return
            t = self.thread(o[1]); v = self.plog.get(k, 0) + 1; self.plog[k] = v
            self.emit(o[1], "set", "lo", "p%d" % k, "i:%d" % v)
            self.event("set", self.attrs["p.%d" % k], ("int", v), t)
            self.wrote[k] = v; self.stats["proc"] += 1
            return
        if o[0] in ("b", "s", "e", "rb", "re", "pb", "pe", "fn", "sc", "pop", "lp", "it", "lpend", "get", "ctx", "path", "regor", "push"): self.do(o)
    def project(self, entries):
        """process-scope values of other threads are looked at separately"""
        return [e for e in super().project(entries) if not (e[0] == "I" and e[1].startswith("p.")) ]
    def compare(self, got, want, what):
        m = compare_rows(got, want, what)
        if not m: return None
        self.stats["redundant"] += 1
        return compare_rows(merge_rows(got), merge_rows(want), what)
    def verify(self, res):
        m = super().verify(res)
        if m: return m
        ids = {}
        for l, n in self.rets:
            f = res.res.get(l, "").split(" ", 1)
            if n in ids and ids[n] != f: return "attribute differs: %s is %s on one thread and %s on another" % (n, ids[n], f)
            ids[n] = f
        if len(set(v[0] for v in ids.values())) < len(ids): return "attribute differs: two names have one id: %s" % ids
        self.stats["attrs"] = len(ids)
        return None

def merge_rows(rows):
    """concurrent threads may create redundant copies of a context tree node, which splits profile records: combine them"""
    out = {}
    for r in rows:
        key, val = [], {}
        for e in r:
            m = RES.match(e[1]) if e[0] == "I" else None
            if e[0] == "I" and e[1] == "count": val[e[1]] = e[2]
            elif m: val[e[1]] = e[2]
            else: key.append(e)
        o = out.setdefault(repr(sorted(map(repr, key))), (key, {}))[1]
        for n, v in val.items():
            if n.startswith("avg#"): continue
            if n not in o: o[n] = v
            elif n.startswith("min#"): o[n] = (v[0], min(o[n][1], v[1]))
            elif n.startswith("max#"): o[n] = (v[0], max(o[n][1], v[1]))
            else: o[n] = (v[0], o[n][1] + v[1] if v[0] == "double" else wrap(v[0], o[n][1] + v[1]))
    return [k + [("I", n, v) for n, v in o.items()] for k, o in out.values()]

def proc_check(w, ch, text, res):
    """process-scope values in the trace of a channel: only written values, never going backwards on a thread, own writes visible at once"""
    last = {}
    own = {}
    for l in text.split("\n"):
        if not l: continue
        rec = parse_rec(l)
        im = [(e[1], e[2]) for e in rec if e[0] == "I"]
        if any(n == "count" for n, v in im): continue
        t = thr_of(rec)
        for n in {n for n, v in im if n.startswith("p.")}:
            v = [x for m, x in im if m == n]
            k = int(n[2:])
            if len(v) > 1: return "process: record has two values of %s: %s" % (n, show(rec))
            if v[0][0] != "int" or not 1 <= v[0][1] <= w.plog.get(k, 0): return "process: record shows %s=%s, which was never set: %s" % (n, v[0], show(rec))
            if last.get((t, n), 0) > v[0][1]: return "process: thread %s sees %s=%d after %d" % (t, n, v[0][1], last[(t, n)])
            last[(t, n)] = v[0][1]
        for (tt, n), x in last.items():
            if tt == t and x and not any(m == n for m, v in im): return "process: thread %s does not see %s although it saw %d before: %s" % (t, n, x, show(rec))
        # the writing thread sees its own value: a set event of value v is recorded while v-1 is current
        for n, v in im:
            if n.startswith("event.set#p."):
                a = n[10:]
                cur = [x[1] for m, x in im if m == a]
                if cur != ([v[1] - 1] if v[1] > 1 else []): return "process: at the set event for %s=%d the thread sees %s" % (a, v[1], cur)
    return None

class C06(Check):
    id = "C06"
    flaky = True
    flavors = ("tsan", "asan")
    rule = ("programs in which 2-6 threads run concurrently through 1-3 phases: each annotates its own properly nested history with shared and new attributes (the same names created or used by name on several threads at once), process-scope counters, pushed snapshots, queries and short-lived threads, under 1-2 tracing and/or aggregating channels, or with the runtime itself initialized by all threads at once; "
            "each thread's records, queries and profiles are compared exactly with a per-thread model and process-scope values by visibility rules, under ThreadSanitizer or AddressSanitizer; non-trivial: at least two threads with 5 or more operations each and an attribute used or created on two threads")
    assumptions = ["channels are created and flushed while no other thread runs"]
    quick, thorough = 1500, 60000

    def gen(self, r, i, tier):
        nt = r.choice([2, 2, 3, 4, 6])
        init = r.random() < 0.12
        A = {}
        for k in range(r.choice([2, 4, 8])):
            t = r.choice(["int", "string", "string", "double", "uint"]); p = r.choice([0, NESTED, NESTED, ASVALUE, ASVALUE, UNALIGNED])
            if p & ASVALUE and t in NUM and r.random() < 0.6: p |= AGGREGATABLE
            if r.random() < 0.1: p |= SKIP_EVENTS
            A["at.%d" % k] = ["at.%d" % k, t, p, "attr"]
        def cfg():
            sv = ["event"] + r.choice([["trace"], ["trace", "aggregate"], ["aggregate"], ["trace", "timer"], ["trace", "aggregate", "timer"]])
            c = {"CALI_SERVICES_ENABLE": ",".join(sv)}
            if r.random() < 0.4: c["CALI_EVENT_ENABLE_SNAPSHOT_INFO"] = "false"
            if r.random() < 0.2: c["CALI_EVENT_TRIGGER"] = "region,at.0,at.1,nm.a"
            if "aggregate" in sv: c["CALI_AGGREGATE_KEY"] = "thr" + r.choice(["", ",at.0,at.1"])
            return c
        chans = [["c0", cfg()]] + ([["c1", cfg()]] if r.random() < 0.3 and not init else [])
        pre = [] if init else [n for n in A if r.random() < 0.4]
        w = CWorld({"init": False, "chans": [["c0", {"CALI_SERVICES_ENABLE": "event,trace"}]], "pre": [], "attrs": A, "phases": []})
        phases = []
        for ph in range(1 if init else r.choice([1, 1, 2, 3])):
            ops = []
            for t in range(1, nt + 1):
                L = r.choice([3, 10, 20, 40])
                w.par = True
                mine = {n: "H%s.%d" % (n, t) for n in A}
                if not init:
                    for n in pre: mine[n] = "pre." + n
                order = list(A); 
                if r.random() < 0.5: r.shuffle(order)
                for k in range(L):
                    o = self.step(r, w, t, A, mine, order, nt)
                    if o: ops.append(o); w.cop(o)
                if r.random() < 0.4:
                    for _ in range(30):
                        o = self.close(r, w, t, mine)
                        if not o: break
                        ops.append(o); w.cop(o)
                w.par = False
            seq = [["dump", 0, c] for c, _ in chans if r.random() < 0.4] + [["join", t] for t in range(1, nt + 1) if r.random() < 0.3 and not init] + [["chclear", 0, c] for c, _ in chans if r.random() < 0.2]
            for o in seq:
                if o[0] == "join": w.do(o)
            phases.append({"ops": ops, "seq": seq})
        return {"init": init, "chans": chans, "attrs": A, "pre": pre, "phases": phases, "flavor": "tsan" if r.random() < 0.6 else "asan"}

    def close(self, r, w, t, mine):
        th = w.thread(t)
        if th.objs and th.bb.p["R"] and th.bb.p["R"][-1][0] in ("region", "loop") and th.bb.p["R"][-1][0] == th.objs[-1][0]: return ["pop", t]
        if th.objs and th.objs[-1][0].startswith("iteration#"): return ["pop", t]
        if th.objs and th.objs[-1][0] == "loop" and not th.objs[-1][2]: return ["pop", t]
        p = th.bb.p["R"]
        if not p: return None
        n, v = p[-1]
        if n in ("region", "phase") and n not in [o[0] for o in th.objs]: return [{"region": "re", "phase": "pe"}[n], t, v[1]]
        if n in mine: return ["e", t, "lo", mine[n]] if mine[n] in w.h else None
        if n.startswith("nm."): return ["e", t, "nm", n]
        return None

    def step(self, r, w, t, A, mine, order, nt, sub=False):
        k = r.random()
        if k < 0.05: return ["yield", t]
        if k < 0.08: return ["busy", t, r.choice([1, 10, 50])]
        if k < 0.14: return ["pset", t]
        if k < 0.2: return ["push", t, [[mine[n], rtgen.value(r, A[n][1])] for n in r.sample(list(A), min(len(A), r.randrange(3))) if mine[n] in w.h]]
        if k < 0.26: return [r.choice(["ctx", "path", "regor"]), t]
        if k < 0.29 and not sub:
            return ["sub", t, self.subops(r, A, w)]
        if k < 0.55:
            o = self.close(r, w, t, mine)
            if o: return o
        if k < 0.7: return [r.choice(["rb", "rb", "fn", "sc", "pb", "lp"]), t, r.choice(["a", "b", "foo", "main", "x%d" % r.randrange(20)])]
        if k < 0.76: return ["b", t, "nm", r.choice(["nm.a", "nm.b", "nm.c"] + ["nm.%d" % r.randrange(6)]), ["string", r.choice(["u", "v", "w"])]]
        if k < 0.79: return ["s", t, "nm", r.choice(["ns.a", "ns.b", "ns.%d" % r.randrange(6)]), ["int", r.randrange(5)]]
        n = order[min(int(r.random() * r.random() * len(order)), len(order) - 1)]
        if mine[n] not in w.h: return ["attr", t, mine[n]] + A[n]
        op = "b" if A[n][2] & (ASVALUE | UNALIGNED) == 0 else "s"
        return [op, t, "lo", mine[n], rtgen.value(r, A[n][1])]

    def subops(self, r, A, w):
        ops, depth = [], []
        have = set()
        for _ in range(r.randrange(1, 8)):
            k = r.random()
            if k < 0.4 and depth: ops.append(["re", depth.pop()]); continue
            if k < 0.8: depth.append(r.choice(["a", "b", "s%d" % r.randrange(9)])); ops.append(["rb", depth[-1]]); continue
            n = r.choice(list(A)); H = "S%s.%d" % (n, r.randrange(1 << 30))
            ops.append(["attr", H] + A[n])
            ops.append(["s", "lo", H, rtgen.value(r, A[n][1])] if A[n][2] & (ASVALUE | UNALIGNED) else ["b", "lo", H, rtgen.value(r, A[n][1])])
            if not A[n][2] & (ASVALUE | UNALIGNED): ops.append(["e", "lo", H])
        if r.random() < 0.7:
            while depth: ops.append(["re", depth.pop()])
        return ops

    def world(self, case): return CWorld(case)

    def run(self, ctx, case):
        if case["flavor"] not in self.flavors: return None
        for n, a in case["attrs"].items():
            if len(a) != 4 or a[2] & HIDDEN or a[2] & 60 or a[1] not in ("int", "string", "double", "uint") or a[0] != n: return None
            if a[2] & AGGREGATABLE and (a[1] not in NUM or not a[2] & ASVALUE): return None
        for c, cfg in case["chans"]:
            sv = cfg.get("CALI_SERVICES_ENABLE", "").split(",")
            if "event" not in sv or not ("trace" in sv or "aggregate" in sv) or not set(sv) <= {"event", "trace", "aggregate", "timer"}: return None
            if "aggregate" in cfg["CALI_SERVICES_ENABLE"] and not cfg.get("CALI_AGGREGATE_KEY", "").startswith("thr"): return None
        w = CWorld(case)
        dumps = []
        if w.init: w.raw("0 chreg default")
        base = len(w.lines)
        for c in list(w.chname): w.op_dump(0, c)
        d = ctx.drv(case["flavor"])
        if w.init:      # the thread that initialized the runtime must exit last: leave without exiting threads
            w.raw("_EXIT 0")
            res = d.run(w.lines, cpu=60, check=False)
            if res.status != "exit 0": raise Crash("program ended with %s: %s" % (res.status, san_tail(res.err)))
        else: res = d.run(w.lines, cpu=60)
        m = w.verify(res)
        if m: raise Fail(m)
        for l in range(len(w.lines)):
            f = w.lines[l].split(" ")
            if f[0] == "0" and f[1] == "dump":
                m = proc_check(w, None, dec(res.res.get(l, "")), res)
                if m: raise Fail(m)
        per = {}
        for ph in case["phases"]:
            for o in ph["ops"]: per.setdefault(o[1], []).append(o)
        shared = len({o[1] for x in per.values() for o in x if o[0] in ("rb", "b", "fn", "sc", "attr", "s")}) >= 2
        return dict(tags=[case["flavor"], "init" if case["init"] else "channels%d" % len(case["chans"]), "threads%d" % len(per)] + (["short-lived"] if w.stats["sub"] else []) + (["process"] if w.stats["proc"] else []) + (["redundant nodes"] if w.stats["redundant"] else []),
                    nontrivial=sum(1 for x in per.values() if len(x) >= 5) >= 2 and shared, show=w.lines[:50])
CHECK = C06

"""C10: loop monitoring takes exactly the configured snapshots."""
import re
from vf.engine import Check, Fail, Invalid
from vf.driver import enc, dec
from vf.model import *
from vf.rt import World, parse_rec, compare_records, show
from checks import rtgen

EXTRA = ("iter.duration.ns", "iter.count", "time.duration.ns", "time.inclusive.duration.ns", "time.offset.ns")
NAMES = ["a", "ab", "abc", "b", "main", "main loop", "x,y", "L"]

class LoopState:
    """one loop monitor: what it must have done"""
    def __init__(self, ch, cfg):
        self.ch = ch; self.depth = 0; self.target = None; self.n = 0; self.start = None; self.recs = []; self.points = []
        self.interval = int(cfg.get("CALI_LOOP_MONITOR_ITERATION_INTERVAL", "0")); self.time = float(cfg.get("CALI_LOOP_MONITOR_TIME_INTERVAL", "0"))
        t = cfg.get("CALI_LOOP_MONITOR_TARGET_LOOPS", "")
        self.names = split_names(t); self.stats = []; self.srecs = []
        self.marks = []; self.busy = 0.0

def split_names(s): return [m.group(1) if m.group(1) is not None else m.group(2) for m in re.finditer('"([^"]*)"|([^,]+)', s)]

class LWorld(World):
    """World with the loop_monitor and loop_statistics services"""
    def __init__(self, ops):
        self.mon = {}
        super().__init__(); self.start()
        for op in ops: self.do(op)
    def op_chnew(self, tid, c, active, cfg):
        n = len(self.channels)
        super().op_chnew(tid, c, active, cfg)
        if len(self.channels) > n:
            ch = self.channels[-1]; sv = ch.cfg.get("CALI_SERVICES_ENABLE", "")
            ls = LoopState(ch, ch.cfg)
            ls.has = "loop_monitor" in sv; ls.stat = "loop_statistics" in sv
            self.mon[c] = ls
    def isiter(self, a): return a.name.startswith("iteration#")
    def event(self, kind, a, v, t):
        if not a.props & SKIP_EVENTS:
            for m in self.mon.values():
                if not m.ch.alive or not m.ch.active: continue
                if m.has: self.monitor(m, kind, a, v, t)
                if m.stat: self.statistics(m, kind, a, v, t)
        super().event(kind, a, v, t)
    def snap(self, m, t, sure=True):
        """sure: the snapshot must be taken; otherwise whether it is depends on time"""
        rec = self.snapshot(t)
        m.points.append((sure, m.n, m.start, rec, m.marks))
        m.n, m.start, m.marks = 0, None, []
    def monitor(self, m, kind, a, v, t):
        if a.name == "loop":
            if kind == "begin":
                m.depth += 1
                if m.target is None and (not m.names or v[1] in m.names): m.target = m.depth; self.snap(m, t)
            elif m.depth > 0:
                if m.target == m.depth: self.snap(m, t); m.target = None
                m.depth -= 1
        elif m.target is not None and m.depth == m.target and self.isiter(a):
            if kind == "begin":
                m.n += 1; m.busy = 0.0; self.stats["iterations"] += 1
                if m.start is None: m.start = v[1]
            elif kind == "end":
                if m.interval > 0 and m.n % m.interval == 0: self.snap(m, t)
                elif 0 < m.time < 1e-6: self.snap(m, t)
                elif m.time and m.busy > m.time * 1.01: m.marks.append(m.n); self.stats["must"] += 1
    def statistics(self, m, kind, a, v, t):
        if a.name == "loop":
            if kind == "begin": m.stats.append(0)
            elif m.stats: m.srecs.append((t.inc, self.snapshot(t, None, [("I", "iter.count", ("uint", m.stats.pop()))])))
        elif self.isiter(a) and m.stats:
            if kind == "begin": m.stats[-1] += 1
            elif kind == "end": m.srecs.append((t.inc, self.snapshot(t, None, [("I", "iter.duration.ns", ("uint", 0))])))
    def op_busy(self, tid, us):
        super().op_busy(tid, us)
        for m in self.mon.values(): m.busy += us * 1e-6
    def op_mlb(self, tid, s):
        if "\0" in s: return
        self.mk("iteration#" + s, "int", ASVALUE)
        self._named(tid, "mlb", "loop", s, False)
        t = self.thread(tid); t.mloops = getattr(t, "mloops", []) + [s]
    def op_mle(self, tid):
        t = self.thread(tid)
        if not getattr(t, "mloops", []): return
        t.mloops = t.mloops[:-1]
        self.emit(tid, "mle"); self.end(t, self.attrs["loop"]); self.stats["end"] += 1
    def op_mib(self, tid, i):
        t = self.thread(tid)
        if not getattr(t, "mloops", []) or not -2**31 <= i < 2**31: return
        self.emit(tid, "mib", i); self.begin(t, self.attrs["iteration#" + t.mloops[-1]], ("int", i))
    def op_mie(self, tid):
        t = self.thread(tid)
        if not getattr(t, "mloops", []): return
        self.emit(tid, "mie"); self.end(t, self.attrs["iteration#" + t.mloops[-1]])
    def op_dump(self, tid, c):
        self.thread(tid); ch = self.ch(c)
        if not ch or not ch.alive: return
        m = self.mon[c]
        l = self.emit(tid, "dump", ch.idx)
        tail = (m.n, m.start) if m.target is not None else (0, None)
        points, srecs, evrecs = list(m.points), list(m.srecs), list(ch.recs)
        timed = m.time >= 1e-6 and m.has
        def chk(r):
            got = [self.project(parse_rec(x)) for x in dec(r).split("\n") if x]
            isloop = lambda x: any(e[0] == "I" and e[1] in ("loop.iterations", "loop.start_iteration") for e in x)
            isstat = lambda x: any(e[0] == "I" and e[1] in ("iter.duration.ns", "iter.count") for e in x)
            lr = [[e for e in x if e[0] != "I" or e[1] not in EXTRA] for x in got if isloop(x)]
            sr = [[(e[0], e[1], ("uint", 0)) if e[0] == "I" and e[1] == "iter.duration.ns" else e for e in x if e[0] != "I" or not e[1].startswith("time.")] for x in got if isstat(x)]
            er = [[e for e in x if e[0] != "I" or e[1] not in EXTRA] for x in got if not isloop(x) and not isstat(x)]
            for x in got:
                for e in x:
                    if e[0] == "I" and e[1] == "iter.duration.ns" and (e[2][0] != "uint" or e[2][1] > 10**11): return "iteration duration %s: %s" % (e[2], show(x))
            e = compare_records(er, evrecs, "events of channel " + c)
            if e: return e
            e = compare_records(sr, srecs, "loop statistics of channel " + c)
            if e: return e
            want = [(0, rec + [("I", "loop.iterations", ("int", n))] + ([("I", "loop.start_iteration", ("int", s))] if s is not None else [])) for sure, n, s, rec, mk in points]
            marks = [p[4] for p in points]
            if timed:
                dur = [next((float(e[2][1]) for e in x if e[0] == "I" and e[1] == "time.duration.ns"), None) for x in got if isloop(x)]
                return self.structural(lr, want, c, tail, marks, None if self.pushed else [(d, m.time * 1e9) for d in dur])
            return compare_records(lr, want, "loop snapshots of channel " + c)
        self.expect(l, chk)
    def structural(self, got, want, c, tail, marks, dur):
        """time-triggered snapshots: the records between two unconditional ones partition the iterations"""
        val = lambda r, n: next((e[2][1] for e in r if e[0] == "I" and e[1] == n), None)
        rest = lambda r: [e for e in r if not (e[0] == "I" and (e[1].startswith("loop.") or e[1].startswith("iteration#")))]
        k = 0
        for (t, w), mk in zip(want, marks):
            ends = []
            n, s = val(w, "loop.iterations"), val(w, "loop.start_iteration")
            total, first, nxt = 0, None, s
            while True:
                if k >= len(got): return "timed snapshots of channel %s: the record %s is missing" % (c, show(w))
                g = got[k]; k += 1
                gn, gs = val(g, "loop.iterations"), val(g, "loop.start_iteration")
                if gn is None: return "timed snapshots of channel %s: no iteration count: %s" % (c, show(g))
                if (gn > 0) != (gs is not None): return "timed snapshots of channel %s: %d iterations but start is %s: %s" % (c, gn, gs, show(g))
                if gs is not None and nxt is not None and self.consec and gs != nxt: return "timed snapshots of channel %s: record starts at iteration %s, expected %s: %s" % (c, gs, nxt, show(g))
                total += gn; ends.append(total)
                if gn and nxt is not None: nxt += gn
                it = [e for e in g if e[0] == "I" and e[1].startswith("iteration#")]
                # a time-triggered record is taken inside an iteration of the target loop
                if compare_records([rest(g)], [(0, rest(w))], "x") is None and total == n and (len(it) == len([e for e in w if e[0] == "I" and e[1].startswith("iteration#")])): break
                if dur and dur[k - 1][0] is not None and dur[k - 1][0] < 0.9 * dur[k - 1][1] - 1000: return "timed snapshots of channel %s: snapshot %g ns after the previous one, the interval is %g ns: %s" % ((c,) + dur[k - 1] + (show(g),))
                if total > n: return "timed snapshots of channel %s: %d iterations counted, %d executed before %s" % (c, total, n, show(w))
            if set(mk) - set(ends): return "timed snapshots of channel %s: no snapshot after iteration(s) %s, which took longer than the time interval; snapshots after %s, before %s" % (c, sorted(set(mk) - set(ends)), ends, show(w))
        # inside a target loop: any number of records for the iterations so far
        left = tail[0]
        while k < len(got) and left > 0 and 0 < (val(got[k], "loop.iterations") or 0) <= left: left -= val(got[k], "loop.iterations"); k += 1
        if k < len(got): return "timed snapshots of channel %s: extra record %s" % (c, show(got[k]))
        return None
    def finish(self):
        for c in list(self.mon): self.op_dump(0, c)

class C10(Check):
    id = "C10"
    rule = ("programs of nested loops with the C++ classes and the C macros, 0-40 iterations each with regions, loops, early loop ends and other annotations inside iterations and iterations of any number and step, under 1-2 channels with loop_monitor (iteration interval 0-10, every-iteration, never and elapsed-time triggers, target loop lists with names that are prefixes of each other) "
            "and/or loop_statistics, created before, between or inside loops, with other services; plus loop-report outputs; every trace record is compared with a model of the services, timed ones by partition of the iterations, and report rows with the executed iterations; non-trivial: at least 5 iterations of target loops and two loops")
    assumptions = ["loops are annotated on one thread", "channels are not deactivated inside a loop"]
    quick, thorough = 4000, 120000

    def gen(self, r, i, tier):
        report = r.random() < 0.12
        timed = not report and r.random() < 0.12
        simple = r.random() < 0.7 or report or timed
        names = ["a", "ab", "main", "b"] if report else NAMES
        def cfg():
            c = {}
            sv = r.choice([["loop_monitor", "trace"], ["loop_monitor", "trace"], ["loop_monitor", "trace", "timer"], ["loop_monitor", "trace", "event"], ["loop_statistics", "trace"], ["loop_monitor", "loop_statistics", "trace", "event"]])
            if timed: sv = ["loop_monitor", "trace"] + (["timer"] if r.random() < 0.6 else [])
            r.shuffle(sv)
            c["CALI_SERVICES_ENABLE"] = ",".join(sv)
            k = r.random()
            if timed: c["CALI_LOOP_MONITOR_TIME_INTERVAL"] = r.choice(["0.00005", "0.0002", "0.001"])
            elif k < 0.6: c["CALI_LOOP_MONITOR_ITERATION_INTERVAL"] = str(r.choice([1, 1, 2, 3, 4, 5, 10]))
            elif k < 0.7: c["CALI_LOOP_MONITOR_TIME_INTERVAL"] = "0.000000000001"
            elif k < 0.8: c["CALI_LOOP_MONITOR_ITERATION_INTERVAL"] = str(r.choice([2, 5])); 
            if r.random() < 0.5:
                l = r.sample(names, r.choice([1, 1, 2, 3]))
                c["CALI_LOOP_MONITOR_TARGET_LOOPS"] = ",".join('"%s"' % x if re.search("[ ,]", x) else x for x in l)
            return c
        ops, names2 = [], ["c0"] + (["c1"] if r.random() < 0.3 and not report else [])
        pend = list(names2)
        self.budget = r.choice([10, 40, 80]) if tier == "quick" else r.choice([10, 40, 100, 300])
        def newch():
            if pend: ops.append(["chnew", 0, pend.pop(0), True, cfg()])
        if not report:
            if r.random() < 0.8: newch()
        else: ops.append(["report", {"iteration_interval": r.choice([1, 2, 3, 7, 50]), "maxrows": r.choice([None, 0, 3, 20]), "targets": r.choice([[], [], [r.choice(names)], ["main", "b"]])}])
        def other(d):
            k = r.random()
            if k < 0.35: s = r.choice(["f", "g"]); ops.append(["rb", 0, s]); body(d + 1, 2); ops.append(["re", 0, s])
            elif k < 0.5: ops.append(["b", 0, "nm", "nm.x", ["string", "v"]]); ops.append(["e", 0, "nm", "nm.x"])
            elif k < 0.6: ops.append(["s", 0, "nm", "ns.x", ["int", r.randrange(5)]])
            elif k < 0.7: ops.append(["rb", 1, "w"]); ops.append(["re", 1, "w"])
            elif k < 0.76: newch()
            elif k < 0.82: ops.append(["push", 0, []])
            elif timed or k < 0.85: ops.append(["busy", 0, r.choice([5, 60, 150])])
        def loop(d):
            mac = r.random() < 0.4
            nm = r.choice(names)
            n = min(r.choice([0, 1, 2, 3, 5, 8, 12, 20, 40]), self.budget)
            self.budget -= n
            start, step = r.choice([0, 0, 0, 1, 5, 100] + ([] if simple else [-3, 2**31 - 60])), r.choice([1, 1, 1] + ([] if simple else [0, 2, -1]))
            ops.append(["mlb" if mac else "lp", 0, nm])
            gap = r.choice([0.0, 0.1])     # statements between iterations
            inner = r.random() * 0.25
            for k in range(n):
                ops.append(["mib" if mac else "it", 0, start + k * step])
                if r.random() < 0.3 or timed: other(d + 1)
                if d < 3 and r.random() < inner: loop(d + 1)
                ops.append(["mie", 0] if mac else ["pop", 0])
                if r.random() < gap: other(d + 1)
            if mac: ops.append(["mle", 0])
            else:
                if r.random() < 0.3: ops.append(["lpend", 0])
                ops.append(["pop", 0])
        def body(d, n):
            for _ in range(r.randrange(n + 1)):
                if d < 4 and r.random() < 0.6 and self.budget > 0: loop(d)
                else: other(d)
        for _ in range(r.randrange(1, 5)):
            loop(0)
            if r.random() < 0.5: other(0)
            if r.random() < 0.1: ops.append(["dump", 0, "c0"])
        newch()
        return {"ops": ops, "consec": simple}

    def world(self, case): return LWorld([o for o in case["ops"] if o[0] != "report"])

    def run(self, ctx, case):
        rep = [o[1] for o in case["ops"] if o[0] == "report"]
        ops = [o for o in case["ops"] if o[0] != "report"]
        if len(rep) > 1 or (rep and case["ops"][0][0] != "report"): return None
        for o in ops:
            if o[0] in ("it", "mib") and rep and o[2] < 0: return None
            if o[0] in ("lp", "mlb") and rep and not re.fullmatch("[a-z]+", o[2]): return None
            if o[0] == "chnew":
                sv = o[4].get("CALI_SERVICES_ENABLE", "").split(",")
                if "trace" not in sv or not set(sv) & {"loop_monitor", "loop_statistics"}: return None
                if rep: return None
                if not re.fullmatch("[0-9]+", o[4].get("CALI_LOOP_MONITOR_ITERATION_INTERVAL", "1")) or not re.fullmatch(r"0\.[0-9]*[1-9]", o[4].get("CALI_LOOP_MONITOR_TIME_INTERVAL", "0.1")): return None
                t = o[4].get("CALI_LOOP_MONITOR_TARGET_LOOPS", "a")
                if not re.fullmatch('("[^"]+"|[^", ]+)(,("[^"]+"|[^", ]+))*', t): return None
        if rep: return self.report(ctx, case, rep[0], ops)
        LWorld.pushed = any(o[0] == 'push' for o in ops)
        LWorld.consec = case["consec"]
        w = LWorld(ops)
        while w.thread(0).objs: w.op_pop(0)
        w.finish()
        res = ctx.drv().run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        nl = sum(1 for o in ops if o[0] in ("lp", "mlb"))
        tm = any(x.time >= 1e-6 for x in w.mon.values())
        return dict(tags=["loops%d" % min(nl, 4)] + (["timed"] if tm else []) + (["time trigger due"] if w.stats["must"] else []) + (["statistics"] if any(x.stat for x in w.mon.values()) else []) + (["targets"] if any(x.names for x in w.mon.values()) else []) + (["macros"] if any(o[0] == "mlb" for o in ops) else []),
                    nontrivial=w.stats["iterations"] >= 5 and nl >= 2, show=w.lines[:50])

    def report(self, ctx, case, rep, ops):
        iv = rep["iteration_interval"]
        cfg = {"CALI_SERVICES_ENABLE": "loop_monitor,trace", "CALI_LOOP_MONITOR_ITERATION_INTERVAL": str(iv)}
        if rep["targets"]: cfg["CALI_LOOP_MONITOR_TARGET_LOOPS"] = ",".join(rep["targets"])
        if iv < 1: return None
        w = LWorld([["chnew", 0, "c0", True, cfg]] + ops)
        while w.thread(0).objs: w.op_pop(0)
        q = "loop-report(iteration_interval=%d,output=stdout" % iv
        if rep["targets"]: q += ",target_loops=" + (rep["targets"][0] if len(rep["targets"]) == 1 else '"%s"' % ",".join(rep["targets"]))
        if rep["maxrows"] is not None: q += ",timeseries.maxrows=%d" % rep["maxrows"]
        k = next(k for k, l in enumerate(w.lines) if " chnew " in " " + l + " ")
        prog = w.lines[:k] + ["0 cm new m", "0 cm add m " + enc(q + ")"), "0 cm start m"] + w.lines[k + 1:] + ["0 cm flush m", "0 cm del m"]
        rows, series = {}, {}
        for sure, n, s, rec, _ in w.mon["c0"].points:
            path = [v[1] for e in rec if e[0] == "R" for nn, v in e[1] if nn == "loop"]
            if not path: continue
            rows.setdefault("/".join(path), 0); rows["/".join(path)] += n
            series.setdefault(path[-1], []).append((n, s))
        res = ctx.drv().run(prog)
        out = res.out
        if "0 cm add" in prog and "1 " not in res.res.get(k + 1, ""): raise Fail("loop-report: configuration rejected: " + res.res.get(k + 1, ""))
        sec = re.split(r"\n(Loop summary:|Iteration summary \((.*?)\):)\n-+\n\n", out)
        tables = []
        for j in range(1, len(sec), 3): tables.append((sec[j + 1], sec[j + 2]))
        if not tables or tables[0][0] is not None: raise Fail("loop-report: no loop summary: " + out[:500])
        got = {}
        for l in tables[0][1].split("\n")[1:]:
            f = l.split()
            if not f: continue
            if len(f) < 4: raise Fail("loop-report: malformed summary row %r" % l)
            if f[0] in got: raise Fail("loop-report: loop %s listed twice:\n%s" % (f[0], out))
            got[f[0]] = int(f[1])
            if len(f) >= 6:
                lo, hi, avg = map(float, f[3:6])
                if not (lo <= avg * 1.001 + 1e-3 and avg <= hi * 1.001 + 1e-3): raise Fail("loop-report rates: minimum %s, average %s, maximum %s iterations per second for loop %s" % (f[3], f[5], f[4], f[0]))
        want = {k: v for k, v in rows.items()}
        if got != want: raise Fail("loop-report summary: iterations are %s, expected %s\n%s" % (got, want, out[:1500]))
        for name, text in tables[1:]:
            n = sum(int(l.split()[1]) for l in text.split("\n")[1:] if len(l.split()) >= 3)
            if n != sum(x for x, s in series.get(name, [])): raise Fail("loop-report time series: %d iterations of %s, expected %s\n%s" % (n, name, series.get(name), out[:1500]))
        exp = {k.split("/")[-1] for k, v in rows.items() if v > 0}
        if {n for n, _ in tables[1:]} != exp: raise Fail("loop-report time series for loops %s, expected %s" % ({n for n, _ in tables[1:]}, exp))
        return dict(tags=["report"], nontrivial=sum(rows.values()) >= 5 and len(rows) >= 1, show=prog[:30])
CHECK = C10

"""C37: sampling leaves annotations intact, and every sample shows a state the thread was in."""
from vf.engine import Check, Fail
from vf.driver import enc, dec
from vf.model import *
from vf.rt import World, parse_rec, compare_records, canon, thr_of, show
from checks import rtgen
from checks.c33 import BWorld, config_text, labels, show_text
from checks.c43 import table_, tame
import json

PC = "cali.sampler.pc"

class SWorld(World):
    """keeps, per thread, the sequence of annotation states and recorded events"""
    def __init__(self, ops, agg):
        self.tl, self.agg, self.work, self.events, self.rcount = {}, agg, {}, {}, {}
        self.born, self.ended = {}, False
        super().__init__(); self.start()
        self.clock = [self.emit(0, "now")]
        for op in ops: self.do(op); self.note()
    def c0(self): return self.ch("c0")
    def thread(self, tid):
        new = tid not in self.threads
        t = super().thread(tid)
        if new and self.c0() and self.c0().alive: self.born[t.inc] = True
        if new: self.note()
        return t
    def note(self):
        ch = self.c0()
        on = bool(ch and ch.alive and ch.active)
        for t in self.threads.values():
            l = self.tl.setdefault(t.inc, [])
            x = ("S", canon(self.snapshot(t)), on)
            k = next((y for y in reversed(l) if y[0] == "S"), None)
            if k != x: l.append(x)
    def begin(self, t, a, v): super().begin(t, a, v); self.note()
    def set(self, t, a, v): super().set(t, a, v); self.note()
    def end(self, t, a, check=None): super().end(t, a, check); self.note()
    def record(self, ch, t, repl=None, extra=()):
        rec = self.snapshot(t, repl, extra)
        if ch.idx == self.c0().idx:
            self.tl.setdefault(t.inc, []).append(("R",))
            k = tuple(sorted(repr(e) for e in rec if e[0] == "R")); self.events[k] = self.events.get(k, 0) + 1
            n = sum(e[2][1] for e in extra if e[0] == "I" and e[1] == "region.count")
            self.rcount[k] = self.rcount.get(k, 0) + n
        ch.recs.append((t.inc, rec))
    def op_chnew(self, tid, c, active, cfg):
        if c == "c0" and c not in self.chname: self.born[self.thread(tid).inc] = True
        return super().op_chnew(tid, c, active, cfg)
    def op_mwork(self, tid, us): self.spin(tid, "mwork", us)
    def op_busy(self, tid, us): self.spin(tid, "busy", us)
    def spin(self, tid, what, us):
        t = self.thread(tid); us = max(0, min(int(us), 5000))
        self.emit(tid, what, us)
        if self.c0() and self.c0().alive and self.c0().active and self.born.get(t.inc): self.work[t.inc] = self.work.get(t.inc, 0) + us
    def op_dump(self, tid, c):
        if c != "c0" or not self.c0(): return super().op_dump(tid, c)
        on = self.c0().active  # samples during a dump could keep it busy forever
        if on: self.op_chdeact(tid, c); self.note()
        if not self.agg: super().op_dump(tid, c)
        if on and not self.ended: self.op_chact(tid, c); self.note()
    def project(self, entries): return [e for e in super().project(entries) if not (e[0] == "I" and e[1].startswith("time."))]
    def op_chclear(self, *a): pass
    def op_chdel(self, *a): pass

    def check_records(self, text, want, c):
        if c != "c0": return super().check_records(text, want, c)
        recs = [parse_rec(l) for l in text.split("\n") if l]
        strip = lambda r: [e for e in self.project(r) if not (e[0] == "I" and e[1].startswith("time."))]
        m = compare_records([strip(r) for r in recs if not any(e[0] == "I" and e[1] == PC for e in r)], want, "events of channel " + c)
        if m: return m
        per, self.samples = {}, {}
        for r in recs: per.setdefault(thr_of(r), []).append((any(e[0] == "I" and e[1] == PC for e in r), strip(r)))
        for t, l in per.items():
            self.samples[t] = sum(s for s, _ in l)
            if t is None or t not in self.tl: continue
            tl = self.tl[t]; cur = p = 0; nr = 0
            for k, (s, r) in enumerate(l):
                if not s:
                    while tl[p][0] != "R": p += 1
                    p += 1; nr += 1
                    cur = max([cur] + [i for i in range(cur, p) if tl[i][0] == "S"])
                    continue
                x = canon(r); i = cur
                while i < len(tl) and (i < p or tl[i][0] == "S") and not (tl[i][0] == "S" and tl[i][2] and tl[i][1] == x): i += 1
                if i >= len(tl) or tl[i][0] != "S":
                    near = [y for y in tl[cur:cur + 3] if y[0] == "S"]
                    if any(y[1] == x and not y[2] for y in near): return "inactive: sample %d of thread %s (after event %d) was taken while the channel was inactive: %s" % (k, t, nr, show(r))
                    return "sample %d of thread %s (after event %d) shows a state that the thread was not in then: %s; states were %s" % (k, t, nr, show(r), [y[1:] for y in near])
                cur = i
        return None

class PWorld(BWorld):
    """keeps the region paths of each thread while the configurations measure, and the work done in each"""
    def __init__(self, ops, confs):
        self.seen, self.inpath, self.on, self.fl = {()}, {}, False, []
        super().__init__(ops, confs)
    def path(self, t):
        p = ()
        for e in self.snapshot(t):
            if e[0] == "R":
                q = tuple((n, show_text(*v)) for n, v in e[1] if n in self.attrs and self.attrs[n].props & NESTED)
                if q: p = q
        return labels(p)
    def begin(self, t, a, v): super().begin(t, a, v); self.note()
    def set(self, t, a, v): super().set(t, a, v); self.note()
    def end(self, t, a, check=None): super().end(t, a, check); self.note()
    def do(self, op): super().do(op); self.note()
    def note(self):
        if self.on:
            for t in self.threads.values(): self.seen.add(tuple(self.path(t)))
    def project(self, entries):   # the pthread service is part of the configurations
        out = [["R", [x for x in e[1] if not x[0].startswith("pthread.")], *e[2:]] if e[0] == "R" else e for e in super().project(entries)]
        return [e for e in out if e[0] != "R" or e[1]]
    def op_cm(self, tid, what):
        if tid: return
        if what == "flush" and self.started: self.fl.append((set(self.seen), dict(self.inpath), len(self.lines)))
        super().op_cm(tid, what)
        if self.started and what in ("start", "stop"): self.on = what == "start"
    def op_busy(self, tid, us):
        t = self.thread(tid); us = max(0, min(int(us), 5000))
        self.emit(tid, "busy", us)
        if self.on: p = tuple(self.path(t)); self.inpath[p] = self.inpath.get(p, 0) + us

class C37(Check):
    id = "C37"
    rule = ("generated annotation histories on 1-4 threads with computing and allocating work in between, measured by a channel with the sampler (1-10 kHz, traced or aggregated, with and without timer) that is paused now and then, next to a second "
            "channel without it: event records, the other channel and all query results equal the model; every sample lies, in order, in one of the states the thread was in between the neighbouring events while the channel was active; "
            "the number of samples fits the time that passed; in a quarter of the cases sample-report or sample-profile measures instead: every row is a path some thread was in, every path with enough work has a row, times are samples by frequency; non-trivial: at least 10 samples")
    assumptions = ["threads that existed before the channel are not sampled", "the trace buffer does not overflow"]
    quick, thorough = 1200, 20000
    flavors = ("asan", "plain")
    flaky = True

    def gen_report(self, r, tier):
        o = {"sample.frequency": r.choice(["10000", "5000", "2000", "1000"])}
        if r.random() < 0.75: o["source.function"] = "false"
        if r.random() < 0.5: name = "sample-report"; o["output"] = "out.txt"; o.update({"aggregate_across_ranks": "false"} if r.random() < 0.6 else {})
        else:
            name = "sample-profile"; o["output"] = r.choice(["out", "out.json"]); o["output.format"] = "json"
            if r.random() < 0.5: o["use.mpi"] = "false"
            if o.get("source.function") or r.random() < 0.5: o["source.module"] = "false"
        confs = [{"name": name, "o": dict(r.sample(list(o.items()), len(o)))}]
        pause = r.random() < 0.3
        def extra(rr, w, t):
            if pause and rr.random() < 0.15: return ["cm", 0, "stop" if w.on else "start"]
            return ["busy", t, rr.choice([100, 500, 2000, 5000])]
        ops = rtgen.history(r, nthreads=r.choice([1, 2, 3]), channels=False, query=0.0, flush=0, extra_op=extra, xprob=0.45, usr=False, proc=0.0, nattr=r.choice([1, 2]), length=r.choice([10, 20, 40]), big=tier != "quick", prefix=[["cm", 0, "start"]], world=lambda: PWorld([], confs))
        return {"confs": confs, "ops": tame(ops) + [["cm", 0, "flush"]]}

    def run_report(self, ctx, case):
        for o in case["ops"]:
            if o[0] in ("attr", "attrc", "ann"):
                p = o[5] if o[0] != "ann" else o[4]
                if p & NESTED and (o[0] == "ann" or o[4] != "string" or p & (GLOBAL | UNALIGNED | ASVALUE | 60)) or p & (HIDDEN | NOMERGE): return None
            if "" in o or ["string", ""] in o: return None
        w = PWorld(case["ops"], case["confs"])
        if len(w.fl) != 1: return None
        res = ctx.drv("plain").run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        c = case["confs"][0]; o = c["o"]; what = config_text(c); hz = int(o["sample.frequency"])
        for l in w.adds:
            if dec(res.res[l]).strip() != "1 -": raise Fail("config: %s: %s" % (w.lines[l], res.res[l]))
        seen, work, line = w.fl[0]
        f = "out.json" if c["name"] == "sample-profile" else "out.txt"
        text = res.files.get(f)
        if text is None: raise Fail("output: %s wrote no file" % what)
        fun = o.get("source.function") != "false"; mod = c["name"] == "sample-profile" and o.get("source.module") != "false"
        got = {}
        if c["name"] == "sample-profile":
            try: recs = json.loads(text) if text.strip() else []
            except ValueError as e: raise Fail("json: %s: %r" % (e, text[:300]))
            for x in recs:
                if set(x) - {"path", "count", "time", "Function", "Module"} or "Function" in x and not fun or "Module" in x and not mod: raise Fail("columns: %s has %s" % (what, sorted(x)))
                if "count" not in x: raise Fail("count: a row of %s has no count: %s" % (what, x))
                n = int(x["count"]); k = x.get("path", "")
                if abs(float(x["time"]) - n / hz) > 1e-5 * n / hz + 1e-6: raise Fail("time: %d samples at %d Hz make %s s in %s" % (n, hz, x["time"], x))
                got[k] = got.get(k, 0) + n
        elif text.split() not in ([], ["Path"]):
            cross = "aggregate_across_ranks" not in o
            cols = ["Min time/rank", "Max time/rank", "Avg time/rank", "Total time", "Time %"] if cross else ["Samples", "Time (sec)"]
            head = next(l for l in text.split("\n") if l.strip())
            rows, _ = table_(text, cols + (["Function"] if fun and "Function" in head else []), "Path")
            stack = []; pct = 0.0
            for t, x in rows:
                if t.strip() not in ("", "|", "|-"):
                    d = (len(t) - len(t.lstrip(" "))) // 2
                    del stack[d:]; stack.append(t.strip())
                if not x[cols[0]]:
                    if any(x[k] for k in cols): raise Fail("row: %s shows %s" % (what, x))
                    continue
                if cross:
                    if len({x[k] for k in cols[:4]}) != 1: raise Fail("time: one process, but %s" % x)
                    n = round(float(x["Total time"]) * hz); tm = x["Total time"]; pct += float(x["Time %"])
                else: n = int(x["Samples"]); tm = x["Time (sec)"]
                if abs(float(tm) - n / hz) > 1e-5 * n / hz + 1e-6: raise Fail("time: %d samples at %d Hz make %s s in %s" % (n, hz, tm, x))
                k = "/".join(stack); got[k] = got.get(k, 0) + n
            if pct > 100.1: raise Fail("percent: the rows of %s are %s percent" % (what, pct))
        n = sum(got.values()); us = (int(res.res[w.reads[-1]]) - int(res.res[w.reads[0]])) / 1e3
        names = {"/".join(p) for p in seen}
        for k in got:
            if k not in names: raise Fail("path: %s shows %r, where the program was not; it was in %s" % (what, k, sorted(names)))
        if n > (us * hz / 1e6 * 1.02 + 3) * max(1, len(w.threads), w.ninc): raise Fail("too many samples: %d in %d microseconds at %d Hz on %d threads" % (n, us, hz, len(w.threads)))
        tree = c["name"] == "sample-report"
        for p, x in work.items():
            if x * hz >= 80e6 and (p or not tree) and not got.get("/".join(p)): raise Fail("no samples: the program worked for %d microseconds in %r at %d Hz; %s shows %s" % (x, p, hz, what, got))
        return dict(tags=[c["name"]] + (["function"] if fun else []) + (["paused"] if any(q[0] == "cm" and q[2] == "stop" for q in case["ops"]) else []), nontrivial=n >= 10 and len(got) >= 2, show=dict(config=what, program=[x for x in w.lines if not x.endswith(" now")][:40]))

    def gen(self, r, i, tier):
        if r.random() < 0.25: return self.gen_report(r, tier)
        agg = r.random() < 0.3
        cfg = {"CALI_SERVICES_ENABLE": "event,sampler," + ("aggregate" if agg else "trace") + r.choice(["", ",timer"]), "CALI_SAMPLER_FREQUENCY": r.choice(["10000", "10000", "5000", "2000", "1000"])}
        if agg: cfg["CALI_EVENT_ENABLE_SNAPSHOT_INFO"] = "false"
        pause = r.random() < 0.4
        def extra(rr, w, t):
            k = rr.random()
            if k < 0.45: return ["busy", t, rr.choice([50, 200, 500, 2000])]
            if k < 0.8: return ["mwork", t, rr.choice([50, 200, 1000])]
            if k < 0.9 and pause: return [rr.choice(["chact", "chdeact"]), t, "c0"]
            return ["dump", t, "c0"]
        ops = rtgen.history(r, channels=True, chcfg=cfg, extra_op=extra, xprob=0.25, length=r.choice([10, 20, 40, 80, 150]), query=0.1, big=tier != "quick")
        return {"ops": ops, "agg": agg, "two": r.random() < 0.4}

    def run(self, ctx, case):
        if "confs" in case: return self.run_report(ctx, case)
        ops = [o for o in case["ops"] if o[0] not in ("chclear", "chdel")]
        if case["two"]: ops = [["chnew", 0, "c9", True, {}]] + ops
        w = SWorld(ops, case["agg"])
        if not w.c0(): return None
        w.samples = {}
        w.ended = True; w.finish()
        w.clock.append(w.emit(0, "now"))
        if case["agg"]: line = w.emit(0, "dump", w.c0().idx)
        res = ctx.drv().run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        n = sum(w.samples.values())
        if case["agg"]: n = self.rows(w, dec(res.res.get(line, "")))   # an empty result is not printed
        us = (int(res.res[w.clock[1]]) - int(res.res[w.clock[0]])) / 1e3
        hz = self.freq(case)
        for t, k in w.samples.items():
            if k > us * hz / 1e6 * 1.02 + 3 and t is not None: raise Fail("too many samples: thread %s has %d samples in %d microseconds at %d Hz" % (t, k, us, hz))
        for t, x in w.work.items():
            if x * hz >= 60e6 and not case["agg"] and not w.samples.get(t): raise Fail("no samples: thread %s worked for %d microseconds at %d Hz" % (t, x, hz))
        if case["agg"] and sum(w.work.values()) * hz >= 60e6 * max(1, len(w.work)) and n <= 0: raise Fail("no samples: threads worked for %s microseconds at %d Hz" % (w.work, hz))
        return dict(tags=["aggregate" if case["agg"] else "trace", "threads%d" % min(w.ninc, 4)] + (["second channel"] if case["two"] else []) + (["paused"] if any(o[0] == "chdeact" for o in ops) else []) + (["samples"] if n else []), nontrivial=n >= 10, show=w.lines[:30])

    def freq(self, case):
        return next(int(o[4].get("CALI_SAMPLER_FREQUENCY", 50)) for o in case["ops"] if o[0] == "chnew" and o[2] == "c0")

    def rows(self, w, text):
        """event counts of the profile are exact; rows belong to states the threads were in"""
        ok = set()
        for l in w.tl.values():
            for x in l:
                if x[0] == "S": ok.add(tuple(sorted(e for e in x[1] if e.startswith("('R'"))))
        cnt, rc = {}, {}
        for l in text.split("\n"):
            if not l: continue
            r = parse_rec(l)
            k = tuple(sorted(repr(e) for e in w.project(r) if e[0] == "R"))
            imm = {e[1]: e[2][1] for e in r if e[0] == "I"}
            if not r or "count" not in imm: continue
            cnt[k] = cnt.get(k, 0) + imm["count"]; rc[k] = rc.get(k, 0) + imm.get("sum#region.count", 0)
        for k in cnt:
            if k not in ok and k not in w.events: raise Fail("profile: row %s is not a state of any thread" % (k,))
        for k, n in w.events.items():
            if cnt.get(k, 0) < n: raise Fail("profile: row %s counts %d records, %d events were recorded" % (k, cnt.get(k, 0), n))
        for k in set(w.rcount) | set(rc):
            if rc.get(k, 0) != w.rcount.get(k, 0): raise Fail("profile: row %s has region.count %d, expected %d" % (k, rc.get(k, 0), w.rcount.get(k, 0)))
        return sum(cnt.values()) - sum(w.events.values())

CHECK = C37

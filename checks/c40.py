"""C40: services compose: enabling more of them does not change what is recorded."""
from vf.engine import Check, Fail
from vf.driver import enc, dec
from vf.model import *
from vf.rt import World, parse_rec, compare_records
from checks import rtgen

# services that observe; the records they trigger themselves carry one of the markers
OBSERVE = ["validator", "statistics", "region_monitor", "loop_monitor", "loop_statistics", "timeseries", "cpuinfo", "memstat", "debug", "callpath", "timer", "timestamp", "alloc", "allocstats", "async_event", "kokkostime", "kokkoslookup", "pthread", "sysalloc", "io", "symbollookup"]
MARKERS = ("count", "aggregate.count", "alloc.total_size", "alloc.tally", "loop.iterations", "iter.duration.ns", "iter.count", "event.set#pthread.id")
CONFIG = {"CALI_REGION_MONITOR_TIME_INTERVAL": ["0", "0.000001"], "CALI_LOOP_MONITOR_ITERATION_INTERVAL": ["1", "3"], "CALI_TIMER_INCLUSIVE_DURATION": ["true"], "CALI_ALLOC_RECORD_ACTIVE_MEM": ["true"], "CALI_ALLOCSTATS_RECORD_HIGHWATERMARK": ["true"], "CALI_CALLPATH_USE_NAME": ["true"],
          "CALI_TIMESERIES_PROFILE_OPTIONS": ["profile.mpi"], "CALI_LOOP_MONITOR_TIME_INTERVAL": ["0.00001"]}

class SWorld(World):
    reserved = ("pthread.id", "pthread.is_master")
    def __init__(self, ops):
        super().__init__(); self.start()
        for op in ops: self.do(op)
    def known(self, n):
        b = n.split("#", 1)[1] if n.startswith(("event.begin#", "event.set#", "event.end#")) else n
        return b in self.attrs and b not in self.reserved
    def project(self, entries):
        out = []
        for e in super().project(entries):
            if e[0] == "R":
                p = tuple(x for x in e[1] if self.known(x[0]))
                if p: out.append(("R", p))
            elif e[0] == "I" and self.known(e[1]): out.append(e)
        return out
    def check_records(self, text, want, c):
        ch = self.chname[c]; got = []
        triggered = "region_monitor" in ch.cfg["CALI_SERVICES_ENABLE"].split(",")
        ev = lambda rec: any(n.startswith("event.") for e in rec for n in ([e[1]] if e[0] == "I" else [x[0] for x in e[1]] if e[0] == "R" else []))
        for l in text.split("\n"):
            if not l: continue
            raw = parse_rec(l)
            names = set(e[1] for e in raw if e[0] == "I") | set(n for e in raw if e[0] == "R" for n, v in e[1])
            if any(m in names for m in MARKERS) or any(n.split("#")[-1].startswith("io.") for n in names): continue
            rec = self.project(raw)
            if triggered and not ev(rec): continue
            got.append(rec)
        if triggered: want = [x for x in want if ev(x[1])]
        return compare_records(got, want, "channel " + c)

class C40(Check):
    id = "C40"
    rule = ("annotation histories (as in C01-C03, with begin/end/set, explicit snapshots, 1-4 threads, mistakes, channel creation, deletion, clearing, (de)activation and dumps) under 1-3 channels, each with event and trace plus 1-6 random other services out of 21 (validator, statistics, region_monitor, loop_monitor, loop_statistics, timeseries, cpuinfo, memstat, debug, callpath, timer, timestamp, alloc, allocstats, async_event, kokkostime, kokkoslookup, pthread, sysalloc, io, symbollookup) in random order and configuration; "
            "the trace of every channel, projected to the program's attributes and without the records the added services trigger, must be the one the annotation model gives for event and trace alone, and nothing may crash (ASan); non-trivial: at least 5 records")
    assumptions = ["region_monitor, loop_monitor and loop_statistics are exercised with one thread at a time", "what the added services themselves record is the subject of other properties"]
    quick, thorough = 1500, 50000

    def gen(self, r, i, tier):
        def cfg():
            sv = ["event", "trace"] + r.sample(OBSERVE, r.choice([1, 1, 2, 3, 6]))
            if "alloc" in sv and "allocstats" in sv: sv.remove("alloc")
            if r.random() < 0.9 and "symbollookup" in sv: sv.remove("symbollookup")
            r.shuffle(sv)
            c = {"CALI_SERVICES_ENABLE": ",".join(sv)}
            for k, v in CONFIG.items():
                if k[5:].lower().startswith(tuple(sv)) and r.random() < 0.6: c[k] = r.choice(v)
            return c
        def extra(rr, w, t):
            j = rr.random()
            if j < 0.25: return ["chnew", t, rr.choice(["c1", "c2"]), rr.random() < 0.8, cfg()]
            if j < 0.35: return ["chdel", t, rr.choice(["c0", "c1", "c2"])]
            if j < 0.45: return ["chclear", t, rr.choice(["c0", "c1", "c2"])]
            if j < 0.6: return ["dump", t, rr.choice(["c0", "c1", "c2"])]
            return [rr.choice(["chact", "chdeact"]), t, rr.choice(["c0", "c1", "c2"])]
        return {"ops": rtgen.history(r, channels=True, chcfg=cfg(), extra_op=extra, xprob=r.choice([0, 0.05, 0.2]), mistakes=r.choice([0, 0, 0.03]), world=lambda: SWorld([]), big=tier != "quick")}

    def world(self, case): return SWorld(case["ops"])
    def run(self, ctx, case):
        w = self.world(case)
        if not w.channels: return None
        w.finish()
        res = ctx.drv().run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        sv = set(s for ch in w.channels for s in ch.cfg["CALI_SERVICES_ENABLE"].split(","))
        return dict(tags=sorted(sv), nontrivial=w.stats["records"] >= 5, show=w.lines[:40])

CHECK = C40

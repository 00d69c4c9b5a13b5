"""C38: Kokkos tool hooks and timed asynchronous events are recorded exactly."""
from vf.engine import Check, Fail
from vf.driver import enc, dec
from vf.model import *
from vf.rt import World, parse_rec, thr_of
from checks import rtgen
from checks.c11 import MWorld

KIND = {"pf": "kokkos.parallel_for", "pr": "kokkos.parallel_reduce", "ps": "kokkos.parallel_scan", "fe": "kokkos.fence", "rg": "kokkos.user_region"}
DUR = "event.duration.ns"
SPACES = ["Host", "Cuda", "CudaUVM", "a b", "é", "x=y,z", "s" * 63]

class KWorld(MWorld):
    reserved = ("kokkos.space", "kokkos.size", "kokkos.src.addr", "kokkos.dst.addr", "async.begin", "async.end", "class.memoryaddress")
    def op_pull(self, tid, c): self.op_ctx(tid)
    def __init__(self, ops):
        self.kt, self.aev, self.adone = False, {}, {}
        super().__init__(ops)
    def svc(self, ch): return ch.cfg.get("CALI_SERVICES_ENABLE", "").split(",")
    def op_chnew(self, tid, c, active, cfg):
        sv = cfg.get("CALI_SERVICES_ENABLE", "").split(",")
        if c in self.chname: return
        if "kokkoslookup" in sv:
            self.thread(tid)
            self.mk("kokkos.space", "string", SKIP_EVENTS); self.mk("kokkos.size", "uint", ASVALUE | SKIP_EVENTS)
            for n in ("kokkos.src.addr", "kokkos.dst.addr"):
                if n in self.attrs: continue
                a = self.mk(n, "addr", ASVALUE | SKIP_EVENTS, [("class.memoryaddress", ("bool", True))]); self.isaddr.add(n)
                for m in self.mem.values():
                    if m.resolve: m.attrs.append(a)
        self.adone[c] = {}
        super().op_chnew(tid, c, active, cfg)
        m = self.mem[c]
        if "alloc" not in sv: m.resolve = m.track = m.active = m.hwm = False
        if "kokkostime" in sv: self.kt = True
    def lookup(self): return [ch for ch in self.channels if ch.alive and ch.active and "kokkoslookup" in self.svc(ch)]
    def op_kb(self, tid, kind, name):
        t = self.thread(tid)
        if kind not in KIND or "\0" in name: return
        self.emit(tid, "kb", kind, enc(name) or "%")
        if not self.kt: return
        self.mk("kernel_type", "string", SKIP_EVENTS)
        self.begin(t, self.attrs["kernel_type"], ("string", KIND[kind])); self.begin(t, self.attrs["region"], ("string", name))
        self.stats["kernels"] += 1
    def op_ke(self, tid, kind):
        t = self.thread(tid)
        if kind not in KIND: return
        if self.kt and "kernel_type" not in self.attrs: return
        self.emit(tid, "ke", kind)
        if not self.kt: return
        self.end(t, self.attrs["region"]); self.end(t, self.attrs["kernel_type"])
    def in_kernel(self, t):
        p = t.bb.p["R"]
        return len(p) >= 2 and p[-2][0] == "kernel_type" and p[-1][0] == "region"
    def op_ka(self, tid, space, name, ptr, size):
        t = self.thread(tid)
        if "\0" in name + space or len(space.encode()) > 63 or not space or not 0 < ptr < 2**62 or not 0 <= size < 2**40: return
        for m in self.mem.values():
            for s, b in m.live.items():
                if s != ptr and s < ptr + size and ptr < s + b["size"]: return
        self.emit(tid, "ka", enc(space), enc(name) or "%", "%x" % ptr, size)
        for ch in self.lookup():
            if "alloc" not in self.svc(ch): continue
            m = self.mem[ch.name]; m.uid += 1
            b = dict(size=size, esize=1, uid=m.uid, label=name, extra=(("kokkos.space", ("string", space)),), attrs=set(a.name for a in m.attrs[:4]))
            if m.track: self.record(ch, t, None, self.info(ptr, b, "mem.alloc", size))
            m.bytes += size - (m.live[ptr]["size"] if ptr in m.live else 0); m.high = max(m.high, m.bytes)
            m.live.pop(ptr, None); m.live[ptr] = b
            self.stats["alloc"] += 1
    def op_kd(self, tid, space, name, ptr, size):
        t = self.thread(tid)
        if "\0" in name + space or len(space.encode()) > 63 or not space or not 0 < ptr < 2**62 or not 0 <= size < 2**40: return
        self.emit(tid, "kd", enc(space), enc(name) or "%", "%x" % ptr, size)
        for ch in self.lookup():
            if "alloc" not in self.svc(ch): continue
            m = self.mem[ch.name]
            if ptr not in m.live: continue
            b = m.live.pop(ptr)
            if m.track: self.record(ch, t, None, self.info(ptr, b, "mem.free", -b["size"]))
            m.bytes -= b["size"]; self.stats["free"] += 1
    def op_kc(self, tid, dst, src, size):
        t = self.thread(tid)
        if not all(0 <= x < 2**62 for x in (dst, src, size)): return
        self.emit(tid, "kc", "%x" % dst, "%x" % src, size)
        for ch in self.lookup():
            self.record(ch, t, None, [("I", "kokkos.dst.addr", ("addr", dst)), ("I", "kokkos.src.addr", ("addr", src)), ("I", "kokkos.size", ("uint", size))]); self.stats["copies"] += 1
    def asy(self, t, what, msg):
        for ch in self.channels:
            if ch.alive and ch.active and "async_event" in self.svc(ch): self.record(ch, t, None, [("R", ((what, ("string", msg)),))]); self.stats["async"] += 1
    def op_ab(self, tid, k, msg):
        t = self.thread(tid)
        if "\0" in msg: return
        self.mk("async.begin", "string", SKIP_EVENTS); self.mk("async.end", "string", SKIP_EVENTS)
        self.emit(tid, "ab", k, enc(msg) or "%"); self.aev[k] = msg
        self.asy(t, "async.begin", msg)
    def op_ae(self, tid, k):
        t = self.thread(tid)
        if k not in self.aev: return
        l = self.emit(tid, "ae", k)
        for ch in self.channels:
            if ch.alive and ch.active and "async_event" in self.svc(ch): self.adone[ch.name].setdefault((t.inc, self.aev[k]), []).append(l)
        self.asy(t, "async.end", self.aev[k])
    def op_chclear(self, tid, c):
        super().op_chclear(tid, c)
        if c in self.adone: self.adone[c] = {}
    def op_dump(self, tid, c):
        if c in self.adone: self.snap = {k: list(v) for k, v in self.adone[c].items()}
        super().op_dump(tid, c)
        ch = self.ch(c)
        if ch and ch.alive:
            want = self.snap
            self.expect(len(self.lines) - 1, lambda r: self.durations(dec(r), want))
    def durations(self, text, want):
        got = {}
        for l in text.split("\n"):
            if not l: continue
            r = parse_rec(l)
            e = [v[1] for x in r if x[0] == "R" for n, v in x[1] if n == "async.end"]
            d = [x[2][1] for x in r if x[0] == "I" and x[1] == DUR]
            if len(e) != len(d): return "async.end and duration do not come together: %s" % l
            if e: got.setdefault((thr_of(r), e[0]), []).append(d[0])
        for k, ls in want.items():
            for l, d in zip(ls, got.get(k, [])):
                lo, hi = map(int, self.res.res[l].split(" "))
                if not lo <= d <= hi: return "event %r took between %d and %d ns, recorded %d" % (k[1], lo, hi, d)
        return None
    def project(self, entries): return [e for e in super().project(entries) if not (e[0] == "I" and e[1] == DUR)]
    def verify(self, res):
        self.res = res
        return super().verify(res)

class C38(Check):
    id = "C38"
    rule = ("generated histories of Kokkos tool hooks (parallel_for/reduce/scan, fences, user regions, allocations and deallocations in several spaces, deep copies) and timed asynchronous events, mixed with annotations on 1-4 threads, under 1-3 channels with "
            "kokkostime, kokkoslookup, alloc, async_event in all combinations that are created, paused, resumed and deleted in between; records of every channel equal the model, durations lie within clock readings around the calls; non-trivial: at least 8 hooks or events that are recorded")
    assumptions = ["kokkostime is enabled before the first Kokkos kernel or region begins", "live Kokkos allocations do not overlap"]
    quick, thorough = 3000, 80000

    def gen(self, r, i, tier):
        def cfg(first):
            sv = ["event", "trace"] if r.random() < 0.85 else ["trace"]
            for s, p in (("kokkostime", 0.75 if first else 0.3), ("kokkoslookup", 0.7), ("alloc", 0.6), ("async_event", 0.7)):
                if r.random() < p: sv.append(s)
            r.shuffle(sv)
            c = {"CALI_SERVICES_ENABLE": ",".join(sv)}
            for k, p in (("RESOLVE_ADDRESSES", 0.5), ("RECORD_ACTIVE_MEM", 0.3), ("RECORD_HIGHWATERMARK", 0.2)):
                if "alloc" in sv and r.random() < p: c["CALI_ALLOC_" + k] = "true"
            return c
        more = r.random() < 0.5
        names = rtgen.STR[:6] + ["Kokkos::View::init", "N6Kokkos4TypeE"]
        st = {"nxt": 0x1000, "n": 0}
        def extra(rr, w, t):
            k = rr.random(); th = w.thread(t)
            if k < 0.3: return ["kb", t, rr.choice(list(KIND)), rr.choice(names)]
            if k < 0.55:
                if w.in_kernel(th): return ["ke", t, rr.choice(list(KIND))]
                return None
            if k < 0.65:
                sz = rr.choice([0, 1, 8, 100, 4096, 10**6]); st["nxt"] += sz + rr.choice([0, 1, 64])
                return ["ka", t, rr.choice(SPACES), rr.choice(names), st["nxt"] - sz if sz else st["nxt"], sz] if st["nxt"] > sz else None
            live = sorted(set(p for m in w.mem.values() for p in m.live)) or [st["nxt"]]
            if k < 0.72: return ["kd", t, rr.choice(SPACES), rr.choice(names), rr.choice(live), 0]
            if k < 0.8: return ["kc", t, rr.choice(live) + rr.choice([0, 1, 7, 200]), rr.choice(live), rr.choice([0, 1, 8, 10**6, 2**40])]
            if k < 0.85: st["n"] += 1; return ["ab", t, str(rr.randrange(6)), rr.choice(names)]
            if k < 0.9: return ["ae", t, rr.choice(list(w.aev))] if w.aev else ["ab", t, "0", "m"]
            if not more: return ["dump", t, "c0"]
            j = rr.random()
            if j < 0.3: return ["chnew", t, rr.choice(["c1", "c2"]), rr.random() < 0.8, cfg(False)]
            if j < 0.45: return ["chdel", t, rr.choice(["c0", "c1", "c2"])]
            return [rr.choice(["chact", "chdeact"]), t, rr.choice(["c0", "c1", "c2"])]
        return {"ops": rtgen.history(r, channels=True, chcfg=cfg(True), extra_op=extra, xprob=0.5, query=0.12, world=lambda: KWorld([]), big=tier != "quick")}

    def world(self, case): return KWorld(case["ops"])
    def run(self, ctx, case):
        w = self.world(case)
        if not w.channels: return None
        w.finish()
        res = ctx.drv().run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        n = sum(w.stats[k] for k in ("kernels", "alloc", "free", "copies", "async"))
        return dict(tags=[k for k in ("kernels", "alloc", "free", "copies", "async", "hits") if w.stats[k]] + ["channels%d" % len(w.channels), "threads%d" % min(w.ninc, 4)] + (["deleted"] if any(not c.alive for c in w.channels) else []), nontrivial=n >= 8, show=w.lines[:40])

CHECK = C38

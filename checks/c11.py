"""C11: tracked allocations are accounted exactly."""
from vf.engine import Check, Fail, Invalid
from vf.driver import enc, dec
from vf.model import *
from vf.rt import World, parse_rec, compare_records, show
from checks import rtgen

MASK = 2**64 - 1
MAXATTR = 4

class Mem:
    """what the alloc service of one channel must know"""
    def __init__(self, cfg):
        on = lambda k, d: cfg.get("CALI_ALLOC_" + k, d) == "true"
        self.resolve, self.track, self.active, self.hwm = on("RESOLVE_ADDRESSES", "false"), on("TRACK_ALLOCATIONS", "true"), on("RECORD_ACTIVE_MEM", "false"), on("RECORD_HIGHWATERMARK", "false")
        self.live = {}; self.uid = 0; self.bytes = 0; self.high = 0
        self.attrs = []

class Tally:
    """what the allocstats service of one channel must know: allocations made inside of regions"""
    def __init__(self, cfg):
        self.hwm = cfg.get("CALI_ALLOCSTATS_RECORD_HIGHWATERMARK", "false") == "true"
        self.live, self.regs, self.bytes, self.high = {}, {}, 0, 0
    def alloc(self, path, ptr, size):
        if not path: return
        self.free(ptr)     # an allocation at the address of a live one replaces it
        r = self.regs.setdefault(path, dict(now=0, total=0, max=0, high=0, n=0))
        r["now"] += size; r["total"] += size; r["max"] = max(r["max"], size); r["high"] = max(r["high"], r["now"]); r["n"] += 1
        self.live[ptr] = (path, size); self.bytes += size; self.high = max(self.high, self.bytes)
    def free(self, ptr):
        if ptr not in self.live: return False
        path, size = self.live.pop(ptr)
        self.bytes -= size; self.regs[path]["now"] -= size
        return True
    def clear(self):
        for r in self.regs.values(): r.update(total=0, max=0, n=0, high=r["now"])
    def records(self):
        return sorted([(k, r["high"], r["n"], r["max"], r["total"] // r["n"]) for k, r in self.regs.items() if r["n"]], key=repr)
TALLY = ("alloc.tally", "alloc.count", "max#alloc.size", "avg#alloc.size")

class MWorld(World):
    """World with the alloc and allocstats services"""
    def __init__(self, ops):
        self.mem = {}; self.isaddr = set(); self.tally = {}
        super().__init__(); self.start()
        for op in ops: self.do(op)
    def op_chnew(self, tid, c, active, cfg):
        n = len(self.channels)
        super().op_chnew(tid, c, active, cfg)
        if len(self.channels) > n:
            ch = self.channels[-1]
            if "allocstats" in ch.cfg["CALI_SERVICES_ENABLE"].split(","): self.tally[ch.name] = Tally(ch.cfg); return
            m = self.mem[ch.name] = Mem(ch.cfg)
            if m.resolve: m.attrs = [a for a in self.attrs.values() if a.name in self.isaddr]
    def op_adr(self, tid, H, name, props):
        """an attribute whose values are memory addresses"""
        self.thread(tid)
        if name in self.attrs or not H or H.startswith("B."): return
        if "class.memoryaddress" not in self.attrs:
            self.mk("class.memoryaddress", "bool", SKIP_EVENTS); self.h["B.ma"] = "class.memoryaddress"
            self.emit(tid, "attr", "B.ma", "class.memoryaddress", "bool", SKIP_EVENTS)
        self.emit(tid, "attr", H, enc(name), "addr", props, "B.ma", "b:1")
        a = self.mk(name, "addr", props, [("class.memoryaddress", ("bool", True))]); self.h[H] = name
        self.isaddr.add(name)
        for m in self.mem.values():
            if m.resolve: m.attrs.append(a)
    def record(self, ch, t, repl=None, extra=()):
        extra = list(extra); m = self.mem.get(ch.name)
        if not m:
            m = self.tally[ch.name]
            if m.hwm: extra.append(("I", "alloc.region.highwatermark", ("uint", m.high))); m.high = m.bytes
            return super().record(ch, t, repl, extra)
        svc = []
        if m.active: svc.append(("I", "mem.active", ("uint", m.bytes)))
        if m.resolve:
            for a in m.attrs[:MAXATTR]:
                v = None
                for e in extra:
                    if e[0] == "I" and e[1] == a.name: v = e[2][1]; break
                    if e[0] == "R":
                        x = [w for n, w in e[1] if n == a.name]
                        if x: v = x[-1][1]; break
                if v is None: continue
                self.stats["lookups"] += 1
                for s, b in m.live.items():
                    if s <= v < s + b["size"]:
                        svc += [("I", "alloc.uid#" + a.name, ("uint", b["uid"])), ("I", "alloc.index#" + a.name, ("uint", (v - s) // b["esize"]))]
                        if a.name in b["attrs"]: svc.append(("R", b["extra"] + (("alloc.label#" + a.name, ("string", b["label"])),)))
                        self.stats["hits"] += 1
        if m.hwm: svc.append(("I", "alloc.region.highwatermark", ("uint", m.high))); m.high = m.bytes
        super().record(ch, t, repl, extra + svc)
    def op_mem(self, tid, kind, ptr, label, esize, dims, extra=()):
        t = self.thread(tid)
        if kind == "dtt": esize, dims = 1, [dims[0] if dims else 1]
        if kind not in ("mb", "dtt", "dtd", "mbx") or len(dims) > 8 or "\0" in label: return
        size = esize
        for d in dims: size *= d
        if not 0 < ptr or ptr + size >= 2**63 or size < 0: return
        words, path = [], []
        if kind == "mbx":
            for H, v in extra:
                a = self.attr("lo", H); v = tuple(v)
                if not a or a.type != v[0] or a.slot == "I": continue
                words += [H, drv_val(*v)]; path.append((a.name, v))
        # live allocations do not overlap
        for m in self.mem.values():
            for s, b in m.live.items():
                if s != ptr and s < ptr + size and ptr < s + b["size"] or s == ptr and b["size"] == 0 and False: return
        if kind == "dtt": self.emit(tid, "dtt", "%x" % ptr, enc(label) or "%", size)
        else: self.emit(tid, kind, "%x" % ptr, enc(label) or "%", esize, len(dims), *dims, *words)
        for ch in self.channels:
            if not ch.alive or not ch.active: continue
            if ch.name in self.tally:
                ta = self.tally[ch.name]
                if ptr in ta.live: self.stats["again"] += 1
                ta.alloc(tuple(t.bb.p["R"]), ptr, size); self.stats["alloc"] += 1
                continue
            m = self.mem[ch.name]; m.uid += 1
            if ptr in m.live: self.stats["again"] += 1
            b = dict(size=size, esize=esize, uid=m.uid, label=label, extra=tuple(path), attrs=set(a.name for a in m.attrs[:MAXATTR]))
            if m.track: self.record(ch, t, None, self.info(ptr, b, "mem.alloc", size))
            # an allocation at the address of a live one replaces it
            m.bytes += size - (m.live[ptr]["size"] if ptr in m.live else 0); m.high = max(m.high, m.bytes)
            m.live.pop(ptr, None); m.live[ptr] = b
            self.stats["alloc"] += 1
    def info(self, ptr, b, what, size):
        return [("I", "alloc.total_size", ("int", size)), ("I", "alloc.uid", ("uint", b["uid"])), ("I", "alloc.address", ("addr", ptr)), ("R", b["extra"] + ((what, ("string", b["label"])),))]
    def op_free(self, tid, kind, ptr):
        t = self.thread(tid)
        if kind not in ("me", "dtu") or not 0 <= ptr < 2**64: return
        self.emit(tid, kind, "%x" % ptr)
        for ch in self.channels:
            if not ch.alive or not ch.active: continue
            if ch.name in self.tally:
                self.stats["free" if self.tally[ch.name].free(ptr) else "nofree"] += 1; continue
            m = self.mem[ch.name]
            if ptr not in m.live: self.stats["nofree"] += 1; continue
            b = m.live.pop(ptr)
            if m.track: self.record(ch, t, None, self.info(ptr, b, "mem.free", -b["size"]))
            m.bytes -= b["size"]; self.stats["free"] += 1

    def op_chclear(self, tid, c):
        super().op_chclear(tid, c)
        if c in self.tally and self.chname[c].alive: self.tally[c].clear(); self.stats["cleared"] += 1
    def op_dump(self, tid, c):
        if c not in self.tally: return super().op_dump(tid, c)
        self.thread(tid); ch = self.ch(c)
        if not ch.alive: return
        recs, want = list(ch.recs), self.tally[c].records()
        self.stats["records"] += len(recs) + len(want); self.stats["tallies"] += len(want)
        def chk(r):
            got, ts = [], []
            for l in dec(r).split("\n"):
                if not l: continue
                rec = parse_rec(l); imm = {e[1]: e[2][1] for e in rec if e[0] == "I"}
                if "alloc.tally" in imm: ts.append((tuple(x for e in rec if e[0] == "R" for x in e[1] if x[0] in self.attrs),) + tuple(imm.get(k) for k in TALLY))
                else: got.append(self.project(rec))
            ts.sort(key=repr)
            if ts != want: return "tallies per region: (path, bytes, count, max, average) are\n  %s\nexpected\n  %s" % (ts, want)
            return compare_records(got, recs, "channel " + c)
        self.expect(self.emit(tid, "dump", ch.idx), chk)

class C11(Check):
    id = "C11"
    rule = ("histories of 1-150 tracked allocations and deallocations (all three interfaces, 0-4 dimensions, element sizes 0-2^20, sizes 0 to 2^40, adjacent ranges, ascending, descending and random addresses, repeated and unknown addresses, extra attributes) with annotations on 1-3 threads and snapshots that carry addresses at and around the range boundaries, under 1-2 channels with the alloc service in all option combinations, or with the allocstats service (tallies, counts, sizes and high-water marks per region compared at each output), created early or late, (de)activated and cleared; "
            "plus groups of threads that allocate concurrently; every trace record is compared with a model of the live allocations; non-trivial: at least 3 allocations, a deallocation and an address lookup or active-memory record")
    assumptions = ["allocstats: allocations made outside any region are not tallied", "live tracked ranges do not overlap", "addresses below 2^63"]
    quick, thorough = 2500, 80000

    def gen(self, r, i, tier):
        if r.random() < 0.08: return self.gen_conc(r)
        ops = []
        nt = r.choice([1, 1, 2, 3]); tid = lambda: r.randrange(nt)
        def cfg():
            sv = ["alloc", "trace"] + (["event"] if r.random() < 0.3 else [])
            r.shuffle(sv)
            c = {"CALI_SERVICES_ENABLE": ",".join(sv)}
            for k, p in (("RESOLVE_ADDRESSES", 0.75), ("RECORD_ACTIVE_MEM", 0.6), ("RECORD_HIGHWATERMARK", 0.4)):
                if r.random() < p: c["CALI_ALLOC_" + k] = "true"
            if r.random() < 0.12: c["CALI_ALLOC_TRACK_ALLOCATIONS"] = "false"
            if r.random() < 0.3:
                c["CALI_SERVICES_ENABLE"] = c["CALI_SERVICES_ENABLE"].replace("alloc", "allocstats")
                if r.random() < 0.5: c["CALI_ALLOCSTATS_RECORD_HIGHWATERMARK"] = "true"
            return c
        pend = ["c0"] + (["c1"] if r.random() < 0.3 else [])
        def newch():
            if pend: ops.append(["chnew", 0, pend.pop(0), True, cfg()])
        nadr = r.choice([1, 1, 2, 4]); adrs = []
        def adr():
            if len(adrs) < nadr:
                k = len(adrs); adrs.append("M%d" % k)
                ops.append(["adr", 0, "M%d" % k, "addr.%d" % k, r.choice([ASVALUE, ASVALUE, 0]) | (SKIP_EVENTS if r.random() < 0.5 else 0)])
        ops.append(["attr", 0, "X", "xa", "string", 0, "attr"]); ops.append(["attr", 0, "N", "num", "addr", ASVALUE, "attr"])
        if r.random() < 0.8: newch()
        for _ in range(r.choice([nadr, nadr, r.randrange(nadr + 1)])): adr()
        if pend and r.random() < 0.9: newch()
        n = r.choice([2, 5, 12, 30, 60]) if tier == "quick" else r.choice([5, 12, 30, 60, 150])
        live, dead, mode, nxt = {}, [], r.choice(["up", "down", "mix", "mix"]), 0x10000
        low = 1 << 46
        depth = {}
        def size():
            k = r.random()
            if k < 0.08: return 0, [r.randrange(5)]
            e = r.choice([1, 2, 4, 8, 8, 24, 4096]) if k < 0.9 else r.choice([1 << 20, 3, 65537])
            nd = r.choice([0, 1, 1, 1, 2, 3, 4])
            return e, [r.choice([1, 2, 3, 5, 10, 100]) if r.random() < 0.93 else r.choice([0, 1 << 18, 1 << 13]) for _ in range(nd)]
        def alloc():
            nonlocal nxt, low
            kind = r.choice(["mb", "dtt", "dtd", "mbx"])
            e, d = size()
            if kind == "dtt": e, d = 1, [r.choice([0, 1, 8, 100, 4096, 2**31 - 1, 2**31, 2**32, 2**40]) if r.random() < 0.3 else r.randrange(1, 5000)]
            tot = e
            for x in d: tot *= x
            if dead and r.random() < 0.3: p = r.choice(dead)
            elif mode == "up": p = nxt
            elif mode == "down": low -= tot + r.choice([0, 0, 1, 16]); p = low
            else: p = r.randrange(1, 1 << 30) if r.random() < 0.3 else nxt if r.random() < 0.5 else (1 << 45) + r.randrange(1 << 44)
            if live and r.random() < 0.04: p = r.choice(list(live))
            elif any(s < p + tot and p < s + b or s == p for s, b in live.items()): return
            if not 0 < p < 1 << 62: return
            nxt = max(nxt, p + tot + r.choice([0, 0, 0, 1, 16, 4096])) if p < 1 << 45 else nxt
            live[p] = tot
            ops.append(["mem", tid(), kind, p, r.choice(["A", "B", "arr x", "m/n", "", "\u00e4"]), e, d] + ([[["X", ["string", r.choice("pq")]]] * r.randrange(3)] if kind == "mbx" else []))
        def address():
            if live and r.random() < 0.85:
                s = r.choice(list(live)); b = live[s]
                return MASK & max(0, s + r.choice([0, -1, 1, b - 1, b, b + 1, b // 2, r.randrange(b + 1), r.randrange(b + 1), r.randrange(b + 1)]))
            return r.choice(dead) if dead and r.random() < 0.5 else r.choice([0, 1, 2**62, 2**64 - 1, r.randrange(1 << 46)])
        for _ in range(n):
            k = r.random()
            if k < 0.36: alloc()
            elif k < 0.55 and live:
                p = r.choice(list(live)) if r.random() < 0.93 else r.choice([next(iter(live)) + 1, 12345])
                ops.append(["free", tid(), r.choice(["me", "dtu"]), p])
                if p in live: del live[p]; dead.append(p)
            elif k < 0.8:
                items = []
                for H in r.sample(adrs, r.randrange(min(1, len(adrs)), len(adrs) + 1)): items.append([H, ["addr", address()]])
                if r.random() < 0.2: items.append(["N", ["addr", address()]])
                if r.random() < 0.2: items.insert(0, ["X", ["string", "s"]])
                if r.random() < 0.05 and adrs: items.append([adrs[0], ["addr", address()]])
                ops.append(["push", tid(), items])
            elif k < 0.88: t = tid(); depth.setdefault(t, []).append(r.choice("rrs")); ops.append(["rb", t, depth[t][-1]])
            elif k < 0.93:
                t = tid()
                if depth.get(t): ops.append(["re", t, depth[t].pop()])
            elif k < 0.95: adr()
            elif k < 0.96: newch()
            elif k < 0.975: ops.append([r.choice(["chdeact", "chact", "chact"]), 0, r.choice(["c0", "c1"])])
            else: ops.append([r.choice(["dump", "dump", "chclear"]), 0, r.choice(["c0", "c0", "c1"])])
        newch()
        return {"ops": ops}

    def gen_conc(self, r):
        k = r.randrange(2, 5)
        return {"conc": [[[r.choice([0, 1, 2, 3]), r.randrange(6), r.choice([1, 8, 100, 5000])] for _ in range(r.choice([3, 10, 40]))] for _ in range(k)]}

    def world(self, case): return MWorld(case["ops"])

    def run(self, ctx, case):
        if "conc" in case: return self.run_conc(ctx, case)
        for o in case["ops"]:
            if o[0] == "chnew" and (not ({"alloc", "trace"} <= set(o[4].get("CALI_SERVICES_ENABLE", "").split(",")) or {"allocstats", "trace"} <= set(o[4].get("CALI_SERVICES_ENABLE", "").split(","))) or "" in o[4].values()): return None
            if o[0] == "push" and any(v[0] == "addr" and not 0 <= v[1] <= MASK for H, v in o[2]): return None
            if o[0] == "adr" and o[2][:1] != "M": return None
        w = MWorld(case["ops"]); w.finish()
        res = ctx.drv().run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        s = w.stats
        return dict(tags=["lookups" if s["lookups"] else "no lookups", "hits" if s["hits"] else "no hits"] + (["again"] if s["again"] else []) + (["unknown free"] if s["nofree"] else []) + (["highwater"] if any(m.hwm for m in w.mem.values()) else []) + (["active"] if any(m.active for m in w.mem.values()) else []) + (["tallies"] if s["tallies"] else []) + (["cleared"] if s["cleared"] else []) + (["several threads"] if len(w.threads) > 1 else []),
                    nontrivial=s["alloc"] >= 3 and s["free"] >= 1 and (s["lookups"] > 0 or s["tallies"] > 0 or any(m.active for m in w.mem.values())), show=w.lines[:40])

    def run_conc(self, ctx, case):
        """threads allocate and free disjoint ranges concurrently"""
        L = ["0 cattr thr thr int %d" % (ASVALUE | SKIP_EVENTS), "0 attr X xa string 0", "0 chnew c0 0 CALI_SERVICES_ENABLE alloc%2ctrace CALI_ALLOC_RECORD_ACTIVE_MEM true CALI_ALLOC_RECORD_HIGHWATERMARK true CALI_CHANNEL_FLUSH_ON_EXIT false"]
        want, left, peak = {}, 0, 0
        for t, th in enumerate(case["conc"], 1):
            L.append("P %d set id thr i:%d" % (t, t)); live = {}; want[t] = []
            for what, slot, size in th:
                if not 0 <= slot < 6 or not 0 < size <= 5000: return None
                p = 0x100000 * t + slot * 8192
                lab = "t%d.%d" % (t, slot)
                if what > 0 and p not in live:
                    L.append("P %d dtt %x %s %d" % (t, p, lab, size)); live[p] = size; want[t].append(("mem.alloc", lab, p, size))
                elif p in live:
                    L.append("P %d dtu %x" % (t, p)); want[t].append(("mem.free", lab, p, -live.pop(p)))
            left += sum(live.values()); peak += sum(max(0, s) for _, _, _, s in want[t])
        L += ["RUN", "0 push 0"]; k = len(L); L.append("0 dump 0")
        res = ctx.drv().run(L)
        recs = [parse_rec(x) for x in dec(res.res.get(k, "")).split("\n") if x]
        val = lambda rec, n: next((e[2][1] for e in rec if e[0] == "I" and e[1] == n), None)
        got, uids, hw = {}, {}, 0
        for rec in recs[:]:
            hw = max(hw, val(rec, "alloc.region.highwatermark") or 0)
            lab = [(n, v[1]) for e in rec if e[0] == "R" for n, v in e[1] if n in ("mem.alloc", "mem.free")]
            if val(rec, "mem.active") > peak: raise Fail("active memory: %d bytes active, at most %d were ever allocated: %s" % (val(rec, "mem.active"), peak, show(rec)))
            if not lab: continue
            x = (lab[0][0], lab[0][1], val(rec, "alloc.address"), val(rec, "alloc.total_size")); u = val(rec, "alloc.uid")
            got.setdefault(val(rec, "thr"), []).append(x)
            if x[0] == "mem.alloc":
                if u in uids: raise Fail("allocation id: %s given to two allocations: %s and %s" % (u, uids[u], show(rec)))
                uids[u] = [x, 0]
            else:
                a = uids.get(u)
                if not a or a[1] or a[0][1:3] != x[1:3] or a[0][3] != -x[3]: raise Fail("deallocation: %s does not match allocation %s" % (show(rec), a))
                a[1] = 1
        for t in want:
            if got.get(t, []) != want[t]: raise Fail("concurrent allocations: thread %d has records %s, expected %s" % (t, got.get(t), want[t]))
        last = [r for r in recs if val(r, "alloc.address") is None]
        if len(last) != 1 or val(last[0], "mem.active") != left: raise Fail("active memory: %s after the threads are done, expected %d" % ([show(x) for x in last], left))
        if hw > peak: raise Fail("high water mark: %d, at most %d bytes were allocated" % (hw, peak))
        return dict(tags=["concurrent"], nontrivial=sum(map(len, want.values())) >= 10, show=L[:30])
CHECK = C11

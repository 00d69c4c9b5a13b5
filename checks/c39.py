"""C39: the malloc and pthread wrappers see every call and change nothing."""
from vf.engine import Check, Fail
from vf.driver import enc, dec
from vf.model import *
from vf.rt import World, parse_rec, compare_records, thr_of
from checks import rtgen

LO, HI, HUGE = 1 << 18, 1 << 22, 1 << 60
ID, MASTER = "pthread.id", "pthread.is_master"

ours = lambda n: LO <= n < HI and n & (n - 1)

class WWorld(World):
    reserved = (ID, MASTER)
    def __init__(self, ops):
        self.slots, self.wrapped, self.selfline, self.live = {}, False, {}, {}
        self.sizes = set()  # Caliper's own allocations have other sizes
        super().__init__(); self.start()
        for op in ops: self.do(op)
    def svc(self, ch): return ch.cfg.get("CALI_SERVICES_ENABLE", "").split(",")
    def mems(self): return [ch for ch in self.channels if ch.alive and ch.active and "alloc" in self.svc(ch) and "sysalloc" in self.svc(ch)]
    def thread(self, tid):
        t = self.threads.get(tid)
        if not t:
            t = super().thread(tid)
            l = self.emit(tid, "pself"); self.selfline[t.inc] = l
            if self.wrapped: t.bb.p["U"] = [(MASTER, ("bool", False)), (ID, ("self", l))] + t.bb.p["U"]
        return t
    def op_chnew(self, tid, c, active, cfg):
        if c in self.chname: return
        t = self.thread(tid); sv = cfg.get("CALI_SERVICES_ENABLE", "").split(",")
        super().op_chnew(tid, c, active, cfg)
        self.live[c] = {}
        if "pthread" in sv:
            self.mk(ID, "uint", UNALIGNED); self.mk(MASTER, "bool", UNALIGNED | SKIP_EVENTS)
            if not self.wrapped:
                self.wrapped = True
                self.bbset(t.bb, self.attrs[MASTER], ("bool", True)); self.bbset(t.bb, self.attrs[ID], ("self", self.selfline[t.inc]))
    def ok(self, line, want, what):
        self.expect(line, lambda r: None if r.split(" ")[1:] == want else "%s: %s" % (what, r))
    def rec(self, ch, t, what, label, size, addr):
        self.record(ch, t, None, [("I", "alloc.total_size", ("int", size)), ("I", "alloc.address", ("addr", addr)), ("R", ((what, ("string", label)),))]); self.stats[what] += 1
    def alloc(self, t, slot, label, size, line):
        for ch in self.mems():
            self.rec(ch, t, "mem.alloc", label, size, ("@", line)); self.live[ch.name][slot] = (label, size, line)
    def untrack(self, t, slot):
        for ch in self.mems():
            x = self.live[ch.name].pop(slot, None)
            if x: self.rec(ch, t, "mem.free", x[0], -x[1], ("@", x[2]))
    def blocked(self, slot): return any(slot in self.live[ch.name] and ch not in self.mems() for ch in self.channels if ch.alive)
    def op_wm(self, tid, kind, slot, n, es=1):
        t = self.thread(tid)
        if slot in self.slots or kind not in "mcr" or not ours(n * es) or kind != "c" and es != 1: return
        l = self.emit(tid, "wm", kind, slot, n, *([es] if kind == "c" else []))
        self.ok(l, ["77"], "an allocation"); self.slots[slot] = n * es; self.sizes.add(n * es)
        self.alloc(t, slot, {"m": "malloc", "c": "calloc", "r": "realloc"}[kind], n * es, l)
    def op_wr(self, tid, slot, n):
        t = self.thread(tid)
        if slot not in self.slots or not ours(n) or self.blocked(slot): return
        l = self.emit(tid, "wr", slot, n)
        self.ok(l, ["77"], "realloc"); self.slots[slot] = n; self.sizes.add(n)
        self.untrack(t, slot); self.alloc(t, slot, "realloc", n, l)
    def op_wf(self, tid, slot):
        t = self.thread(tid)
        if slot not in self.slots or self.blocked(slot): return
        l = self.emit(tid, "wf", slot); del self.slots[slot]
        self.ok(l, ["77"], "free"); self.untrack(t, slot)
    def op_wx(self, tid, kind):
        self.thread(tid); self.stats["failing"] += 1
        if kind not in "mcr": return
        self.expect(self.emit(tid, "wx", kind), lambda r: None if r == "null 12" else "a huge allocation returned " + r)

    def real(self, e):
        """fills in addresses and thread ids of the run"""
        r = self.res.res
        val = lambda v: ("uint", int(r[v[1]])) if v[0] == "self" else ("addr", int(r[v[1][1]].split(" ")[0], 16)) if v[0] == "addr" and isinstance(v[1], tuple) else v
        return ("R", tuple((n, val(v)) for n, v in e[1])) if e[0] == "R" else ("I", e[1], val(e[2]))
    def _reccheck(self, line, what, want):
        def chk(r):
            from vf.rt import canon, show
            got, w = self.project(parse_rec(r)), [self.real(e) for e in want]
            if canon(got) != canon(w): return "%s shows\n  %s\nexpected\n  %s" % (what, show(got), show(w))
        self.expect(line, chk)
    def op_pull(self, tid, c): self.op_ctx(tid)
    def op_path(self, tid): pass
    def op_getn(self, tid, name):
        if name != ID: super().op_getn(tid, name)
    def check_records(self, text, want, c):
        got, al, fr = [], [], []
        for l in text.split("\n"):
            if not l: continue
            r = parse_rec(l)
            imm = {e[1]: e[2] for e in r if e[0] == "I"}
            path = {n: v for e in r if e[0] == "R" for n, v in e[1]}
            if "event.set#" + ID in path: continue
            if "alloc.total_size" in imm:
                n, a, u = imm["alloc.total_size"][1], imm["alloc.address"][1], imm["alloc.uid"][1]
                prog = abs(n) in self.sizes or abs(n) >= HUGE
                if prog: (al if "mem.alloc" in path else fr).append((u, a, abs(n)))
                if not prog: continue
            got.append([e for e in self.project(r) if not (e[0] == "I" and e[1] == "alloc.uid")])
        if len(set(u for u, _, _ in al)) < len(al): return "two allocations have the same uid"
        for x in fr:
            if x not in al: return "a release has uid %d, address %x and size %d: no allocation has these" % x
        want = [(i, [self.real(e) for e in r]) for i, r in want]
        return compare_records(got, want, "channel " + c)
    def verify(self, res):
        self.res = res
        return super().verify(res)

class C39(Check):
    id = "C39"
    flavors = ("plain",)
    rule = ("generated programs whose 1-4 threads allocate, resize and free blocks of their own sizes with malloc, calloc and realloc (also failing calls), start and join threads and annotate regions, under 1-3 channels with sysalloc, alloc and pthread "
            "that are created, paused and deleted in between; every call on a program block is in every active tracking channel's trace once with function, size, address, thread and open regions; pointers, contents and errno are as without Caliper; thread ids are the "
            "system's; non-trivial: at least 5 allocation records")
    assumptions = ["a block tracked by a channel is not freed while that channel is paused", "realloc does not fail"]
    quick, thorough = 1500, 50000

    def gen(self, r, i, tier):
        def cfg(first):
            sv = ["event", "trace"]
            if r.random() < (0.95 if first else 0.7): sv += ["alloc", "sysalloc"]
            if r.random() < 0.6: sv.append("pthread")
            r.shuffle(sv)
            return {"CALI_SERVICES_ENABLE": ",".join(sv)}
        more = r.random() < 0.5
        st = {"n": 0}
        def extra(rr, w, t):
            k = rr.random(); slots = sorted(w.slots)
            size = lambda: rr.choice([LO + 1, HI - 1, rr.randrange(LO, HI), rr.randrange(LO, LO + 5000)])
            if k < 0.4 and len(slots) < 30:
                st["n"] += 1; kind = rr.choice("mmcr"); es = rr.choice([1, 2, 8, 100]) if kind == "c" else 1
                return ["wm", t, kind, "s%d" % st["n"], max(size() // es, LO // es + 1), es]
            if k < 0.55 and slots: return ["wr", t, rr.choice(slots), size()]
            if k < 0.85 and slots: return ["wf", t, rr.choice(slots)]
            if k < 0.88: return ["wx", t, rr.choice("mcr")]
            if k < 0.92: return ["dump", t, rr.choice(["c0", "c1"])]
            if not more: return None
            j = rr.random()
            if j < 0.35: return ["chnew", t, rr.choice(["c1", "c2"]), rr.random() < 0.8, cfg(False)]
            if j < 0.45: return ["chdel", t, rr.choice(["c0", "c1", "c2"])]
            return [rr.choice(["chact", "chdeact"]), t, rr.choice(["c0", "c1", "c2"])]
        return {"ops": rtgen.history(r, channels=True, chcfg=cfg(True), extra_op=extra, xprob=0.5, query=0.1, world=lambda: WWorld([]), big=tier != "quick")}

    def world(self, case): return WWorld(case["ops"])
    def run(self, ctx, case):
        w = self.world(case)
        if not w.channels: return None
        w.finish()
        res = ctx.drv("plain").run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        n = w.stats["mem.alloc"] + w.stats["mem.free"]
        return dict(tags=[k for k in ("mem.alloc", "mem.free", "failing") if w.stats[k]] + ["channels%d" % len(w.channels), "threads%d" % min(w.ninc, 4)] + (["pthread"] if w.wrapped else []) + (["deleted"] if any(not c.alive for c in w.channels) else []), nontrivial=n >= 5, show=w.lines[:40])

CHECK = C39

"""C09: region profiles attribute each measurement to the right regions."""
from vf.engine import Check, Fail, Invalid
from vf.driver import enc, dec
from vf.model import *
from vf.rt import World, Channel, BB
from checks import rtgen

KINDS = ["flat-incl", "flat-excl", "nested-incl", "nested-excl"]

def to_double(v):
    t, x = v
    if t in ("int", "uint", "double"): return float(x)
    if t == "bool": return float(x)
    return None

def parse_map(s):
    m = {}
    for l in s.split("\n"):
        if not l: continue
        k, v = l.rsplit(" ", 1)
        k = dec(k)
        if k in m: raise Fail("map: region %r is listed twice" % k)
        m[k] = float(v)
    return m

def close(a, b): return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-3)

# ------------------------------------------------------------------ record sets

def target(attrs, region, n):
    if region == "": return bool(attrs[n][1] & NESTED)
    return n == region

def reference(attrs, recs, kind, metric, region):
    total = treg = 0.0
    prof, n, nreg = {}, 0, 0
    def add(k, v): prof[k] = prof.get(k, 0.0) + v
    for rec in recs:
        mv = None
        for e in rec:
            # an entry stands for its last element
            a, v = (e[1][-1] if e[0] == "R" else (e[1], e[2]))
            if a == metric: mv = to_double(v); break
        if mv is None: continue
        n += 1; total += mv
        paths = [e[1] for e in rec if e[0] == "R"]
        hit = False
        if kind == "flat-incl":
            names = {show_text(*v) for p in paths for a, v in p if target(attrs, region, a)}
            for x in names: add(x, mv)
            hit = bool(names)
        elif kind == "nested-incl":
            for p in paths:
                reg = [show_text(*v) for a, v in p if target(attrs, region, a)]
                if reg:
                    for k in range(1, len(reg) + 1): add("/".join(reg[:k]), mv)
                    hit = True; break
        else:
            for p in paths:
                if target(attrs, region, p[-1][0]):
                    add(show_text(*p[-1][1]) if kind == "flat-excl" else "/".join(show_text(*v) for a, v in p if target(attrs, region, a)), mv)
                    hit = True; break
        if hit: treg += mv; nreg += 1
    return prof, treg, total, n, nreg

# ------------------------------------------------------------------ region profile of a running program

class PWorld(World):
    """one RegionProfile object; a clock reading after every operation"""
    def __init__(self, ops, rp):
        self.reads, self.base, self.last, self.seen, self.queries = [], None, {}, [], []
        super().__init__(); self.start()
        self.tick()
        for op in ops: self.do(op); self.tick()
    def tick(self): self.reads.append(self.emit(0, "now"))
    def op_rp(self, tid, what, fl=None, typ=None):
        t = self.thread(tid)
        ch = self.channels[0] if self.channels else None
        if what == "start":
            if not ch:
                ch = Channel(0, "rp", True, {"CALI_SERVICES_ENABLE": "aggregate,event", "CALI_EVENT_ENABLE_SNAPSHOT_INFO": "false"})
                self.channels.append(ch)
                self.emit(tid, "rp", "new", "P"); self.base = self.emit(tid, "rp", "start", "P")
            else: self.emit(tid, "rp", "start", "P")
            ch.active = True
        elif not ch: return
        elif what == "stop": self.emit(tid, "rp", "stop", "P"); ch.active = False
        elif what == "clear": self.emit(tid, "rp", "clear", "P"); self.seen = []
        elif what == "get" and fl in ("incl", "excl"):
            l = self.emit(tid, "rp", fl, "P", *([enc(typ)] if typ else []))
            self.queries.append((l, fl, typ or "", list(self.seen)))
            self.stats["rp"] += 1
    def record(self, ch, t, repl=None, extra=()):
        entries = self.snapshot(t, repl, extra)
        l = len(self.lines) - 1
        self.seen.append((t.inc, [e[1] for e in entries if e[0] == "R"], l, self.last.get(t.inc, self.base)))
        self.last[t.inc] = l

def clocks(w, res):
    import bisect
    rd = [(l, int(res.res[l])) for l in w.reads if l in res.res]
    ls = [l for l, _ in rd]
    before = lambda l: rd[bisect.bisect_left(ls, l) - 1][1]
    after = lambda l: rd[bisect.bisect_right(ls, l)][1]
    return before, after

class C09(Check):
    id = "C09"
    rule = ("two kinds: (a) record sets (numeric metrics by value or by reference, missing metrics, nested and other paths with recursion, several paths per record) through all four region profile classes, for all region types, one given type or an unknown one, compared with a direct evaluation; "
            "(b) annotation programs on 1-3 threads with a RegionProfile object that is started, stopped, cleared and queried (inclusive and exclusive, any region type) at arbitrary points; every reported time is bounded by clock readings around each operation, and inclusive, exclusive and total values must agree; "
            "non-trivial: at least two regions and one record outside of the selected regions, or a region nested in itself")
    assumptions = ["metrics are numeric", "no region name is empty in the nested profiles", "in (b) region attributes are thread-scope; no attribute is hidden"]
    quick, thorough = 6000, 200000
    def world(self, case): return PWorld(case["ops"], True)

    def gen(self, r, i, tier):
        if r.random() < 0.55:
            s = gen_stream(r, nrec=r.choice([1, 2, 4, 8, 20, 40]), globs=False, plain=r.random() < 0.7, weird=r.random() < 0.4, depth=r.choice([2, 5]))
            num = [n for n in s["attrs"] if s["attrs"][n][0] in ("int", "uint", "double")]
            reg = [n for n in s["attrs"] if not s["attrs"][n][1] & ASVALUE]
            k = r.random()
            c = {"kind": "set", "s": s, "cls": r.choice(KINDS), "metric": r.choice(num) if num and r.random() < 0.95 else "missing", "region": "" if k < 0.5 or not reg else r.choice(reg) if k < 0.95 else "nosuch"}
            if r.random() < 0.4:   # several branches that end in a region of the selected kind
                tgt = [n for n in reg if target(s["attrs"], c["region"], n)]; byval = [n for n in num if s["attrs"][n][1] & ASVALUE]
                if tgt and byval:
                    m = r.choice(byval); c["metric"] = m
                    for rec in s["recs"]:
                        if r.random() < 0.5: continue
                        a = r.choice(tgt)
                        if any(e[0] == "I" and e[1] == m for e in rec) or any(n == m for e in rec if e[0] == "R" for n, v in e[1]): pass
                        else: rec.append(["I", m, gen_value(r, s["attrs"][m][0], True)])
                        k = sum(e[0] == "R" for e in rec)
                        rec.insert(r.randrange(k + 1), ["R", [[a, gen_value(r, s["attrs"][a][0], True)] for _ in range(r.choice([1, 1, 2]))]])
            return c
        def extra(r, w, t):
            k = r.random()
            if k < 0.3: return ["busy", t, r.choice([1, 20, 100, 300])]
            if k < 0.55: return ["rp", t, r.choice(["start", "start", "stop", "clear"])]
            typ = r.choice(["", "", "region", "phase", "loop", "comm.region", "nosuch"] + [a.name for a in w.attrs.values() if a.props & NESTED])
            return ["rp", t, "get", r.choice(["incl", "excl"]), typ]
        nt = r.choice([1, 1, 2, 3])
        pre = [["rp", 0, "start"]] if r.random() < 0.8 else []
        ops = rtgen.history(r, nthreads=nt, channels=False, query=0.0, flush=0, extra_op=extra, xprob=0.3, usr=False, proc=0.0, length=r.choice([10, 20, 40, 60]), prefix=None)
        for o in ops:
            k = 5 if o[0] in ("attr", "attrc") else 4
            if o[0] in ("attr", "attrc", "ann"): o[k] &= ~HIDDEN
            if o[0] in ("attr", "attrc", "ann") and o[k] & NESTED:
                o[k] &= ~(GLOBAL | UNALIGNED | ASVALUE)
                if o[k] & 60 not in (0, THREAD): o[k] &= ~60
        return {"kind": "rp", "ops": pre + [o for o in ops if o[0] != "glob"]}

    def run(self, ctx, case):
        return self.run_set(ctx, case) if case["kind"] == "set" else self.run_rp(ctx, case)

    def run_set(self, ctx, case):
        s = case["s"]; valid_stream(s)
        A, kind, metric, region = s["attrs"], case["cls"], case["metric"], case["region"]
        if kind not in KINDS or not metric or (metric in A and A[metric][0] not in ("int", "uint", "double")): raise Invalid("metric")
        if any(p & NESTED and p & ASVALUE for t, p, m in A.values()): raise Invalid("nested value")
        recs = [model_rec(s, x) for x in s["recs"]]
        regs = {n for n in A if target(A, region, n)}
        if kind.startswith("nested") and any(show_text(*v) == "" for r in recs for n, v in flat(r) if n in regs): raise Invalid("empty name")
        # values as the .cali text carries them
        recs = [[("R", tuple((n, self.thru(v)) for n, v in e[1])) if e[0] == "R" else ("I", e[1], self.thru(e[2])) for e in r] for r in recs]
        prof, treg, total, n, nreg = reference(A, recs, kind, metric, region)
        res = ctx.drv().req("profile", kind, metric, region, "1", cali(s))
        if res[0] != "ok": raise Fail("profile: failed: %s" % res[:2])
        got = parse_map(res[1]); gr, gt = [float(x) for x in res[2].split(" ")]
        if set(got) != set(prof): raise Fail("%s: regions are %s, expected %s (metric %s, region type %r)" % (kind, sorted(got), sorted(prof), metric, region))
        scale = sum(abs(to_double(v)) for r in recs for a, v in flat(r) if a == metric) or 1.0
        eq = lambda a, b: a == b or abs(a - b) <= 1e-9 * scale
        for k in prof:
            if not eq(got[k], prof[k]): raise Fail("%s: value of %r is %r, expected %r (metric %s, region type %r)" % (kind, k, got[k], prof[k], metric, region))
        if not eq(gt, total): raise Fail("%s: total is %r, expected %r" % (kind, gt, total))
        if not eq(gr, treg): raise Fail("%s: total for regions is %r, expected %r" % (kind, gr, treg))
        rec = any(len([1 for a, v in e[1] if a in regs]) > len({show_text(*v) for a, v in e[1] if a in regs}) for r in recs for e in r if e[0] == "R")
        return dict(tags=["set", kind, "all" if region == "" else "type" if region in A else "unknown"] + (["recursive"] if rec else []) + (["outside"] if nreg < n else []),
                    nontrivial=len(prof) >= 2 and (nreg < n or rec), show=dict(metric=metric, region=region, stream=cali(s)[:600]))
    def thru(self, v): return (v[0], float(cali_text(*v))) if v[0] == "double" else v

    def run_rp(self, ctx, case):
        for o in case["ops"]:
            if o[0] in ("attr", "attrc", "ann"):
                p = o[5] if o[0] != "ann" else o[4]
                if p & NESTED and (p & 60 not in (0, THREAD) or p & (GLOBAL | UNALIGNED | ASVALUE)) or p & HIDDEN: return None
        w = PWorld(case["ops"], True)
        for k in ("incl", "excl"):
            if w.channels: w.do(["rp", 0, "get", k, ""]); w.tick()
        if not w.queries: return None
        if w.channels: w.emit(0, "rp", "del", "P")
        res = ctx.drv().run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        before, after = clocks(w, res)
        nreg = 0; rec = False; out = False
        for l, kind, typ, seen in w.queries:
            f = res.res[l].split(" ")
            got = parse_map(dec(f[0]) if len(f) == 3 else ""); gr, gt = float(f[-2]), float(f[-1])
            tgt = (lambda n: bool(w.attrs[n].props & NESTED)) if typ == "" else (lambda n: n == typ)
            lo, hi = {}, {}
            T, R = [0.0, 0.0], [0.0, 0.0]
            for t, paths, line, prev in seen:
                a, b = max(0, before(line) - after(prev)) * 1e-9, (after(line) - before(prev)) * 1e-9
                T[0] += a; T[1] += b
                names = set()
                if kind == "incl": names = {show_text(*v) for p in paths for n, v in p if tgt(n)}
                else:
                    for p in paths:
                        if tgt(p[-1][0]): names = {show_text(*p[-1][1])}; break
                rec = rec or any(len([1 for n, v in p if tgt(n)]) > len({show_text(*v) for n, v in p if tgt(n)}) for p in paths)
                for n in names: lo[n] = lo.get(n, 0.0) + a; hi[n] = hi.get(n, 0.0) + b
                if names: R[0] += a; R[1] += b
                else: out = True
            what = "%sclusive times of %s (program line %d)" % (kind[:2], typ or "all regions", l)
            if set(got) != set(lo): raise Fail("%s: regions of the %s are %s, expected %s" % (kind, what, sorted(got), sorted(lo)))
            ok = lambda x, a, b: a * (1 - 1e-9) - 1e-12 <= x <= b * (1 + 1e-9) + 1e-12
            for n in got:
                if not ok(got[n], lo[n], hi[n]): raise Fail("%s: %s of %r is %.9f, but between %.9f and %.9f s elapsed in it" % (kind, what, n, got[n], lo[n], hi[n]))
            if not ok(gt, *T): raise Fail("%s: total of the %s is %.9f, but between %.9f and %.9f s elapsed" % (kind, what, gt, *T))
            if not ok(gr, *R): raise Fail("%s: region total of the %s is %.9f, but between %.9f and %.9f s elapsed in regions" % (kind, what, gr, *R))
            if kind == "excl" and not close(sum(got.values()), gr): raise Fail("excl: the %s add up to %.9f, but the region total is %.9f" % (what, sum(got.values()), gr))
            if kind == "incl" and any(v > gr * (1 + 1e-9) + 1e-12 for v in got.values()): raise Fail("incl: a value of the %s exceeds the region total %.9f: %s" % (what, gr, got))
            nreg = max(nreg, len(got))
        # both profiles of the same data
        (l1, k1, t1, s1), (l2, k2, t2, s2) = w.queries[-2:]
        f1, f2 = res.res[l1].split(" "), res.res[l2].split(" ")
        if not close(float(f1[-1]), float(f2[-1])): raise Fail("total: inclusive and exclusive profile of the same data have totals %s and %s" % (f1[-1], f2[-1]))
        mi, me = parse_map(dec(f1[0]) if len(f1) == 3 else ""), parse_map(dec(f2[0]) if len(f2) == 3 else "")
        for n, v in me.items():
            if mi.get(n, 0.0) < v * (1 - 1e-9) - 1e-12: raise Fail("incl: inclusive time %s of %r is less than its exclusive time %.9f" % (mi.get(n), n, v))
        return dict(tags=["program", "queries%d" % min(len(w.queries), 6), "threads%d" % min(len({x[0] for x in w.queries[-1][3]}), 3)] + (["recursive"] if rec else []) + (["outside"] if out else []),
                    nontrivial=nreg >= 2 and (rec or out), show=[x for x in w.lines if not x.endswith(" now")][:50])
CHECK = C09

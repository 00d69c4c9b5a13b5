"""C44: call paths name the functions that were active; symbol lookup names what is at an address."""
from collections import Counter
from vf.engine import Check, Fail
from vf.driver import enc, dec
from vf.model import *
from vf.rt import World, parse_rec, compare_records, canon, show
from checks import rtgen

BASE, STEP, DEPTH = 0xC0DE0000000, 4096, 40
SYM = ("sym.v", "sym.r")
LOOK = ["FUNCTIONS", "SOURCELOC", "FILE", "LINE", "MODULE"]
CP = ("callpath.", "source.", "sourceloc#", "module#", "symbollookup.")

class PathError(Exception): pass

class CWorld(World):
    def __init__(self, ops):
        super().__init__(); self.path = ""; self.funs = None; self.calls = Counter(); self.seen = Counter()
        self.start()
        self.addr = self.emit(0, "cpaddr")
        self.symclass = False
        for op in ops: self.do(op)
    def emit(self, tid, *words):
        if self.path and not (words[0] == "set" and words[2] == "thr"): words = ("call", self.path) + words
        return super().emit(tid, *words)
    def op_sattr(self, tid, H, name, props):
        if name not in SYM or name in self.attrs or H in self.h: return
        self.thread(tid); self.mk(name, "addr", props); self.h[H] = name
        if not self.symclass:
            self.symclass = True
            self.emit(tid, "attr", "CLS", enc("class.symboladdress"), "bool", SKIP_EVENTS)
        self.emit(tid, "attr", H, enc(name), "addr", props, "CLS", "b:1")
    def op_sym(self, tid, how, H, d, off):
        a = self.attrs.get(self.h.get(H, ""))
        if not a or a.name not in SYM or how not in ("begin", "set") or not 0 <= d < 8 or not 0 <= off < 4: return
        t = self.thread(tid)
        if how == "begin" and a.slot == "I" and self.get(t, a) is not None: how = "set"
        v = ("addr", BASE + d * STEP + off)
        self.emit(tid, "cpset", how, H, d, off)
        (self.begin if how == "begin" else self.set)(t, a, v)
    def op_ev(self, tid, H, v):     # the addresses are not known beforehand
        if self.h.get(H) not in SYM: super().op_ev(tid, H, v)
    def op_get(self, tid, H):
        if self.h.get(H) not in SYM: super().op_get(tid, H)
    def op_getn(self, tid, name):
        if name not in SYM: super().op_getn(tid, name)
    def op_path(self, tid, how="path"):
        if not any(n in self.attrs for n in SYM): super().op_path(tid, how)
    def op_push(self, tid, items): super().op_push(tid, [x for x in items if self.h.get(x[0]) not in SYM])
    def op_chpush(self, tid, c, items): super().op_chpush(tid, c, [x for x in items if self.h.get(x[0]) not in SYM])
    def op_xch(self, tid, H, v):
        if self.h.get(H) not in SYM: super().op_xch(tid, H, v)
    def op_call(self, tid, digits, sub):
        if self.path or not digits or any(c not in "01234567" for c in digits) or not sub or sub[0] in ("call", "join", "chdel", "cm") or sub[0] not in ("b", "s", "e", "rb", "re", "pb", "pe", "cb", "ce", "push", "chpush", "sym", "dump"): return
        if len(sub) < 2 or sub[1] != tid: return
        self.thread(tid)
        self.path = digits; self.calls[digits] += 1
        try: self.do(sub)
        finally: self.path = ""
    def op_chnew(self, tid, c, active, cfg):
        ch = super().op_chnew(tid, c, active, cfg)
        if ch and "aggregate" in self.services(ch): ch.trace = True
        return ch
    def services(self, ch): return ch.cfg["CALI_SERVICES_ENABLE"].split(",")
    def record(self, ch, t, repl=None, extra=()):
        extra = list(extra)
        if "callpath" in self.services(ch) and self.skip(ch) < 100: extra.append(("I", "vf.path", ("string", self.path)))
        super().record(ch, t, repl, extra)
    def skip(self, ch): return int(ch.cfg.get("CALI_CALLPATH_SKIP_FRAMES", 0))
    def project(self, entries):
        out = []
        for e in super().project(entries):
            if e[0] == "R":
                p = tuple((n, self.mapaddr(v)) for n, v in e[1] if not n.startswith(CP))
                if p: out.append(("R", p))
            elif e[0] == "I":
                if not e[1].startswith(CP): out.append(("I", e[1], self.mapaddr(e[2])))
            else: out.append(e)
        return out
    def fun(self, a):
        if self.funs:
            for d in range(8):
                lo, hi, _ = self.funs[d]
                if lo <= a < hi: return d
        return None
    def mapaddr(self, v):
        d = self.fun(v[1]) if v[0] == "addr" else None
        return ("addr", BASE + d * STEP + v[1] - self.funs[d][0]) if d is not None else v

    def callpath(self, ch, raw):
        """the functions of the record's call path (digits); None: there is none"""
        cfg = ch.cfg; b = lambda k, d: cfg.get(k, d) == "true"
        lists = {}
        for e in raw:
            if e[0] == "R":
                for n in {n for n, v in e[1] if n.startswith("callpath.")}:
                    if n in lists: raise PathError("%s is there twice" % n)
                    lists[n] = [v[1] for m, v in e[1] if m == n]
            elif e[0] == "I" and e[1].startswith("callpath."): raise PathError("%s is an immediate entry" % e[1])
        want = {n for n, k, d in (("callpath.address", "CALI_CALLPATH_USE_ADDRESS", "true"), ("callpath.regname", "CALI_CALLPATH_USE_NAME", "false")) if b(k, d)} if "callpath" in self.services(ch) else set()
        if self.skip(ch) >= 100: want = set()
        if self.skip(ch) > 2 and not lists:     # fewer frames than that
            self.symbols(ch, raw, lists); return None
        if set(lists) != want: raise PathError("has %s, expected %s" % (sorted(lists), sorted(want)))
        out = None
        for n, l in lists.items():
            d = [self.fun(x) if n == "callpath.address" else int(x[3]) if len(x) == 4 and x[:3] == "cpf" and x[3] in "01234567" else None for x in l]
            at = [i for i, x in enumerate(d) if x is not None]
            if at and at != list(range(at[0], at[-1] + 1)): raise PathError("%s has other frames in between: %s" % (n, d))
            p = "".join(str(d[i]) for i in at)
            if out is not None and out != (p, len(l)): raise PathError("callpath.address and callpath.regname differ: %s %s" % (out, (p, len(l))))
            out = (p, len(l))
        self.symbols(ch, raw, lists)
        return out

    def symbols(self, ch, raw, lists):
        cfg = ch.cfg
        on = "symbollookup" in self.services(ch)
        vals = dict(("callpath.address", l) for n, l in lists.items() if n == "callpath.address")
        for e in raw:
            for n, v in (e[1] if e[0] == "R" else [(e[1], e[2])]):
                if n in SYM: vals.setdefault(n, []).append(v[1])
        which = [x for x in cfg.get("CALI_SYMBOLLOOKUP_ATTRIBUTES", "").replace(":", ",").split(",") if x] or list(vals)
        look = {k for k in LOOK if cfg.get("CALI_SYMBOLLOOKUP_LOOKUP_" + k, "true" if k in ("FUNCTIONS", "SOURCELOC", "MODULE") else "false") == "true"}
        attr = {"FUNCTIONS": "source.function#", "SOURCELOC": "sourceloc#", "FILE": "source.file#", "LINE": "source.line#", "MODULE": "module#"}
        got = {}
        for e in raw:
            for n, v in (e[1] if e[0] == "R" else [(e[1], e[2])]):
                if n.startswith(CP) and not n.startswith("callpath."): got.setdefault(n, []).append(v[1])
        want = {attr[k] + x for x in vals if x in which for k in look} if on else set()
        if set(got) != want: raise PathError("has symbols %s, expected %s" % (sorted(got), sorted(want)))
        for n, l in got.items():
            kind, x = n.split("#", 1); ads = vals[x]
            if len(l) != len(ads): raise PathError("%s has %d values for %d addresses" % (n, len(l), len(ads)))
            for s, a in zip(l, ads):
                d = self.fun(a); self.seen[kind] += d is not None
                if d is None:
                    if x in SYM and a < 2**32 and s not in ("UNKNOWN", 0, "UNKNOWN:0"): raise PathError("%s of address %x is %r" % (n, a, s))
                    continue
                line = self.funs[d][2]
                ok = {"source.function": s == "cpf%d" % d, "module": str(s).endswith("/vdrv"), "source.file": str(s).endswith("/vdrv.cpp"), "source.line": s == line,
                      "sourceloc": str(s).endswith("/vdrv.cpp:%d" % line)}[kind]
                if not ok: raise PathError("%s of an address in cpf%d (line %d) is %r; all: %s" % (n, d, line, s, l))

    def check_records(self, text, want, c):
        ch = self.chname[c]; got = []; agg = "aggregate" in self.services(ch)
        cp = "callpath" in self.services(ch) and self.skip(ch) < 100 and (ch.cfg.get("CALI_CALLPATH_USE_ADDRESS", "true") == "true" or ch.cfg.get("CALI_CALLPATH_USE_NAME") == "true")
        full = {p: p for p in list(self.calls) + [""]}
        for l in text.split("\n"):
            if not l: continue
            raw = parse_rec(l)
            try: p = self.callpath(ch, raw)
            except PathError as e: return "callpath: channel %s: %s in a record: %s" % (c, e, l[:600])
            rec = self.project(raw)
            if cp: rec = rec + [("I", "vf.path", ("string", p))]
            got.append(rec)
        # a long path keeps the innermost frames; skipped frames are the innermost ones
        def norm(w):
            out = []
            for e in w: out.append(e if e[:2] != ("I", "vf.path") else None)
            return [e for e in out if e is not None]
        path = lambda w: next((e[2][1] for e in w if e[:2] == ("I", "vf.path")), None)
        if not cp: want = [(t, norm(r)) for t, r in want]
        def fits(g, w):
            if not cp: return True
            s = self.skip(ch)
            if g is None: return len(w) <= s
            p, n = g
            if s <= 2:
                if n < DEPTH: return p == w
                return n == DEPTH and w.endswith(p) and len(p) >= min(len(w), DEPTH - 25)
            if n < DEPTH: return w.startswith(p) and len(w) - len(p) <= s
            return n == DEPTH and p in w
        if agg:
            key = lambda w: tuple(canon([e for e in w if e[0] == "R"]))
            ws, gs = {}, {}
            for t, w in want: ws.setdefault(key(w), []).append(path(w))
            for g in got:
                n = next((e[2][1] for e in g if e[:2] == ("I", "count")), None)
                if n is None: return "aggregate: channel %s: a row has no count: %s" % (c, g)
                gs.setdefault(key(g), []).append((path(g), n))
            if set(ws) != set(gs): return "aggregate: channel %s has rows for %s, expected %s" % (c, sorted(gs)[:8], sorted(ws)[:8])
            for k in ws:
                if sum(n for _, n in gs[k]) != len(ws[k]): return "aggregate: channel %s: %s counts %s, expected %d" % (c, k, gs[k], len(ws[k]))
                if cp and self.skip(ch) <= 2:
                    wc, gc = Counter(), Counter()
                    for p in ws[k]: wc[p] += 1
                    for (p, d), n in gs[k]:
                        gc[p if d < DEPTH else next((w for w in wc if fits((p, d), w)), p)] += n
                    if wc != gc and all(len(w) < 12 for w in wc): return "callpath: channel %s: %s happened in calls %s, reported %s" % (c, k, dict(wc), dict(gc))
            return None
        m = compare_records([norm(g) for g in got], [(t, norm(w)) for t, w in want], "channel " + c)
        if m or not cp: return m
        by, wy = {}, {}
        from vf.rt import thr_of
        for g in got: by.setdefault(thr_of(g), []).append(g)
        for t, w in want: wy.setdefault(t, []).append(w)
        for t in wy:
            for g, w in zip(by[t], wy[t]):
                if not fits(path(g), path(w)): return "callpath: channel %s, thread %s: the call path of %s is %r (%d frames), expected %r" % (c, t, show(norm(w)), path(g)[0], path(g)[1], path(w))
        return None

class C44(Check):
    id = "C44"
    rule = ("annotation histories on 1-4 threads in which begin, set, end and snapshot calls happen at the end of generated chains of 1-45 nested calls of eight known functions (any order, recursion, same function under different callers), plus address attributes (by value and by reference, marked as symbol addresses) set to addresses in these functions or to "
            "addresses of nothing; 1-3 channels with trace or aggregate, callpath (names, addresses, both; skipping 0-200 frames; internal frames or not) and symbollookup (any subset of function, file, line, location and module; all or selected attributes), created, paused and deleted in between; oracle: the generated chain and the driver's own "
            "table of function addresses and lines; everything else must equal the annotation model; non-trivial: at least two different chains in records")
    assumptions = ["the harness is built so that its call chain functions are not inlined", "paths longer than 40 frames keep the innermost frames"]
    quick, thorough = 1500, 20000
    quick_wall = 240

    def gen(self, r, i, tier):
        def cfg():
            sv = ["event", r.choice(["trace", "trace", "aggregate"])]
            if r.random() < 0.85: sv.append("callpath")
            if r.random() < 0.6: sv.append("symbollookup")
            r.shuffle(sv)
            c = {"CALI_SERVICES_ENABLE": ",".join(sv)}
            if "callpath" in sv:
                k = r.random()
                if k < 0.4: c["CALI_CALLPATH_USE_NAME"] = "true"
                if k < 0.2: c["CALI_CALLPATH_USE_ADDRESS"] = "false"
                if r.random() < 0.3: c["CALI_CALLPATH_SKIP_FRAMES"] = str(r.choice([1, 2, 2, 12, 20, 200]))
                if r.random() < 0.3: c["CALI_CALLPATH_SKIP_INTERNAL"] = "false"
            if "symbollookup" in sv:
                for k in LOOK:
                    if r.random() < 0.35: c["CALI_SYMBOLLOOKUP_LOOKUP_" + k] = r.choice(["true", "false"])
                if r.random() < 0.25: c["CALI_SYMBOLLOOKUP_ATTRIBUTES"] = r.choice([",", ":"]).join(r.sample(["callpath.address", "sym.v", "sym.r"], r.choice([1, 2])))
            return c
        fs = r.sample("01234567", r.choice([1, 2, 3, 8]))
        pool = []
        def chain():
            if pool and r.random() < 0.5:
                p = r.choice(pool); k = r.random()
                if k < 0.4: return p
                if k < 0.7: p = p[:r.randrange(len(p))] + r.choice(fs) + (p[-2:] if r.random() < 0.5 else "")
                else: p = r.choice(fs) + p[1:]
            else: p = "".join(r.choice(fs) for _ in range(r.choice([1, 1, 2, 3, 4, 6, 9, 30, 45] if r.random() < 0.5 else [1, 2, 3])))
            p = p or fs[0]; pool.append(p)
            return p
        def extra(rr, w, t):
            k = rr.random()
            if k < 0.75:
                j = rr.random(); sub = None
                if j < 0.12: sub = ["sym", t, rr.choice(["begin", "set"]), rr.choice(["S0", "S1"]), rr.randrange(8), rr.randrange(4)]
                elif j < 0.4: sub = rtgen.end_op(rr, w, t, 0)
                elif j < 0.6: sub = ["push", t, []]
                elif j < 0.65: sub = ["chpush", t, "c0", []]
                if not sub: sub = rtgen.begin_op(rr, w, t)
                if sub[0] in ("fn", "sc", "lp", "it", "gd", "pop", "lpend"): sub = ["rb", t, "x"]
                return ["call", t, chain(), sub]
            if k < 0.82: return ["sym", t, rr.choice(["begin", "set"]), rr.choice(["S0", "S1"]), rr.randrange(8), rr.randrange(4)]
            if k < 0.86: return ["chnew", t, rr.choice(["c1", "c2"]), rr.random() < 0.9, cfg()]
            if k < 0.9: return ["chdel", t, rr.choice(["c0", "c1", "c2"])]
            if k < 0.96: return ["dump", t, rr.choice(["c0", "c1", "c2"])]
            return [rr.choice(["chact", "chdeact"]), t, rr.choice(["c0", "c1", "c2"])]
        prefix = [["sattr", 0, "S0", "sym.v", ASVALUE | r.choice([0, 0, PROCESS])], ["sattr", 0, "S1", "sym.r", r.choice([0, NESTED, UNALIGNED, 0])]]
        r.shuffle(prefix)
        return {"ops": rtgen.history(r, channels=True, chcfg=cfg(), extra_op=extra, xprob=r.choice([0.3, 0.6]), prefix=prefix[:r.choice([0, 1, 2, 2])], query=0.05, nattr=r.choice([1, 2, 4]), length=r.choice([10, 20, 40]), world=lambda: CWorld([]), big=tier != "quick")}

    def run(self, ctx, case):
        w = CWorld(case["ops"])
        if not w.channels: return None
        w.finish()
        res = ctx.drv().run(w.lines)
        f = [int(x) for x in res.res[w.addr].split()]
        st = sorted((f[2 * d], d) for d in range(8)) + [(f[16], 8)]
        w.funs = {d: (a, st[i + 1][0], f[2 * d + 1]) for i, (a, d) in enumerate(st[:8])}
        m = w.verify(res)
        if m: raise Fail(m)
        sv = set(s for ch in w.channels for s in ch.cfg["CALI_SERVICES_ENABLE"].split(","))
        return dict(tags=sorted(sv - {"event"}) + sorted("looked up " + k for k in w.seen if w.seen[k]), nontrivial=len(w.calls) >= 2 and "callpath" in sv or w.seen["source.function"] > 0, show=w.lines[:40])

CHECK = C44

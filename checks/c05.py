"""C05: region times add up."""
import re
from vf.engine import Check, Fail
from vf.driver import enc, dec
from vf.model import *
from vf.rt import World, parse_rec, compare_records, thr_of, show
from checks import rtgen

TIME = ("time.offset.ns", "time.duration.ns", "time.inclusive.duration.ns")

class TWorld(World):
    """remembers which event and program line caused each record"""
    def __init__(self, ops):
        self.ev, self.meta = None, {}
        super().__init__(); self.start()
        for op in ops:
            # records are kept until they were seen once
            if op[0] == "chclear" and op[2:3] and op[2] in self.chname: self.op_dump(op[1], op[2])
            self.do(op)
    def ch_event(self, ch, kind, a, v, t, bb):
        self.ev = (kind, a.name)
        super().ch_event(ch, kind, a, v, t, bb)
        self.ev = None
    def record(self, ch, t, repl=None, extra=()):
        n = len(ch.recs)
        super().record(ch, t, repl, extra)
        if len(ch.recs) > n: self.meta.setdefault(ch.name, []).append({"t": t.inc, "line": len(self.lines) - 1, "ev": self.ev, "off": None})
    def op_pull(self, tid, c):
        t = self.thread(tid); ch = self.ch(c)
        if not ch or not ch.alive: return
        want = self.snapshot(t)
        x = {"t": t.inc, "ev": None, "off": None, "pull": True}
        x["line"] = l = self.emit(tid, "pull", ch.idx)
        self.meta.setdefault(ch.name, []).append(x); self.stats["ctx"] += 1
        def chk(r):
            rec = parse_rec(r)
            m = compare_records([self.project([e for e in rec if not (e[0] == "I" and e[1] in TIME)])], [(t.inc, want)], "a pulled snapshot")
            if m: return m
            tm = {e[1]: e[2][1] for e in rec if e[0] == "I" and e[1] in TIME}
            if "time.offset.ns" not in tm or "time.duration.ns" not in tm: return "a pulled snapshot has no time: %s" % tm
            x["off"], x["dur"], x["inc"] = tm["time.offset.ns"], tm["time.duration.ns"], tm.get("time.inclusive.duration.ns")
        self.expect(l, chk)
    def op_dump(self, tid, c):
        self.thread(tid); ch = self.ch(c)
        if not ch or not ch.alive: return
        want = list(ch.recs); m = [x for x in self.meta.get(c, []) if not x.get("pull")]; m = m[len(m) - len(want):] if want else []
        l = self.emit(tid, "dump", ch.idx)
        self.stats["records"] += len(want)
        self.expect(l, lambda r: self.times(dec(r), want, m, ch))
    def times(self, text, want, meta, ch):
        got = [parse_rec(l) for l in text.split("\n") if l]
        plain = [self.project([e for e in r if not (e[0] == "I" and e[1] in TIME)]) for r in got]
        m = compare_records(plain, want, "channel " + ch.name)
        if m: return m
        by = {}
        for r in got: by.setdefault(thr_of(r), []).append({e[1]: e[2][1] for e in r if e[0] == "I" and e[1] in TIME})
        pos = {}
        for x in meta:
            k = pos.get(x["t"], 0); pos[x["t"]] = k + 1
            tm = by[x["t"]][k]
            if "time.offset.ns" not in tm or "time.duration.ns" not in tm: return "record %d of thread %d has no time: %s" % (k, x["t"], tm)
            if x["off"] is not None and (x["off"], x["dur"], x["inc"]) != (tm["time.offset.ns"], tm["time.duration.ns"], tm.get("time.inclusive.duration.ns")):
                return "times of a record changed between flushes: %s, before %s" % (tm, x)
            x["off"], x["dur"], x["inc"] = tm["time.offset.ns"], tm["time.duration.ns"], tm.get("time.inclusive.duration.ns")

def check_times(w, ch, res):
    """the clock relations over the whole history of a channel"""
    recs = w.meta.get(ch.name, [])
    nows = [(l, int(res.res[l])) for l in w.nows if l in res.res]
    lo, hi = None, None         # bounds of the channel's time zero
    prev, last, stack = {}, None, {}
    nowi, nb = 0, None
    incl = ch.cfg.get("CALI_TIMER_INCLUSIVE_DURATION") == "true"
    for n, x in enumerate(recs):
        if x["off"] is None: continue
        t, off = x["t"], x["off"]
        who = "record %d (thread %d, program line %d)" % (n, t, x["line"])
        if last is not None and off < last: raise Fail("offset: time goes backwards from %d to %d at %s" % (last, off, who))
        last = off
        if x["dur"] != off - prev.get(t, 0): raise Fail("duration: %s has duration %d, but the time since the thread's previous snapshot is %d - %d" % (who, x["dur"], off, prev.get(t, 0)))
        prev[t] = off
        while nowi < len(nows) and nows[nowi][0] < x["line"]: nb = nows[nowi][1]; nowi += 1
        na = nows[nowi][1] if nowi < len(nows) else None
        if nb is not None:
            hi = na - off if na is not None and (hi is None or na - off < hi) else hi
            lo = nb - off if lo is None or nb - off > lo else lo
            if lo is not None and hi is not None and lo > hi: raise Fail("clock: the offset of %s is inconsistent with the elapsed time by %d ns" % (who, lo - hi))
        inc = None
        if x["ev"] and ch.info and incl:
            st = stack.setdefault((t, x["ev"][1]), [])
            if x["ev"][0] == "begin": st.append(off)
            elif x["ev"][0] == "end" and st: inc = off - st.pop()
        if x["inc"] != inc: raise Fail("inclusive: %s (%s) has inclusive duration %s, expected %s" % (who, x["ev"], x["inc"], inc))

CFGS = ["", ",order_by_time", ",time.exclusive=true", ",calc.inclusive=true", ",max_column_width=40"]

class C05(Check):
    id = "C05"
    rule = ("two kinds of generated programs on 1-4 threads: (a) annotation histories traced with the timer service under several channel configurations with busy periods and independent clock readings in between: offsets, durations and inclusive durations are recomputed exactly from the trace and bounded by the clock readings; "
            "(b) nested regions under an aggregating channel that also traces, reported by a query or the runtime-report configuration: exclusive and inclusive times, totals and percentages per region path are recomputed from the trace or bounded by clock readings; "
            "non-trivial: (a) at least 6 records and one region with an inclusive duration or two threads, (b) at least 2 nested region paths")
    assumptions = ["channels with inclusive timers stay active while regions are open", "operations of different threads do not overlap in time"]
    quick, thorough = 3000, 60000

    def gen(self, r, i, tier):
        k = r.random()
        if k < 0.6:
            incl = r.random() < 0.7
            names = ["c0"] + (["c1"] if r.random() < 0.4 else [])
            def cfg():
                sv = ["event", "trace", r.choice(["timer", "timer", "timestamp"])]; r.shuffle(sv)
                c = {"CALI_SERVICES_ENABLE": ",".join(sv), "CALI_TIMER_INCLUSIVE_DURATION": "true" if incl else r.choice(["true", "false"])}
                if r.random() < 0.2: c["CALI_EVENT_ENABLE_SNAPSHOT_INFO"] = "false"
                if r.random() < 0.15: c["CALI_EVENT_TRIGGER"] = r.choice(["region,loop", "at.0,at.1,region", "loop:phase"])
                return c
            def extra(r, w, t):
                k = r.random()
                if k < 0.5: return ["now", t]
                if k < 0.7: return ["busy", t, r.choice([1, 5, 20, 100])]
                c = r.choice(list(w.chname))
                if k < 0.78 and len(w.chname) < len(names): return ["chnew", t, "c1", True, cfg()]
                if k < 0.84: return ["chclear", t, c]
                if k < 0.9: return ["push", t, []]
                if k < 0.95: return ["chpush", t, c, []]
                ch = w.chname[c]
                if ch.cfg["CALI_TIMER_INCLUSIVE_DURATION"] == "true": return ["now", t]
                return [r.choice(["chact", "chdeact"]), t, c]
            return {"kind": "trace", "ops": rtgen.history(r, big=tier != "quick", channels=True, query=0.05, extra_op=extra, xprob=0.35, chcfg=cfg(), usr=False, proc=0.1)}
        nt = r.choice([1, 1, 2, 3])
        ops, depth = [], [0] * nt
        names = ["a", "b", "main", "foo", "x y"][: r.randrange(1, 6)]
        for _ in range(r.choice([4, 10, 20, 40])):
            t = r.randrange(nt)
            k = r.random()
            if k < 0.3: ops.append(["busy", t, r.choice([1, 10, 50, 200, 400])])
            elif k < 0.7 and depth[t] < 6 or not depth[t]: ops.append([r.choice(["rb", "rb", "fn", "sc"]), t, r.choice(names)]); depth[t] += 1
            else: ops.append(["end", t]); depth[t] -= 1
        k = r.random()
        return {"kind": "report", "mode": "runtime" if k < 0.4 else "query", "ranks": r.random() < 0.4, "cfg": r.choice(CFGS), "info": r.random() < 0.5, "ops": ops}

    def run(self, ctx, case):
        if case["kind"] == "trace": return self.run_trace(ctx, case)
        return self.run_report(ctx, case)

    def run_trace(self, ctx, case):
        w = TWorld(case["ops"])
        for ch in w.channels:
            if ch.cfg.get("CALI_TIMER_INCLUSIVE_DURATION") == "true" and any(o[0] in ("chact", "chdeact") and o[2] == ch.name for o in case["ops"]): return None
        w.op_now(0)
        w.finish()
        res = ctx.drv().run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        for ch in w.channels: check_times(w, ch, res)
        allm = [x for m in w.meta.values() for x in m]
        ninc = sum(1 for x in allm if x["off"] is not None and x["inc"] is not None)
        nthr = len(set(x["t"] for x in allm))
        return dict(tags=["trace", "threads%d" % min(nthr, 4)] + (["inclusive"] if ninc else []) + (["clock"] if len(w.nows) > 3 else []), nontrivial=len(allm) >= 6 and (ninc > 0 or nthr > 1), show=w.lines[:40])

    def run_report(self, ctx, case):
        """regions on threads; every begin and end is bracketed by clock readings"""
        L, mode = [], case["mode"]
        if mode not in ("runtime", "query") or case["cfg"] not in CFGS: return None
        tids = sorted(set(o[1] for o in case["ops"]) | {0})
        L.append("0 cattr thr thr int 65")
        if mode == "query":
            cfg = {"CALI_SERVICES_ENABLE": "event,timer,trace,aggregate", "CALI_CHANNEL_FLUSH_ON_EXIT": "false", "CALI_EVENT_ENABLE_SNAPSHOT_INFO": "true" if case["info"] else "false", "CALI_AGGREGATE_KEY": "thr"}
            L.append("0 chnew c 0 " + " ".join("%s %s" % (enc(k), enc(v)) for k, v in cfg.items()))
        else:
            L += ["0 cm new m", "0 cm add m " + enc("runtime-report(output=out.txt,aggregate_across_ranks=%s%s)" % ("true" if case["ranks"] else "false", case["cfg"]))]
            L.append("0 now"); ln0 = len(L) - 1
            L.append("0 cm start m")
        L.append("0 now"); ln1 = len(L) - 1
        stacks = {t: [] for t in tids}
        seen = set()
        snaps = []      # (thread, path at the snapshot, line before, line after)
        prev = ln1
        for o in case["ops"]:
            t = o[1]
            if t not in seen:
                seen.add(t); L.append("%d set id thr i:%d" % (t, t))
            if o[0] == "busy": L.append("%d busy %d" % (t, min(int(o[2]), 1000))); continue
            L.append("%d now" % t); nb = len(L) - 1
            if o[0] == "end":
                if not stacks[t]: continue
                snaps.append((t, tuple(n for n, k in stacks[t]), nb))
                n, k = stacks[t].pop()
                L.append("%d re %s" % (t, enc(n)) if k == "rb" else "%d pop" % t)
            elif o[0] in ("rb", "fn", "sc"):
                snaps.append((t, tuple(n for n, k in stacks[t]), nb))
                stacks[t].append((o[2], o[0]))
                L.append("%d %s %s" % (t, o[0], enc(o[2])))
            else: continue
            L.append("%d now" % t)
            snaps[-1] += (len(L) - 1,)
        if mode == "query":
            L.append("0 dump 0"); ldump = len(L) - 1
            L.append("0 report 0 " + enc("select region,sum(sum#time.duration.ns) as exc,inclusive_sum(sum#time.duration.ns) as inc,percent_total(sum#time.duration.ns) as pct where sum#time.duration.ns group by region format expand")); lrep = len(L) - 1
        else: L += ["0 cm stop m", "0 cm flush m"]
        d = ctx.drv()
        res = d.run(L)
        now = lambda l: int(res.res[l])
        paths = set(p for s in snaps for p in [s[1][:k] for k in range(1, len(s[1]) + 1)])
        lo, hi = {}, {}
        last = {}
        for t, p, a, b in snaps:
            # the segment since the thread's previous snapshot belongs to path p
            if t in last: x, y = last[t]
            else: x, y = (now(ln0), now(ln1)) if mode == "runtime" else (0, now(ln1))
            lo[p] = lo.get(p, 0) + max(0, now(a) - y); hi[p] = hi.get(p, 0) + now(b) - x
            last[t] = (now(a), now(b))
        if mode == "query":
            E, I, total = {}, {}, 0
            prof = {}
            for l in dec(res.res.get(ldump, "")).split("\n"):
                if not l: continue
                rec = parse_rec(l)
                im = {e[1]: e[2][1] for e in rec if e[0] == "I"}
                path = tuple(v[1] for e in rec if e[0] == "R" for n, v in e[1] if n == "region")
                evn = tuple((n, v[1]) for e in rec if e[0] == "R" for n, v in e[1] if n != "region" and not n.startswith("cali."))
                if "count" in im:
                    k = (path, im.get("thr"), evn)
                    if k in prof: raise Fail("profile: two records for %s" % (k,))
                    prof[k] = im
                else:
                    E.setdefault((path, im.get("thr"), evn), []).append(im["time.duration.ns"])
            for k in set(E) | set(prof):
                want = E.get(k)
                if want is None or k not in prof: raise Fail("profile: the profile %s a record for %s that the trace %s" % (("has", k, "lacks") if want is None else ("lacks", k, "has")))
                g = prof[k]
                for a, f in (("sum#", sum), ("min#", min), ("max#", max), ("avg#", lambda x: sum(x) // len(x))):
                    if g.get(a + "time.duration.ns") != f(want): raise Fail("profile: %stime.duration.ns of %s is %s, expected %s" % (a, k, g.get(a + "time.duration.ns"), f(want)))
                if g["count"] != len(want): raise Fail("profile: count of %s is %s, expected %d" % (k, g["count"], len(want)))
            exc = {}
            for (p, th, ev), x in E.items(): exc[p] = exc.get(p, 0) + sum(x)
            total = sum(exc.values())
            rows = {}
            for l in dec(res.res.get(lrep, "")).split("\n"):
                if not l: continue
                f = dict(x.split("=", 1) for x in l.split(","))
                rows[tuple(f.get("region", "").split("/")) if f.get("region") else ()] = f
            for p in set(exc) | set(paths):
                if p == () and p not in rows and not exc.get(p): continue
                if p not in rows and p not in exc: continue      # a region in which no snapshot was taken has no row of its own
                if p not in rows: raise Fail("report: no row for path %s" % (p,))
                e, inc = exc.get(p, 0), sum(v for q, v in exc.items() if p and q[:len(p)] == p)
                f = rows[p]
                if float(f.get("exc", 0)) != float("%.6g" % e) and int(float(f.get("exc", 0))) != e: raise Fail("report: exclusive time of %s is %s, expected %d" % (p, f.get("exc"), e))
                if p and float(f.get("inc", 0)) != float("%.6g" % inc) and int(float(f.get("inc", 0))) != inc: raise Fail("report: inclusive time of %s is %s, expected %d = its own %d plus its children's" % (p, f.get("inc"), inc, e))
                if total and abs(float(f.get("pct", 0)) - 100.0 * e / total) > 1e-3: raise Fail("report: share of %s is %s%%, expected %g%%" % (p, f.get("pct"), 100.0 * e / total))
            if set(rows) - set(exc): raise Fail("report: rows for %s, which has no measurement" % (set(rows) - set(exc)))
            for p in exc:
                first = p == () or any(s[1] == p and not any(q[0] == s[0] for q in snaps[:i]) for i, s in enumerate(snaps))
                if exc[p] < lo.get(p, 0) or exc[p] > hi.get(p, 0) and not first: raise Fail("clock: exclusive time of %s is %d ns, but between %d and %d ns elapsed in it" % (p, exc[p], lo.get(p, 0), hi.get(p, 0)))
        else:
            text = res.files.get("out.txt", b"")
            text = text.decode() if isinstance(text, bytes) else text
            self.check_tree(text, paths, lo, hi, case)
        return dict(tags=["report", mode, "threads%d" % len(seen)], nontrivial=sum(1 for p in paths if len(p) > 1) >= 1 and len(paths) >= 2, show=L[:60])

    def check_tree(self, text, paths, lo, hi, case):
        lines = [l for l in text.split("\n") if l.strip()]
        if not paths: return
        if not lines: raise Fail("report: no output for paths %s" % sorted(paths))
        hdr = lines[0]
        if case["ranks"]:
            cols = ["Min time/rank", "Avg time/rank", "Max time/rank", "Time %"]
            if "time.exclusive" in case["cfg"]: cols += ["Min time/rank (E)", "Avg time/rank (E)", "Max time/rank (E)", "Time % (E)"]
        else: cols = ["Time (E)", "Time (I)", "Time % (E)", "Time % (I)"]
        if re.split(r" {1,}", hdr.strip()) != " ".join(["Path"] + cols).split(" "): raise Fail("report: columns are %r, expected %s" % (hdr, cols))
        start = hdr.index(cols[0])
        rows, cur = {}, []
        for l in lines[1:]:
            ind = len(re.match(r"( *)", l).group(1)) // 2
            name = l[:start].strip()
            cur = cur[:ind] + [name]
            v = [float(x) for x in l[start:].split()]
            if len(v) != len(cols): raise Fail("report: line %r has no value for some column" % l)
            rows[tuple(cur)] = v
        names = set(tuple(n.strip() for n in p) for p in paths)
        if set(rows) != names: raise Fail("report: regions are %s, expected %s" % (sorted(rows), sorted(names)))
        tol = 2e-6 * (len(rows) + 1)
        kids = lambda p, k: sum(v[k] for q, v in rows.items() if len(q) == len(p) + 1 and q[:len(p)] == p)
        if case["ranks"]:
            for p, v in rows.items():
                for k in (0, 4)[:len(cols) // 4]:
                    if not v[k] == v[k + 1] == v[k + 2]: raise Fail("report: minimum, average and maximum over one process differ for %s: %s" % (p, v))
            val = lambda p: (rows[p][4] if len(cols) > 4 else rows[p][0] - kids(p, 0), rows[p][0], rows[p][7] if len(cols) > 4 else None, rows[p][3])
        else: val = lambda p: rows[p]
        icol = 0 if case["ranks"] else 1
        total = sum(val(p)[0] for p in rows)
        for p in rows:
            e, i, pe, pi = val(p)
            if abs(i - e - kids(p, icol)) > tol: raise Fail("report: inclusive time of %s is %g, but its exclusive time %g and its children's inclusive times %g add up to %g" % (p, i, e, kids(p, icol), e + kids(p, icol)))
            l, h = lo.get(p, 0) * 1e-9, hi.get(p, 0) * 1e-9
            if e < l - tol or e > h + tol: raise Fail("clock: exclusive time of %s is %g s, but between %g and %g s elapsed in it" % (p, e, l, h))
            if "order_by_time" in case["cfg"]:
                # a branch counts with the highest exclusive time in it
                top = lambda b: max(val(q)[0] for q in rows if q[:len(b)] == b)
                sib = [q for q in rows if len(q) == len(p) and q[:-1] == p[:-1]]
                n = sib.index(p)
                if n and top(sib[n - 1]) < top(p) - tol: raise Fail("order: %s with exclusive time up to %g comes before %s with %g although branches are ordered by exclusive time" % (sib[n - 1], top(sib[n - 1]), p, top(p)))
            if total > 1e-4:
                for a, b in ((pe, e), (pi, i)):
                    if a is not None and abs(a - 100 * b / total) > 100 * tol / total + 0.01: raise Fail("report: share of %s is %g%%, expected %g%%" % (p, a, 100 * b / total))
CHECK = C05

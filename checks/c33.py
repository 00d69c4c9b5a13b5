"""C33: the built-in profiling configurations report what the program did."""
import bisect, json, re
from vf.engine import Check, Fail, Invalid
from vf.driver import enc, dec
from vf.model import *
from vf.rt import World, Channel
from checks import rtgen
from checks.c08 import Filter, spec as filter_spec

EVENTS = ("runtime-report", "runtime-profile", "hatchet-region-profile", "spot", "event-trace")

LONG = "a_somewhat_long_name"

class LoopMonitor:
    def __init__(self, w, ch, o):
        self.w, self.ch = w, ch
        self.level, self.target, self.start, self.num = 0, -1, 0, 0
        self.interval = int(o.get("iteration_interval", 0)); self.always = "iteration_interval" not in o and o.get("time_interval") == "0.000000001"
        self.targets = [x for x in o.get("target_loops", "").split(",") if x]
    def snap(self, t):
        extra = [("I", "loop.iterations", ("int", self.num))] + ([("I", "loop.start_iteration", ("int", self.start))] if self.num else [])
        self.w.record(self.ch, t, None, extra); self.num = self.start = 0
    def begin(self, a, v, t):
        if a.name == "loop":
            if self.target < 0 and (not self.targets or v[1] in self.targets): self.target = self.level + 1; self.snap(t)
            self.level += 1
        elif a.name.startswith("iteration#") and self.level == self.target:
            if self.num == 0: self.start = v[1]
            self.num += 1
    def end(self, a, v, t):
        if a.name == "loop":
            if not self.level: return
            if self.level == self.target: self.snap(t); self.target = -1
            self.level -= 1
        elif a.name.startswith("iteration#") and self.level == self.target:
            if self.always or self.interval and self.num % self.interval == 0: self.snap(t)

class LoopStats:
    def __init__(self, w, ch): self.w, self.ch, self.stack = w, ch, []
    def begin(self, a, v, t):
        if a.name == "loop": self.stack.append(0)
        elif a.name.startswith("iteration#") and self.stack: self.stack[-1] += 1
    def end(self, a, v, t):
        if not self.stack: return
        if a.name == "loop": self.w.record(self.ch, t, None, [("I", "iter.count", ("uint", self.stack.pop()))])
        elif a.name.startswith("iteration#"): self.w.record(self.ch, t, None, [("I", "iter.duration.ns", None)])

class BWorld(World):
    """ops ["cm", tid, "start" | "stop" | "flush"] act on one ConfigManager with the case's configurations"""
    def __init__(self, ops, confs):
        self.reads, self.flushes, self.last, self.started, self.evt, self.begun = [], [], {}, None, None, {}
        self.confs = confs
        super().__init__(); self.start()
        self.emit(0, "cm", "new", "m")
        self.adds = [self.emit(0, "cm", "add", "m", enc(config_text(c))) for c in confs]
        self.tick()
        for op in ops: self.do(op); self.tick()
    def tick(self): self.reads.append(self.emit(0, "now"))
    def op_cm(self, tid, what):
        if tid: return
        t = self.thread(0)
        if what == "start":
            base = self.emit(0, "cm", "start", "m")
            if self.channels:
                for ch in self.channels: ch.active = True
                return
            self.base = base
            for c in self.confs:
                o = c["o"]
                for sub in ([c["name"]] if c["name"] != "spot" or "timeseries" not in o else ["spot", "spot.timeseries"]):
                    cfg = {"CALI_SERVICES_ENABLE": "event", "CALI_EVENT_REGION_LEVEL": o.get("level", "0")}
                    if sub in ("loop-report", "spot.timeseries"): cfg = {}
                    elif sub != "event-trace" and "region.stats" not in o: cfg["CALI_EVENT_ENABLE_SNAPSHOT_INFO"] = "false"
                    ch = Channel(len(self.channels), sub, True, cfg)
                    ch.seen = []
                    if c.get("f"): ch.filter = Filter(c["f"].get("include_regions"), c["f"].get("exclude_regions"), c["f"].get("include_branches"))
                    ch.mons = []
                    if sub == "loop-report": ch.mons.append(LoopMonitor(self, ch, o))
                    if sub == "spot.timeseries": ch.mons.append(LoopMonitor(self, ch, {k[11:]: v for k, v in o.items() if k[:11] == "timeseries."}))
                    if "loop.stats" in o and sub != "spot.timeseries": ch.mons.append(LoopStats(self, ch))
                    self.channels.append(ch); 
            self.started = True
        elif not self.started: return
        elif what == "stop":
            self.emit(0, "cm", "stop", "m")
            for ch in self.channels: ch.active = False
        elif what == "flush":
            l = self.emit(0, "cm", "flush", "m")
            self.flushes.append((l, [list(ch.seen) for ch in self.channels]))
    def ch_event(self, ch, kind, a, v, t, bb):
        if ch.info: self.evt = (kind, a.name)
        super().ch_event(ch, kind, a, v, t, bb)
        self.evt = None
    def record(self, ch, t, repl=None, extra=()):
        """ch.seen: (thread, entries, line of the snapshot, line of the snapshot before, values, line of the begin event)"""
        entries = self.snapshot(t, repl, extra)
        l = len(self.lines) - 1
        since = None
        if self.evt:
            st = self.begun.setdefault((ch.idx, t.inc, self.evt[1]), [])
            if self.evt[0] == "begin": st.append(l)
            elif self.evt[0] == "end" and st: since = st.pop()
        ch.seen.append((t.inc, entries, l, self.last.get((ch.idx, t.inc), self.base), [e for e in extra if e[0] == "I"], since))
        self.last[(ch.idx, t.inc)] = l
    def begin(self, t, a, v):
        if not t.err and not a.props & SKIP_EVENTS:
            for ch in self.channels:
                if ch.active:
                    for m in ch.mons: m.begin(a, v, t)
        super().begin(t, a, v)
    def end(self, t, a, check=None):
        bb = self.bbof(a, t)
        v = self.current(bb, a) if bb else None
        if not t.err and v is not None and not a.props & SKIP_EVENTS:
            for ch in self.channels:
                if ch.active:
                    for m in ch.mons: m.end(a, v, t)
        super().end(t, a, check)

def optval(v): return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"') if v == "" or re.search(r'[\s,()"\\=:]', v) else v
def config_text(c):
    return c["name"] + ("(" + ",".join(k if v == "true" else "%s=%s" % (k, optval(v)) for k, v in c["o"].items()) + ")" if c["o"] else "")

class Clock:
    def __init__(self, w, res):
        self.rd = [(l, int(res.res[l])) for l in w.reads if l in res.res]
        self.ls = [l for l, _ in self.rd]
    def before(self, l): return self.rd[bisect.bisect_left(self.ls, l) - 1][1]
    def after(self, l): return self.rd[bisect.bisect_right(self.ls, l)][1]
    def span(self, rec):
        return self.between(rec[3], rec[2])
    def between(self, a, b): return max(0, self.before(b) - self.after(a)) * 1e-9, (self.after(b) - self.before(a)) * 1e-9

class Node:
    def __init__(self): self.lo = self.hi = 0.0; self.n = 0; self.count = 0; self.iters = None; self.first = None; self.visits = []
    def add(self, lo, hi, rec, k, clk):
        if rec[5] is not None: self.visits.append(clk.between(rec[5], rec[2]))
        self.lo += lo; self.hi += hi; self.n += 1
        if self.first is None: self.first = k
        for e in rec[4]:
            if e[1] == "region.count": self.count += 1
            if e[1] == "iter.count": self.iters = max(self.iters or 0, e[2][1])

def profile(w, seen, clk):
    """path of (attribute, label) -> Node with exclusive values"""
    prof = {}
    for k, rec in enumerate(seen):
        path = ()
        for e in rec[1]:
            if e[0] == "R":
                p = tuple((n, show_text(*v)) for n, v in e[1] if n in w.attrs and w.attrs[n].props & NESTED)
                if p: path = p
        prof.setdefault(path, Node()).add(*clk.span(rec), rec, k, clk)
    return prof

def table(text, cols, first):
    """lines of an aligned table -> (rows, columns found); first: name of the text column"""
    lines = text.encode("utf-8", "surrogateescape").split(b"\n")
    head = lines[0]
    if not head.startswith(first.encode()): raise Fail("layout: header %r" % head)
    pos, used = [], []
    for c in sorted(cols, key=len, reverse=True):
        for m in re.finditer(re.escape(c.encode()) + b"(?= |$)", head):
            if m.start() and head[m.start() - 1:m.start()] != b" ": continue
            if any(a < m.end() and m.start() < b for a, b in used): continue
            used.append((m.start(), m.end())); pos.append((m.start(), c)); break
        else: raise Fail("columns: report has no column %r: %s" % (c, head.decode()))
    rest = b"".join(bytes([b]) for i, b in enumerate(head) if i >= len(first) and not any(x <= i < y for x, y in used)).strip()
    if rest: raise Fail("columns: unexpected columns %r in %s" % (rest, head.decode()))
    pos.sort()
    rows = []
    for l in lines[1:]:
        if not l.strip() or l.startswith(first.encode() + b" "): break
        t = l[:pos[0][0]].decode("utf-8", "surrogateescape") if pos else l.decode("utf-8", "surrogateescape")
        cells = {c: l[s:(pos[i + 1][0] if i + 1 < len(pos) else len(l))].decode("utf-8", "surrogateescape").strip() for i, (s, c) in enumerate(pos)}
        rows.append((t.rstrip(), cells))
    return rows, len(rows) + 1

def near(x, lo, hi, what, eps=1.5e-6, rel=1e-5):
    if not lo - eps - rel * abs(lo) <= x <= hi + eps + rel * abs(hi): raise Fail("time: %s is %.6f, but between %.9f and %.9f elapsed" % (what, x, lo, hi))

def tree_paths(rows):
    out, stack = [], []
    for t, cells in rows:
        d = (len(t) - len(t.lstrip(" "))) // 2
        del stack[d:]
        if len(stack) != d: raise Fail("layout: indentation of row %r" % t)
        stack.append(t.strip(" ")); out.append((tuple(stack), cells))
    return out

def labels(p): return tuple(v for n, v in p)
def merged(prof):
    """nodes with equal labels joined"""
    out = {}
    for p, n in prof.items():
        x = out.setdefault(labels(p), Node())
        x.lo += n.lo; x.hi += n.hi; x.count += n.count; x.n += n.n; x.visits += n.visits; x.first = n.first if x.first is None else min(x.first, n.first)
        if n.iters is not None: x.iters = max(x.iters or 0, n.iters)
    return out

def sums(prof):
    """inclusive values for every path and its parents"""
    nodes = {}
    for p, n in prof.items():
        for k in range(1, len(p) + 1):
            x = nodes.setdefault(p[:k], [0.0, 0.0])
            x[0] += n.lo; x[1] += n.hi
    return nodes

class C33(Check):
    id = "C33"
    technique = "property-based testing: reports of generated programs under generated configurations against a model of the annotations, with clock readings around every operation"
    rule = "some checked configuration reports at least three regions (trace: four events; loop report: a loop with three iterations)"
    assumptions = ["nested region attributes hold strings and are thread-scoped and not hidden (typed ones are known finding c33-typed-region)", "loops are annotated on one thread; one spot configuration with time series per program", "count columns count every end event at a path (iterations and ends of by-value attributes included)",
        "one process (MPI columns show the same value for min, avg and max)", "time bounds come from clock readings taken before and after each operation: a time outside what can have elapsed between them is a violation"]
    quick, thorough = 1500, 60000
    def world(self, b): return BWorld(b["ops"], b["confs"])

    def conf(self, r, k, stops):
        name = r.choice(["runtime-report", "runtime-report", "runtime-report", "runtime-profile", "hatchet-region-profile", "spot", "spot", "loop-report", "loop-report", "event-trace"])
        o, f = {}, {}
        if name == "loop-report":
            self.monopts(r, o, "")
            if r.random() < 0.2: o["summary"] = r.choice(["true", "false"])
            if r.random() < 0.2: o["timeseries"] = r.choice(["true", "false"])
        elif name == "spot":
            if r.random() < 0.6 and not stops: o["timeseries"] = "true"; self.monopts(r, o, "timeseries.")
            if r.random() < 0.2: o["time.exclusive"] = "false"
            if r.random() < 0.2: o["time.variance"] = "true"
            if r.random() < 0.2: o["region.count"] = "false"
        elif name == "runtime-report":
            if r.random() < 0.5: o["aggregate_across_ranks"] = r.choice(["false", "false", "true"])
            for x in ("time.exclusive", "calc.inclusive", "order_by_time", "print.metadata"):
                if r.random() < 0.25: o[x] = "true"
            if r.random() < 0.15: o["order_as_visited"] = "false"
        elif name != "event-trace":
            if r.random() < 0.8: o["output.format"] = r.choice(["json", "json", "cali", "json-split", "hatchet"])
            if r.random() < 0.5: o["use.mpi"] = r.choice(["true", "false"])
            if r.random() < 0.3: o["time.inclusive"] = "true"
        if name not in ("loop-report", "event-trace"):
            if r.random() < 0.5: o.setdefault("region.count", "true")
            if r.random() < 0.2: o["region.stats"] = "true"
            if r.random() < 0.3 and not stops: o["loop.stats"] = "true"
        if name != "loop-report":
            for x in ("include_regions", "exclude_regions", "include_branches"):
                if r.random() < 0.12 and not (stops and x == "include_branches"): o[x], f[x] = filter_spec(r)
            if r.random() < 0.1: o["level"] = r.choice(["0", "1", "4", "phase", "7"])
        ext = {"spot": ".cali", "event-trace": ".cali"}.get(name, ".txt")
        if name.endswith("profile"): ext = ".json" if o.get("output.format", "cali").startswith("json") else ".cali"
        o["output"] = "out%d%s" % (k, ext)
        if name == "runtime-report":
            if r.random() < 0.3: o["output.append"] = r.choice(["true", "false"])
            if "print.metadata" in o: o["output.append"] = "false"
            o["max_column_width"] = "400"
        c = {"name": name, "o": dict(r.sample(list(o.items()), len(o)))}
        if f: c["f"] = f
        return c
    def monopts(self, r, o, pre):
        if r.random() < 0.75: o[pre + "iteration_interval"] = str(r.choice([1, 1, 2, 3, 5, 10]))
        else: o[pre + "time_interval"] = r.choice(["0.000000001", "1000"])
        if r.random() < 0.3: o[pre + "target_loops"] = ",".join(r.sample(["a", "b", "foo", "bar"], r.choice([1, 2])))
        if r.random() < 0.4: o[pre + "timeseries.maxrows" if not pre else pre + "maxrows"] = str(r.choice([0, 1, 2, 3, 5, 7, 20, 50]))

    def gen(self, r, i, tier):
        stops = r.random() < 0.25
        confs = [self.conf(r, k, stops) for k in range(r.choice([1, 1, 2, 3]))]
        if sum(c["name"] == "spot" and "timeseries" in c["o"] for c in confs) > 1: confs = confs[:1]
        loops = any(c["name"] == "loop-report" or "timeseries" in c["o"] or "loop.stats" in c["o"] for c in confs)
        if any(c["name"] == "loop-report" for c in confs): stops = False
        def extra(rr, w, t):
            k = rr.random()
            if k < 0.35: return ["busy", t, rr.choice([1, 20, 100, 300])]
            if k < 0.45: return ["cm", 0, "flush"]
            if k < 0.6 and stops: return ["cm", 0, rr.choice(["start", "stop"])]
            return ["lp", t, rr.choice("ab") if rr.random() < 0.8 else rr.choice(['a"b', "x\\y", "x y", "foo"])]
        ops = rtgen.history(r, nthreads=1 if loops else r.choice([1, 1, 2, 3]), channels=False, query=0.0, flush=0, extra_op=extra, xprob=0.25, usr=False, proc=0.0, nattr=r.choice([1, 2, 4]), length=r.choice([10, 20, 40, 60]), big=tier != "quick")
        out = []
        for o in ops:
            if o[0] == "glob": continue
            if o[0] in ("attr", "attrc", "ann"):
                k = 4 if o[0] == "ann" else 5
                o[k] &= ~(HIDDEN | NOMERGE)
                if o[k] & NESTED and (o[0] == "ann" or o[4] != "string"): o[k] &= ~NESTED
                if o[k] & NESTED:
                    o[k] &= ~(GLOBAL | UNALIGNED | ASVALUE)
                    if o[k] & 60 not in (0, THREAD): o[k] &= ~60
            if loops: o = [LONG if x == rtgen.STR[-1] else ["string", LONG] if x == ["string", rtgen.STR[-1]] else x for x in o]
            for k in range(len(o)):
                if o[k] == "" : o[k] = "e"
                if o[k] == ["string", ""]: o[k] = ["string", "e"]
            out.append(o)
            if o[0] == "lp" and r.random() < 0.7:
                i0 = r.choice([0, 0, 0, 1, 10])
                n = r.choice([1, 2, 3, 5, 12, 45] if r.random() < 0.4 else [1, 2, 3])
                for j in range(n):
                    out.append(["it", o[1], i0 + j])
                    if r.random() < 0.3: out += [["rb", o[1], "w"], ["re", o[1], "w"]]
                    out.append(["pop", o[1]])
        at = 0 if r.random() < 0.7 else r.randrange(len(out) + 1)
        out.insert(at, ["cm", 0, "start"])
        out.append(["cm", 0, "flush"])
        return {"ops": out, "confs": confs}

    def run(self, ctx, case):
        for o in case["ops"]:
            if o[0] in ("attr", "attrc", "ann"):
                p = o[5] if o[0] != "ann" else o[4]
                if p & NESTED and not case.get("known") and (o[0] == "ann" or o[4] != "string"): return None
                if p & NESTED and (p & 60 not in (0, THREAD) or p & (GLOBAL | UNALIGNED | ASVALUE)) or p & (HIDDEN | NOMERGE): return None
            if "" in o or ["string", ""] in o: return None
        w = BWorld(case["ops"], case["confs"])
        if not w.flushes: return None
        res = ctx.drv().run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        for l in w.adds:
            if dec(res.res[l]).strip() != "1 -": raise Fail("config: %s: %s" % (w.lines[l], res.res[l]))
        clk = Clock(w, res)
        idx = 0; tags = set(); nt = False
        for c in case["confs"]:
            name, o = c["name"], c["o"]
            chans = 2 if name == "spot" and "timeseries" in o else 1
            text = res.files.get(o["output"])
            if text is None: raise Fail("output: %s wrote no file %s (files %s)" % (config_text(c), o["output"], sorted(res.files)))
            data = [f[1][idx] for f in w.flushes]
            tags.add(name)
            what = config_text(c)
            try:
                if name == "runtime-report": k = self.check_report(w, clk, o, text, data, what)
                elif name.endswith("profile"): k = self.check_profile(ctx, w, clk, o, text, data[-1], what)
                elif name == "loop-report": k = self.check_loops(w, clk, o, text, data[-1], what)
                elif name == "spot": k = self.check_spot(ctx, w, clk, o, text, data[-1], w.flushes[-1][1][idx + 1] if chans == 2 else None, what)
                else: k = self.check_trace(ctx, w, clk, o, text, data[-1], what)
            except Fail as e:
                raise Fail("%s\n%s\n%s" % (e, what, text[:3000]))
            nt = nt or k
            idx += chans
        return dict(tags=sorted(tags) + (["flushes"] if len(w.flushes) > 1 else []) + (["threads"] if w.ninc > 1 else []), nontrivial=nt, show=dict(config=[config_text(c) for c in case["confs"]], program=[x for x in w.lines if not x.endswith(" now")][:40]))

    # ---- runtime-report
    def check_report(self, w, clk, o, text, data, what):
        cross = o.get("aggregate_across_ranks") != "false"
        on = lambda x: o.get(x) == "true"
        if cross:
            cols = ["Min time/rank", "Avg time/rank", "Max time/rank", "Time %"]
            if on("time.exclusive"): cols += ["Min time/rank (E)", "Avg time/rank (E)", "Max time/rank (E)", "Time % (E)"]
            if on("region.count"): cols += ["Calls/rank (min)", "Calls/rank (avg)", "Calls/rank (max)", "Calls (total)"]
        else:
            cols = ["Time (E)", "Time (I)", "Time % (E)", "Time % (I)"] + (["Calls"] if on("region.count") else [])
        if on("region.stats"): cols += ["Visits", "Nsec/visit (min)", "Nsec/visit (avg)", "Nsec/visit (max)"]
        if on("loop.stats"): cols += ["Iterations", "Time/iter (min)", "Time/iter (avg)", "Time/iter (max)"]
        if o.get("output.append") == "false": data = data[-1:]
        lines = text.split("\n")
        nt = False
        for seen in data:
            prof = {p: n for p, n in profile(w, seen, clk).items() if p}
            while on("print.metadata") and lines and not lines[0].startswith("Path"): lines.pop(0)
            if not prof:
                if lines and lines[0].startswith("Path"): lines.pop(0)
                continue
            if not lines: raise Fail("output: there is no report for flush %d of %d" % (data.index(seen) + 1, len(data)))
            present = [x for x in cols]
            if not any(n.count for n in prof.values()): present = [x for x in present if not x.startswith(("Calls", "Visits", "Nsec"))]
            if not any(n.iters is not None for n in prof.values()): present = [x for x in present if x != "Iterations"]
            if not any(n.visits for n in prof.values()): present = [x for x in present if not x.startswith("Nsec")]
            if not any(e[1] == "iter.duration.ns" for rec in seen for e in rec[4]): present = [x for x in present if not x.startswith("Time/iter")]
            rows, used = table("\n".join(lines), present, "Path")
            lines = lines[used:]
            got = tree_paths(rows)
            keys = sorted(labels(p) for p in sums(prof))
            if sorted(p for p, _ in got) != keys: raise Fail("rows: report shows the regions %s, the program visited %s" % (["/".join(p) for p, _ in got], ["/".join(p) for p in keys]))
            first0 = prof
            prof = merged(prof); inc = sums(prof)
            tot = (sum(n.lo for n in prof.values()), sum(n.hi for n in prof.values()))
            texcl = 0.0
            by = {}
            for p, cells in got: by.setdefault(p, []).append(cells)
            for p, cl in by.items():
                n = prof.get(p) or Node()
                lab = "%s of " + "/".join(p).replace("%", "%%")
                s = lambda x: sum(float(c[x]) for c in cl if c[x] != "")
                for x in (["Min time/rank", "Avg time/rank", "Max time/rank"] if cross else ["Time (I)"]): near(s(x), *inc[p], lab % x, eps=1.5e-6 * len(cl))
                for x in (["Min time/rank (E)", "Avg time/rank (E)", "Max time/rank (E)"] if cross and on("time.exclusive") else ["Time (E)"] if not cross else []): near(s(x), n.lo, n.hi, lab % x, eps=1.5e-6 * len(cl))
                for x in [x for x in cl[0] if x.startswith("Calls") or x == "Visits"]:
                    if s(x) != n.count or any(c[x] and not c[x].isdigit() and "avg" not in x for c in cl): raise Fail("count: %s is %r, the program counts %s" % (lab % x, [c[x] for c in cl], n.count))
                if "Iterations" in cl[0]:
                    its = [int(c["Iterations"]) for c in cl if c["Iterations"]]
                    if (max(its) if its else None) != n.iters: raise Fail("iterations: %s is %r, expected %s" % (lab % "Iterations", its, n.iters))
                for cells in cl:
                    for a, b, c2 in (("Nsec/visit (min)", "Nsec/visit (avg)", "Nsec/visit (max)"), ("Time/iter (min)", "Time/iter (avg)", "Time/iter (max)")):
                        if a[0] == "N" and len(n.visits) != n.count: continue
                        if a in cells and (cells[a] or cells[b] or cells[c2]) and not float(cells[a]) <= float(cells[b]) <= float(cells[c2]): raise Fail("stats: min, avg, max of %s are %s %s %s" % ("/".join(p), cells[a], cells[b], cells[c2]))
                        if a in cells and cells[c2] and float(cells[c2]) * (1e-9 if a[0] == "N" else 1) > (clk.rd[-1][1] - clk.rd[0][1]) * 1e-9: raise Fail("stats: %s" % cells)
                if "Nsec/visit (min)" in cl[0]:
                    if bool(n.visits) != bool(any(c["Nsec/visit (min)"] for c in cl)): raise Fail("stats: visit times of %s are %s with %d visits" % ("/".join(p), cl, len(n.visits)))
                    if n.visits and len(cl) == 1:
                        if len(n.visits) == n.count:
                         for x, f in (("min", min), ("max", max), ("avg", lambda l: sum(l) / len(l))):
                            near(float(cl[0]["Nsec/visit (%s)" % x]) * 1e-9, f([a for a, b in n.visits]), f([b for a, b in n.visits]), lab % (x + " visit time"))
                for x, lo, hi in ([("Time % (I)",) + tuple(inc[p])] if not cross else [("Time %",) + tuple(inc[p])]) + ([("Time % (E)", n.lo, n.hi)] if "Time % (E)" in cl[0] else []):
                    near(s(x), 100 * lo / max(tot[1], 1e-12), 100 * hi / max(tot[0] or 1e-12, 1e-12), lab % x, eps=0.01)
                if "Time % (E)" in cl[0]: texcl += s("Time % (E)")
            if "Time % (E)" in present and abs(texcl - 100) > 0.01: raise Fail("percent: exclusive times add up to %.4f %%" % texcl)
            if not on("order_by_time") and o.get("order_as_visited") != "false" and w.ninc == 1 and len(sums(first0)) == len(inc):
                first = {}
                for p, n in prof.items():
                    for k in range(1, len(p) + 1): first[p[:k]] = min(first.get(p[:k], 1 << 60), n.first)
                kids = {}
                for p in dict.fromkeys(p for p, _ in got): kids.setdefault(p[:-1], []).append(p)
                for par, l in kids.items():
                    if l != sorted(l, key=lambda p: first[p]): raise Fail("order: children of %s are shown as %s, visited as %s" % ("/".join(par) or "root", [x[-1] for x in l], [x[-1] for x in sorted(l, key=lambda p: first[p])]))
            nt = nt or len(inc) >= 3
        if any(l.strip() for l in lines): raise Fail("layout: additional output %s" % lines[:5])
        return nt

    # ---- runtime-profile
    def rows_of(self, ctx, o, text):
        """-> list of (path tuple or joined path, {name: value})"""
        f = o.get("output.format", "cali")
        if f == "json":
            return [(d.pop("path", ""), d) for d in json.loads(text)] if text.strip() else []
        if f == "json-split":
            d = json.loads(text); out = []
            for row in d["data"]:
                x = dict(zip(d["columns"], row)); k = x.pop("path", None); p = []
                while k is not None: p.insert(0, d["nodes"][k]["label"]); k = d["nodes"][k].get("parent")
                out.append(("/".join(p), {a: b for a, b in x.items() if b is not None}))
            return out
        A, recs, globs, prob = parse_cali(text)
        if prob: raise Fail("cali: %s" % prob[:3])
        out = []
        for rec in recs:
            p, vals = [], {}
            for n, v in flat(rec):
                if n in A and A[n][1] & NESTED: p.append(show_text(*v))
                else: vals[self.alias(A, n)] = v[1]
            out.append(("/".join(p), vals))
        return out
    def alias(self, A, n):
        m = dict(A[n][2]) if n in A else {}
        x = m.get("attribute.alias")
        return x[1] if isinstance(x, tuple) else x or n

    def check_profile(self, ctx, w, clk, o, text, seen, what):
        on = lambda x: o.get(x) == "true"
        raw = merged(profile(w, seen, clk))
        prof = {}
        for p, n in raw.items():
            x = prof.setdefault("/".join(p), Node()); x.lo += n.lo; x.hi += n.hi; x.count += n.count
            if n.iters is not None: x.iters = max(x.iters or 0, n.iters)
        got = {}
        for p, v in self.rows_of(ctx, o, text): got.setdefault(p, []).append(v)
        inc = sums(raw); jinc = {}
        for p, x in inc.items():
            y = jinc.setdefault("/".join(p), [0.0, 0.0]); y[0] += x[0]; y[1] += x[1]
        want = set(prof) | (set(jinc) if on("time.inclusive") else set())
        if set(got) != want: raise Fail("rows: the profile has the regions %s, the program visited %s" % (sorted(got), sorted(want)))
        for p, rows in got.items():
            n = prof.get(p)
            s = lambda k: sum(float(x[k]) for x in rows if k in x)
            near(s("time"), *((n.lo, n.hi) if n else (0, 0)), "time of %s" % p, eps=1.5e-6 * max(1, len(rows)))
            if on("time.inclusive") and p:
                if not any("time (inc)" in x for x in rows): raise Fail("time: no inclusive time for %s" % p)
                near(s("time (inc)"), *jinc[p], "inclusive time of %s" % p, eps=1.5e-6 * len(rows))
            if on("region.count") and s("Calls") != (n.count if n else 0): raise Fail("count: %s has %s calls, the program counts %s" % (p, s("Calls"), n and n.count))
            if on("region.stats") and s("Visits") != (n.count if n else 0): raise Fail("count: %s has %s visits, the program counts %s" % (p, s("Visits"), n and n.count))
            if on("loop.stats"):
                x = [int(float(x["Iterations"])) for x in rows if "Iterations" in x]
                if (max(x) if x else None) != (n.iters if n else None): raise Fail("iterations: %s has %s, expected %s" % (p, x, n and n.iters))
        return len(prof) >= 3

    # ---- loop-report
    def loops(self, w, seen, clk):
        out = []
        for rec in seen:
            lp = []
            for e in rec[1]:
                if e[0] == "R": lp += [v[1] for n, v in e[1] if n == "loop"]
            if not lp: continue
            x = dict((e[1], e[2][1]) for e in rec[4])
            out.append((tuple(lp), x.get("loop.iterations"), x.get("loop.start_iteration"), clk.span(rec)))
        return out
    def series(self, recs, name, maxrows):
        """time series of loop `name`: block -> [iterations, lo, hi]; None when not shown"""
        by = {}
        for lp, it, st, sp in recs:
            if it is None: continue
            x = by.setdefault(lp, [0, 0]); x[0] += it; x[1] += 1
        return by
    def check_series(self, recs, name, rows, maxrows, iters, cnt, what):
        """rows: (block or None, iterations, time or None)"""
        nb = maxrows if maxrows > 0 else cnt
        bs = max(1, -(-iters // nb) if cnt > nb else 1)
        want = {}
        for lp, it, st, (lo, hi) in recs:
            if name not in lp: continue
            b = st // bs * bs if st is not None else None
            x = want.setdefault(b, [0, 0.0, 0.0]); x[0] += it or 0; x[1] += lo; x[2] += hi
        got = {b: (i, t) for b, i, t in rows}
        if len(got) != len(rows): raise Fail("series: a block of %s is shown twice" % name)
        if set(got) != set(want): raise Fail("series: blocks of %s are %s, expected %s" % (name, sorted(map(str, got)), sorted(map(str, want))))
        if maxrows > 0 and len([b for b in got if b is not None]) > max(maxrows, 0) and max(x for x in got if x is not None) < iters: raise Fail("maxrows: %d rows for %s" % (len(got), name))
        for b in want:
            if got[b][0] != want[b][0]: raise Fail("series: block %s of %s has %s iterations, expected %s" % (b, name, got[b][0], want[b][0]))
            near(got[b][1], want[b][1], want[b][2], "block %s of %s" % (b, name))

    def check_loops(self, w, clk, o, text, seen, what):
        recs = self.loops(w, seen, clk)
        by = {}
        for lp, it, st, (lo, hi) in recs:
            x = by.setdefault(lp, [0, 0, 0.0, 0.0]); x[0] += it or 0; x[1] += 1; x[2] += lo; x[3] += hi
        blocks = re.split(r"\n(?=Loop summary:\n|Iteration summary \()", "\n" + text)
        summ = [b for b in blocks if b.startswith("Loop summary:")]
        ser = [b for b in blocks if b.startswith("Iteration summary")]
        if o.get("summary") == "false":
            if summ: raise Fail("summary: shown although it is off")
        else:
            if len(summ) != 1: raise Fail("summary: there is no loop summary")
            t = summ[0].split("\n", 3)[3]
            if by:
                rows, _ = table(t, ["Iterations", "Time (s)", "Iter/s (min)", "Iter/s (max)", "Iter/s (avg)"], "Loop")
                got = {}
                if len(set("/".join(k) for k in by)) != len(by) or any(len("/".join(k).encode()) > 56 for k in by): return False      # equal or cut names
                for k, c in rows:
                    if k.strip(" ") in got: raise Fail("summary: loop %s is shown twice" % k)
                    got[k.strip(" ")] = c
                want = {"/".join(k): v for k, v in by.items()}
                if set(got) != set(want): raise Fail("summary: loops are %s, expected %s" % (sorted(got), sorted(want)))
                for k, v in want.items():
                    if int(got[k]["Iterations"]) != v[0]: raise Fail("summary: %s has %s iterations, expected %d" % (k, got[k]["Iterations"], v[0]))
                    near(float(got[k]["Time (s)"]), v[2], v[3], "time of %s" % k)
                    near(float(got[k]["Iter/s (avg)"]), v[0] / v[3] if v[3] else 0, v[0] / v[2] if v[2] else float("inf"), "iterations per second of %s" % k)
        want = [(k, v) for k, v in by.items() if v[0] > 0] if o.get("timeseries") != "false" else []
        if sorted(b[19:b.index("):\n")] for b in ser) != sorted(k[-1] for k, v in want): raise Fail("series: there are time series for %s, expected %s" % ([b.split("\n")[0] for b in ser], [k for k, v in want]))
        left = list(ser)
        for k, v in want:
            err = None
            for b in left:
                if b[19:b.index("):\n")] != k[-1]: continue
                t = b.split("\n", 3)[3].lstrip("\n")
                rows, _ = table(t, ["Iterations", "Time (s)", "Iter/s"], "Block")
                rr = [(int(a) if a.strip() else None, int(c["Iterations"]), float(c["Time (s)"])) for a, c in rows]
                try: self.check_series(recs, k[-1], rr, int(o.get("timeseries.maxrows", 20)), v[0], v[1], what); left.remove(b); err = None; break
                except Fail as e: err = e
            if err: raise err
        return any(v[0] >= 3 for k, v in want)

    # ---- spot
    def check_spot(self, ctx, w, clk, o, text, seen, ts, what):
        A, recs, globs, prob = parse_cali(text)
        if prob: raise Fail("cali: %s" % prob[:3])
        prof = profile(w, seen, clk); inc = sums(prof)
        rows, series = {}, {}
        for rec in recs:
            p, vals, lp = [], {}, []
            for n, v in flat(rec):
                if n == "loop": lp.append(v[1])
                if n in A and A[n][1] & NESTED: p.append((n, show_text(*v)))
                else: vals[n] = v[1]
            chn = vals.pop("spot.channel", None)
            if chn == "regionprofile":
                if tuple(p) in rows: raise Fail("rows: region %s is listed twice" % p)
                rows[tuple(p)] = vals
            elif chn == "timeseries": series.setdefault(tuple(lp), []).append(vals)
            else: raise Fail("spot: record without channel: %s" % (rec,))
        want = set(inc) | set(p for p in prof if not p)
        if set(rows) != want: raise Fail("rows: the profile has the regions %s, expected %s" % (sorted(rows), sorted(want)))
        g = {}
        for e in globs:
            for n, v in ([(e[1], e[2])] if e[0] == "I" else e[1]): g[n] = v[1]
        for x, y in (("spot.format.version", 2), ("spot.channels", "regionprofile" + (",timeseries" if o.get("timeseries") else ""))):
            if str(g.get(x)) != str(y): raise Fail("globals: %s is %r, expected %r" % (x, g.get(x), y))
        mets = g["spot.metrics"].split(",")
        for p, v in rows.items():
            if p:
                for x in ("min", "max", "avg", "sum"): near(float(v[x + "#inclusive#sum#time.duration"]), *inc[p], "%s inclusive time of %s" % (x, "/".join(labels(p))), rel=2e-5)
            n = prof.get(p)
            if n and o.get("time.exclusive") != "false":
                for x in ("min", "max", "avg", "sum"): near(float(v[x + "#scale#sum#time.duration.ns"]), n.lo, n.hi, "%s exclusive time of %s" % (x, "/".join(labels(p))), rel=2e-5)
            if o.get("region.count") != "false":
                for x in ("min", "max", "avg", "sum"):
                    c = v.get(x + "#sum#rc.count")
                    if (float(c) if c is not None else 0) != (n.count if n else 0): raise Fail("count: %s of %s is %s, the program counts %s" % (x, "/".join(labels(p)), c, n and n.count))
            if "loop.stats" in o:
                c = v.get("max#max#max#iter.count")
                if (int(c) if c is not None else None) != (n.iters if n else None): raise Fail("iterations: %s has %s, expected %s" % ("/".join(labels(p)), c, n and n.iters))
            for m in v:
                if m not in mets and not m.startswith(("avg.sum#", "avg.count#", "cali.", "variance", "vsum", "vcnt", "vsq", "spot.")) and not re.match(r"(var|vsum|vsqs|vcount)", m): raise Fail("metrics: %s is not listed in spot.metrics (%s)" % (m, mets))
        nt = len(inc) >= 3
        if ts is not None:
            lrecs = self.loops(w, ts, clk)
            by = {}
            for lp, it, st, sp in lrecs:
                x = by.setdefault(lp, [0, 0]); x[0] += it or 0; x[1] += 1
            wl = [(k, v) for k, v in by.items() if v[0] > 0]
            if len(set(k[-1] for k, v in wl)) != len(wl) or any(len(k) > 1 for k in by): return nt
            if sorted(series) != sorted(k for k, v in wl): raise Fail("series: time series for %s, expected %s" % (sorted(series), sorted(k for k, v in wl)))
            for k, v in wl:
                rr = [(int(x["block"]), int(x["max#sum#loop.iterations"]), float(x["max#scale#time.duration.ns"])) for x in series[k]]
                self.check_series([x for x in lrecs if x[2] is not None], k[-1], rr, int(o.get("timeseries.maxrows", 20)), v[0], v[1], what)
                nt = True
        return nt

    # ---- event-trace
    def check_trace(self, ctx, w, clk, o, text, seen, what):
        A, recs, globs, prob = parse_cali(text)
        if prob: raise Fail("cali: %s" % prob[:3])
        got = {}
        for rec in recs:
            ev = [(n, v) for n, v in flat(rec) if re.match(r"event\.(begin|end|set)#", n)]
            imm = {e[1]: e[2] for e in rec if e[0] == "I"}
            if "time.duration.ns" not in imm or "time.offset.ns" not in imm: raise Fail("trace: record without time: %s" % (rec,))
            got.setdefault(imm.get("thr", ("", None))[1], []).append((ev, imm))
        want = {}
        for rec in seen: want.setdefault(rec[0], []).append(rec)
        if {k: len(v) for k, v in got.items()} != {k: len(v) for k, v in want.items()}: raise Fail("trace: records per thread are %s, expected %s" % ({k: len(v) for k, v in got.items()}, {k: len(v) for k, v in want.items()}))
        for k in want:
            last = -1
            for (ev, imm), rec in zip(got[k], want[k]):
                exp = [x for e in rec[1] for x in ([(e[1], e[2])] if e[0] == "I" else list(e[1])) if re.match(r"event\.(begin|end|set)#", x[0])]
                cmpv = lambda l: sorted((n, cali_text(*v)) for n, v in l)
                if cmpv(ev) != cmpv(exp): raise Fail("trace: event %s, expected %s" % (ev, exp))
                lo, hi = clk.span(rec)
                near(imm["time.duration.ns"][1] * 1e-9, lo, hi, "duration of %s" % ev, rel=2e-5)
                if imm["time.offset.ns"][1] < last: raise Fail("trace: time goes backwards")
                last = imm["time.offset.ns"][1]
        return len(seen) >= 4
CHECK = C33

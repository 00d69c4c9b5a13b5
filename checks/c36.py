"""C36: the Python conversion tools (TraceEvent timelines, json-split) show exactly the recorded data."""
import contextlib, importlib.util, io, json, os, random, re, shutil, sys, tempfile, traceback
from vf.engine import Fail, Invalid
from vf.model import *
from checks import c24
from checks.c33 import C33, config_text

REPO = os.environ.get("VF_REPO", "/repo")
def tool(name):
    c24.reader()
    spec = importlib.util.spec_from_file_location(name, REPO + "/python/%s.py" % name)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return m

NAMES = ["main", "foo", "bar", "a b", 'q"x', "x,y", "a=b", "back\\slash", "new\nline", "/p/q", "é", "foo::bar<int>(x)", "1", " lead"]
RATTR = ["region", "function", "phase", "mpi.function", "my attr", "x=y"]
TS = {"time.offset.ns": 1e-3, "time.offset": 1.0, "cupti.timestamp": 1e-3, "rocm.host.timestamp": 1e-3, "gputrace.timestamp": 1e-3}
CB = ["papi.x", "mem.high", "c 1"]

def gen_tree(r, depth, attrs):
    return [[r.choice(attrs), r.choice(NAMES), r.choice([0, 0, 1, 10, 1234, 10**6]), gen_tree(r, depth - 1, attrs), r.choice([0, 0, 1, 5, 999, 10**7])] for _ in range(r.choice([0, 1, 2, 3]) if depth else 0)]

class C36(C33):
    id = "C36"
    technique = "property-based testing: timelines and json-split documents produced by the Python tools compared with the generated event histories and records"
    rule = ("(1) trace files written by the harness (several files, processes, threads; nested regions of several attributes, ties, records in random order, traces cut at both ends; counters, call-stack samples, timestamp synchronisation, "
            "GPU and allocator records), (2) event-trace output of generated annotated programs (threads, filters, started inside regions), both converted by cali2traceevent.py; (3) record lists converted by json2json_split.py. "
            "non-trivial: at least 4 timeline events or 3 records")
    assumptions = ["regions with equal attribute are properly nested per process and thread", "threads are told apart by a thread id in the records"]
    quick, thorough = 2500, 80000

    def gen(self, r, i, tier):
        x = r.random()
        if x < 0.2:
            c = C33.gen(self, r, i, tier)
            c["ops"] = [o for o in c["ops"] if not (o[0] == "cm" and o[2] == "stop")]
            o = {"output": "out0.cali"}
            f = {}
            from checks.c08 import spec as fs
            for k in ("include_regions", "exclude_regions"):
                if r.random() < 0.15: o[k], f[k] = fs(r)
            c["confs"] = [dict({"name": "event-trace", "o": o}, **({"f": f} if f else {}))]
            return c
        if x < 0.35:
            cols = r.sample(["path", "time", "count", "name", "a,b", 'q"'], r.choice([1, 2, 3, 4]))
            kind = {c: r.choice(["str", "num"]) for c in cols}
            def val(c): return "/".join(r.choice(["main", "foo", "", "a b", "é", 'x"y']) for _ in range(r.choice([1, 1, 2, 3]))) if kind[c] == "str" else r.choice([0, 1, -5, 2.5, 1e300, 10**12])
            return {"split": [{c: val(c) for c in cols if r.random() < 0.8} for _ in range(r.choice([0, 1, 2, 5, 20]))], "out": r.random() < 0.5}
        opts = {"pid": r.choice([[], [], ["my.pid"], ["pid1", "my.pid"]]), "tid": r.choice([[], [], ["my.tid"]]), "counters": r.choice([None, None, "c=" + ",".join(r.sample(CB, 2)), r.choice(CB)]), "sync": r.random() < 0.3, "pretty": r.random() < 0.2, "eq": r.random() < 0.5, "out": r.random() < 0.7, "order": r.random()}
        files = []
        npid = r.choice([1, 1, 2, 3])
        for p in range(npid):
            attrs = r.sample(RATTR, r.choice([1, 2, 3]))
            tracks = []
            for t in range(r.choice([1, 1, 2, 3])):
                tracks.append({"tid": t * 3, "t0": r.choice([0, 1000, 5 * 10**9]), "tree": gen_tree(r, r.choice([1, 2, 3]), attrs), "cut": [r.choice([0, 0, 0, 1, 3]), r.choice([0, 0, 0, 1, 2])]})
            files.append({"pid": p * 2 + r.choice([0, 1]) if npid > 1 else r.choice([None, 7]), "ts": r.choice(["time.offset.ns"] * 4 + list(TS)), "two": r.random() < 0.1, "tracks": tracks, "imm": r.random() < 0.3, "tattr": r.choice(["omp.thread.id", "pthread.id", "both", "my.tid"] if opts["tid"] else ["omp.thread.id", "pthread.id", "both"]),
                          "pattr": r.choice(["mpi.rank"] + opts["pid"]), "seed": r.randrange(10**9), "extra": r.choice([0, 0, 2, 6]), "sync": r.choice([None, 10**6, 123456789]) if opts["sync"] else None, "glob": r.random() < 0.5})
        return {"opts": opts, "files": files}

    def run(self, ctx, case):
        if "split" in case: return self.split(case)
        if "confs" in case: return C33.run(self, ctx, case)
        return self.synthetic(case)

    # ---- run a tool's main()
    def main(self, name, argv):
        out, err = io.StringIO(), io.StringIO()
        old = sys.argv
        try:
            sys.argv = [name] + argv
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err): tool(name).main()
        except SystemExit as e:
            if e.code: raise Fail("exit: %s %s stops with %r" % (name, argv, e.code))
        except Exception: raise Fail("exception: %s in %s" % (traceback.format_exc().strip().split("\n")[-1], name))
        finally: sys.argv = old
        return out.getvalue()

    def convert(self, d, names, args, out):
        a = args + [os.path.join(d, n) for n in names]
        if out: a.append(os.path.join(d, "trace.json"))
        text = self.main("cali2traceevent", a)
        if out: text = open(os.path.join(d, "trace.json"), encoding="utf-8").read()
        try: return json.loads(text)
        except ValueError as e: raise Fail("json: output is not JSON: %s: %r" % (e, text[:500]))

    def compare(self, got, exp, what):
        """exp: list of (dict) events with the keys that must match; times with a tolerance"""
        frames = got.get("stackFrames", {})
        def stack(i):
            l = []
            while i is not None:
                f = frames.get(str(i))
                if f is None or len(l) > 500: raise Fail("stack: stack frame %s does not exist" % i)
                l.insert(0, (f["category"], f["name"])); i = f.get("parent")
            return l
        def canon(e, gotten):
            e = dict(e)
            if gotten and "sf" in e: e["sf"] = stack(e["sf"])
            t = (e.pop("ts", None), e.pop("dur", None))
            if None in t[:1]: raise Fail("time: event without timestamp: %s" % e)
            return (json.dumps(e, sort_keys=True), t[0], t[1] if t[1] is not None else -1)
        a = sorted(canon(e, True) for e in got.get("traceEvents", []) + got.get("samples", [])); b = sorted(canon(e, False) for e in exp)
        if [x[0] for x in a] != [x[0] for x in b]:
            A, B = [x[0] for x in a], [x[0] for x in b]
            extra = list(A); [extra.remove(x) for x in B if x in extra]
            miss = list(B); [miss.remove(x) for x in A if x in miss]
            raise Fail("events: %s: timeline has %d events, expected %d; unexpected %s; missing %s" % (what, len(a), len(b), extra[:3], miss[:3]))
        for x, y in zip(a, b):
            for u, v in ((x[1], y[1]), (x[2], y[2])):
                if abs(u - v) > 2e-5 * 1e-3 + 2e-9 * max(abs(y[1]), abs(v)): raise Fail("time: %s: event %s is at %s for %s, expected %s for %s" % (what, x[0], x[1], x[2], y[1], y[2]))

    # ---- (1)
    def synthetic(self, case):
        o = case["opts"]; exp = []; texts = []; n = 0
        S = lambda s: ("string", s)
        tsync = {}
        if len({f["pid"] for f in case["files"]}) != len(case["files"]): raise Invalid("pid")
        for f in case["files"]:
            rr = random.Random(f["seed"]); A = {"time.other": ["int", ASVALUE, {}]}
            def at(name, t, p): A.setdefault(name, [t, p, {}]); return name
            if f["ts"] not in TS or f["tattr"] == "my.tid" and not o["tid"] or f["pattr"] != "mpi.rank" and f["pattr"] not in o["pid"]: raise Invalid("attribute")
            streams = []; fac = TS[f["ts"]]
            pid = f["pid"] or 0
            ctr = {}
            if o["counters"]:
                g, c = o["counters"].split("=") if "=" in o["counters"] else ("counter", o["counters"])
                ctr = {g: c.split(",")}
            for tr in f["tracks"]:
                now = tr["t0"]; evs = []; tid = tr["tid"]; path = []
                def loc():
                    l = []
                    if f["pid"] is not None: l.append(("I", at(f["pattr"], "int", ASVALUE), ("int", f["pid"])))
                    if f["pid"] is not None and f["pattr"] != "mpi.rank" and f["seed"] % 2: l.append(("I", at("mpi.rank", "int", ASVALUE), ("int", f["pid"] + 40)))   # the given attributes come first
                    if f["tattr"] == "my.tid" and f["seed"] % 3: l.append(("I", at("omp.thread.id", "int", ASVALUE), ("int", tid + 60)))
                    if f["tattr"] == "both": l += [("I", at("pthread.id", "uint", ASVALUE), ("uint", tid + 50)), ("I", at("omp.thread.id", "int", ASVALUE), ("int", tid))]
                    else: l.append(("I", at(f["tattr"], "int", ASVALUE), ("int", tid)))
                    return l
                def rec(nodes, imms, t):
                    imms = imms + [("I", at(f["ts"], "uint", ASVALUE), ("uint", t))] + loc()
                    if f["two"] and f["ts"] == "time.offset.ns": imms.append(("I", at("time.offset", "double", ASVALUE), ("double", 1.0)))
                    rr.shuffle(imms)
                    ch = []
                    if nodes: ch.append(("R", nodes))
                    return ch + imms
                def event(kind, a, v):
                    k = "event.%s#%s" % (kind, a)
                    if f["imm"]: return [], [("I", at(k, "string", ASVALUE | SKIP_EVENTS), S(v))]
                    at(k, "string", SKIP_EVENTS)
                    return [(k, S(v))], []
                def extras():
                    nonlocal now
                    for _ in range(f["extra"]):
                        if rr.random() < 0.7: continue
                        k = rr.choice(["counter", "sample", "umpire", "cupti", "rocm", "plain", "set", "notime", "gpu"]); now += rr.choice([0, 3, 100]); t = now
                        base = {"pid": pid, "tid": tid}
                        if k == "counter":
                            cs = {c: rr.choice([0, 1, 2.5, 100]) for c in rr.sample(CB, 2)}
                            evs.append((rec(list(path), [("I", at(c, "double", ASVALUE), ("double", float(v))) for c, v in cs.items()], t), t, [dict(base, ph="C", name=g, ts=t * fac, args={c: float(cs[c]) for c in l if c in cs}) for g, l in ctr.items() if set(l) & set(cs)]))
                        elif k == "sample":
                            st = [rr.choice(["main", "f", "g()", "x"]) for _ in range(rr.choice([0, 1, 2, 3]))]; cpu = rr.choice([None, 3])
                            nd = [(at("source.function#callpath.address", "string", 0), S(x)) for x in st]
                            e = dict(base, name="sampler", weight=1, ts=t * fac)
                            if st: e["sf"] = [("callstack", x) for x in st]
                            im = [("I", at("source.function#cali.sampler.pc", "string", ASVALUE), S("f"))]
                            if cpu is not None: im.append(("I", at("cpuinfo.cpu", "int", ASVALUE), ("int", cpu))); e["cpu"] = "3"
                            evs.append((rec(nd, im, t), t, [e]))
                        elif k == "umpire":
                            evs.append((rec(list(path), [("I", at("umpire.alloc.name", "string", ASVALUE), S("HOST")), ("I", at("umpire.alloc.current.size", "uint", ASVALUE), ("uint", t)), ("I", at("umpire.alloc.highwatermark", "uint", ASVALUE), ("uint", 9))], t), t,
                                        [dict(base, ph="C", name="Alloc HOST", ts=t * fac, args={"size": float(t)})]))
                        elif k == "cupti":
                            kn = rr.choice([None, "kern<1>"])
                            im = [("I", at("cupti.activity.kind", "string", ASVALUE), S("kernel")), ("I", at("cupti.activity.start", "uint", ASVALUE), ("uint", t + 7)), ("I", at("cupti.activity.duration", "uint", ASVALUE), ("uint", 11))] + ([("I", at("cupti.kernel.name", "string", ASVALUE), S(kn))] if kn else [])
                            evs.append((rec([], im, t), t, [dict(pid=pid, tid="cuda", ph="X", name=kn or "kernel", cat="kernel", ts=(t + 7) * 1e-3, dur=11e-3)]))
                        elif k == "rocm":
                            im = [("I", at("rocm.activity", "string", ASVALUE), S("K")), ("I", at("rocm.starttime", "uint", ASVALUE), ("uint", t + 7)), ("I", at("rocm.activity.duration", "uint", ASVALUE), ("uint", 12))]
                            evs.append((rec([], im, t), t, [dict(pid=pid, tid="rocm", ph="X", name="K", cat="K", ts=(t + 7) * 1e-3, dur=12e-3)]))
                        elif k == "gpu":
                            if f["ts"] != "gputrace.timestamp" or f["two"]: continue
                            b = rr.choice([0, 4]) + 10 * tr["tid"]; t2 = t + rr.choice([0, 5, 1000])
                            nm = [("gputrace.region", S(x)) for x in ["outer", "k"][-rr.choice([1, 2]):]]; at("gputrace.region", "string", NESTED)
                            evs.append((rec(list(nm), [("I", at("gputrace.begin", "uint", ASVALUE), ("uint", 1)), ("I", at("gputrace.block", "int", ASVALUE), ("int", b))], t), t, []))
                            evs.append((rec(list(nm), [("I", at("gputrace.end", "uint", ASVALUE), ("uint", 1)), ("I", at("gputrace.block", "int", ASVALUE), ("int", b))], t2), t2, [dict(pid=pid, tid="block.%d" % b, ph="X", name="k", cat="gpu", ts=t * 1e-3, dur=(t2 - t) * 1e-3)]))
                            now = t2
                        elif k == "plain": evs.append((rec(list(path), [], t), t, []))
                        elif k == "set": evs.append((rec(*[x + y for x, y in zip((list(path), []), event("set", "region", "v"))], t), t, []))
                        else: evs.append(([("R", list(path))] if path else [("I", "time.other", ("int", 3))], None, []))
                reg = []
                def walk(tree):
                    nonlocal now
                    for a, v, d0, kids, d1 in tree:
                        at(a, "string", NESTED)
                        now += d0; b = now
                        nd, im = event("begin", a, v)
                        reg.append(len(evs)); evs.append((rec(list(path) + nd, im, now), now, []))
                        path.append((a, S(v))); i = reg[-1]
                        walk(kids); extras()
                        now += d1
                        nd, im = event("end", a, v)
                        reg.append(len(evs))
                        evs.append((rec(list(path) + nd, im, now), now, [("X", i, dict(pid=pid, tid=tid, ph="X", name=v, cat=a, ts=b * fac, dur=(now - b) * fac))]))
                        path.pop()
                walk(tr["tree"]); extras()
                # the trace may begin and end inside of regions
                lo, hi = min(tr["cut"][0], len(reg)), len(reg) - tr["cut"][1]
                drop = set(reg[:lo]) | set(reg[max(lo, hi):])
                gone = {i for i in drop}
                keep = []
                for j, (rc, t, ex) in enumerate(evs):
                    if j in drop: continue
                    l = []
                    for e in ex:
                        if isinstance(e, tuple):
                            if e[1] in gone: continue
                            e = e[2]
                        l.append(e)
                    keep.append((rc, t, l))
                streams.append(keep)
            if f["sync"] is not None:
                s0 = f["sync"]
                at("ts.sync", "uint", ASVALUE)
                l = [("I", "ts.sync", ("uint", 1)), ("I", at(f["ts"], "uint", ASVALUE), ("uint", s0))]
                if f["pid"] is not None: l.append(("I", at(f["pattr"], "int", ASVALUE), ("int", f["pid"])))
                streams.append([(l, s0, [])]); tsync[pid] = s0 * fac
            # records of one track stay in order, except that whole tracks are interleaved; sometimes equal-time records only stay in order
            recs, pos = [], [0] * len(streams)
            while any(p < len(s) for p, s in zip(pos, streams)):
                k = rr.choice([k for k in range(len(streams)) if pos[k] < len(streams[k])]); recs.append(streams[k][pos[k]]); pos[k] += 1
            if rr.random() < 0.3:      # move records far from their place: the tool has to sort
                G = {}
                for x in recs: G.setdefault(x[1], []).append(x)
                ks = list(G); rr.shuffle(ks); recs = [x for k in ks for x in G[k]]
            n += sum(len(x[2]) for x in recs)
            exp += [(pid, e) for x in recs for e in x[2]]
            globs = [[at("cali.version", "string", ASVALUE | GLOBAL), "1"], [at("cmd line", "string", GLOBAL), 'a "b"']] if f["glob"] else []
            plain = lambda e: ["R", [[n, v[1]] for n, v in e[1]]] if e[0] == "R" else ["I", e[1], e[2][1]]
            s = {"attrs": A, "recs": [[plain(e) for e in x[0]] for x in recs], "globs": globs, "fmt": f["seed"]}
            texts.append(cali(s))
        if o["sync"] and tsync:
            mx = max(tsync.values())
            for p, e in exp: e["ts"] += mx - tsync.get(p, mx)
        args = []
        for k, v in (("pid-attributes", ",".join(o["pid"])), ("tid-attributes", ",".join(o["tid"])), ("counters", o["counters"])):
            if v: args += ["--%s=%s" % (k, v)] if o["eq"] else ["--" + k, v]
        if o["sync"]: args.append("--sync")
        if o["pretty"]: args.append("--pretty")
        d = tempfile.mkdtemp(prefix="vfte")
        try:
            names = []
            for k, t in enumerate(texts):
                names.append("r%d.cali" % k)
                with open(os.path.join(d, names[-1]), "w", encoding="utf-8", newline="") as h: h.write(t)
            got = self.convert(d, names, args, o["out"])
        finally: shutil.rmtree(d, ignore_errors=True)
        self.compare(got, [e for _, e in exp], "files %s" % [t[:1500] for t in texts] if n < 6 else "%d files" % len(texts))
        if len(texts) == 1:
            g = {"cali.version": "1", "cmd line": 'a "b"'} if case["files"][0]["glob"] else {}
            if got.get("otherData") != g: raise Fail("globals: otherData is %s, expected %s" % (got.get("otherData"), g))
        return dict(tags=["timeline", "files:%d" % len(texts)] + (["sync"] if o["sync"] else []) + (["cut"] if any(t["cut"] != [0, 0] for f in case["files"] for t in f["tracks"]) else []) + (["extra"] if any(f["extra"] for f in case["files"]) else []), nontrivial=n >= 4, show=texts[0][:1200])

    # ---- (2)
    def check_trace(self, ctx, w, clk, o, text, seen, what):
        A, recs, globs, prob = parse_cali(text)
        if prob: raise Fail("cali: %s" % prob[:3])
        times = {}
        for rec in recs:
            imm = {e[1]: e[2] for e in rec if e[0] == "I"}
            times.setdefault(imm.get("thr", ("", None))[1], []).append(imm["time.offset.ns"][1])
        exp, cnt, st = [], {}, {}
        for rec in seen:
            k = cnt[rec[0]] = cnt.get(rec[0], -1) + 1
            if k >= len(times.get(rec[0], [])): raise Fail("trace: records are missing")
            t = times[rec[0]][k]
            ev = [x for e in rec[1] for x in ([(e[1], e[2])] if e[0] == "I" else list(e[1])) if re.match(r"event\.(begin|end)#", x[0])]
            if len({n for n, _ in ev}) > 1: return False
            for n, v in ev[-1:]:
                kind, a = n[6:].split("#", 1)
                key = (rec[0], a)
                if kind.startswith("b"): st.setdefault(key, []).append(t)
                elif st.get(key): t0 = st[key].pop(); exp.append(dict(pid=0, tid=rec[0], ph="X", name=cali_text(*v), cat=a, ts=t0 * 1e-3, dur=(t - t0) * 1e-3))
        d = tempfile.mkdtemp(prefix="vfte")
        try:
            with open(os.path.join(d, "r.cali"), "w", encoding="utf-8", newline="") as h: h.write(text)
            got = self.convert(d, ["r.cali"], ["--tid-attributes=thr"], True)
        finally: shutil.rmtree(d, ignore_errors=True)
        self.compare(got, exp, "event-trace")
        return len(exp) >= 4

    # ---- (3)
    def split(self, case):
        recs = case["split"]
        kinds = {}
        for rec in recs:
            for c, v in rec.items():
                if kinds.setdefault(c, isinstance(v, str)) != isinstance(v, str): raise Invalid("mixed column")
        d = tempfile.mkdtemp(prefix="vfjs")
        try:
            with open(os.path.join(d, "i.json"), "w") as h: json.dump(recs, h)
            a = [os.path.join(d, "i.json")] + ([os.path.join(d, "o.json")] if case["out"] else [])
            text = self.main("json2json_split", a)
            if case["out"]: text = open(a[1]).read()
            try: g = json.loads(text)
            except ValueError as e: raise Fail("json: output is not JSON: %s" % e)
        finally: shutil.rmtree(d, ignore_errors=True)
        if sorted(g["columns"]) != sorted(kinds) or len(g["column_metadata"]) != len(g["columns"]): raise Fail("columns: %s %s, expected %s" % (g["columns"], g["column_metadata"], sorted(kinds)))
        def path(i, c):
            l = []
            while i is not None:
                if not (isinstance(i, int) and 0 <= i < len(g["nodes"])) or len(l) > 100: raise Fail("nodes: node %s does not exist" % i)
                x = g["nodes"][i]
                if x["column"] != c: raise Fail("nodes: node %s belongs to column %s, not %s" % (i, x["column"], c))
                l.insert(0, x["label"]); i = x.get("parent")
            return l
        for c, m in zip(g["columns"], g["column_metadata"]):
            if m.get("is_value") != (not kinds[c]): raise Fail("columns: is_value of %s is %s" % (c, m))
        if len(g["data"]) != len(recs): raise Fail("rows: %d, expected %d" % (len(g["data"]), len(recs)))
        for k, (row, rec) in enumerate(zip(g["data"], recs)):
            got = {c: "/".join(path(v, c)) if kinds[c] else v for c, v in zip(g["columns"], row) if v is not None}
            if len(row) != len(g["columns"]) or got != rec: raise Fail("row %d: %s, expected %s" % (k, got, rec))
        if len({(x["column"], x["label"], x.get("parent")) for x in g["nodes"]}) != len(g["nodes"]): raise Fail("nodes: equal nodes: %s" % g["nodes"])
        return dict(tags=["json-split"], nontrivial=len(recs) >= 3, show=recs[:3])

CHECK = C36

"""C03: a trace holds every record exactly once, in order."""
from vf.engine import Check, Fail
from vf.driver import enc, dec, Crash
from vf.rt import World
from checks import rtgen

MIB = 1 << 20
class C03(Check):
    id = "C03"
    rule = ("two kinds of generated programs on 1-4 threads: (a) annotation histories with event tracing and interleaved snapshots, flushes, clears and thread exits, every record compared with the model; "
            "(b) bulk traces of thousands of records of varying size that overflow the trace buffer under the grow, stop and flush policies and buffer sizes, with flushes and clears in between, every record compared by thread, sequence value, size and checksum; "
            "non-trivial: (a) at least 5 records and one flush after others were recorded, (b) at least one buffer overflowed")
    assumptions = ["operations of different threads do not overlap in time here (C06 covers concurrency)", "records have at most 100 entries"]
    quick, thorough = 2500, 60000

    def gen(self, r, i, tier):
        if r.random() < 0.85:
            def extra(r, w, t):
                k = r.random()
                hs = [h for h in w.h if w.attrs[w.h[h]].type == "int" and w.attrs[w.h[h]].name != "thr"]
                if k < 0.25: return ["chclear", t, "c0"]
                if k < 0.5: return ["dump", t, "c0"]
                if k < 0.9 or not hs: return ["push", t, [[h, rtgen.value(r, w.attrs[w.h[h]].type)] for h in r.sample(list(w.h), min(len(w.h), r.randrange(4))) if w.attrs[w.h[h]].name != "thr"]]
                return ["pushn", t, r.randrange(1, 20), r.choice([0, -5, 2**40]), r.sample(hs, r.randrange(1, min(len(hs), 5) + 1))]
            return {"kind": "hist", "ops": rtgen.history(r, big=tier != "quick", channels=True, query=0.1, extra_op=extra, mistakes=0.0 if r.random() < 0.9 else 0.05,
                                                         chcfg={"CALI_TRACE_BUFFER_POLICY": r.choice(["grow", "stop", "flush"]), "CALI_TRACE_BUFFER_SIZE": r.choice(["1", "2", "3", "0"])})}
        nt = r.choice([1, 1, 2, 3])
        pol = r.choice(["grow", "stop", "flush"])
        size = r.choice(["1", "1", "1", "2", "0"]) 
        ops = []
        for _ in range(r.randrange(4, 14)):
            t, k = r.randrange(nt), r.random()
            if k < 0.5:
                na = r.choice([60, 60, 40, 64, 20])
                ops.append(["pushn", t, r.choice([1, 5, 200, 800, 1600, 2500]) * (2 if size == "2" else 1), na, r.choice([2**62, 2**62, 2**61, 5])])
            elif k < 0.62: ops.append(["pushn", t, r.randrange(1, 4), r.choice([1, 2]), 7])
            elif k < 0.72: ops.append(["rb", t])
            elif k < 0.8: ops.append(["re", t])
            elif k < 0.87 and pol != "flush": ops.append(["clear", t])
            elif k < 0.95 and pol != "flush": ops.append(["dump", t])
            elif t: ops.append(["join", t])
        return {"kind": "bulk", "policy": pol, "size": size, "ops": ops}

    def run(self, ctx, case):
        return self.run_hist(ctx, case) if case["kind"] == "hist" else self.run_bulk(ctx, case)

    def run_hist(self, ctx, case):
        w = World(case["ops"])
        w.finish()
        res = ctx.drv().run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        s = w.stats
        return dict(tags=["hist"] + ["threads%d" % min(w.ninc, 4)] + (["cleared"] if any(o[0] == "chclear" for o in case["ops"]) else []),
                    nontrivial=s["records"] >= 5 and s["dumps"] >= 2, show=w.lines[:40])

    def run_bulk(self, ctx, case):
        pol, size = case["policy"], max(1, int(case["size"])) * MIB
        if pol not in ("grow", "stop", "flush"): return None
        L = ["0 cattr thr thr int %d" % (1 | 64)] + ["0 cattr K%d k%d int %d" % (i, i, 1 | 64) for i in range(64)]
        cfg = {"CALI_SERVICES_ENABLE": "trace", "CALI_CHANNEL_FLUSH_ON_EXIT": "false", "CALI_TRACE_BUFFER_POLICY": pol, "CALI_TRACE_BUFFER_SIZE": case["size"]}
        if pol == "flush": cfg.update({"CALI_SERVICES_ENABLE": "trace,recorder", "CALI_RECORDER_FILENAME": "stdout"})
        L.append("0 chnew c 0 " + " ".join("%s %s" % (enc(k), enc(v)) for k, v in cfg.items()))
        inc, depth, recs, ninc = {}, {}, {}, 0
        checks = []
        small = {}            # incarnation -> upper estimate of the bytes used since the last clear
        low = {}
        nbytes = 0
        def thread(t):
            nonlocal ninc
            if t not in inc:
                inc[t] = ninc; ninc += 1; depth[t] = 0
                recs[inc[t]] = []; small[inc[t]] = 0
                L.append("%d set id thr i:%d" % (t, inc[t]))
            return inc[t]
        over = False
        for o in case["ops"]:
            if o[0] == "join":
                if o[1] and o[1] in inc: L.append("T %d" % o[1]); del inc[o[1]]
                continue
            t = o[1]; n = thread(t)
            if o[0] == "pushn":
                cnt, na, v0 = min(max(o[2], 0), 6000), min(max(o[3], 1), 64), o[4]
                L.append("%d pushn %d %d %s" % (t, cnt, v0, " ".join("K%d" % i for i in range(na))))
                for k in range(cnt): recs[n].append((str(v0 + k), 1 + na + depth[t], (n + na * (v0 + k)) % 2**64, na * 9 if v0 > 2**55 else na * 3, 10 + 30 * (na + 3)))
                small[n] += cnt * (10 + 30 * (na + 3))
                if small[n] > size: over = True
            elif o[0] == "rb": L.append("%d rb r%d" % (t, depth[t])); depth[t] += 1
            elif o[0] == "re":
                if depth[t]: depth[t] -= 1; L.append("%d re r%d" % (t, depth[t]))
            elif o[0] == "clear" and pol != "flush":
                L.append("%d chclear 0" % t)
                checks.append(("clear",))
                for k in recs: recs[k] = []; small[k] = 0
            elif o[0] == "dump" and pol != "flush":
                L.append("%d dumpc 0 K0" % t); checks.append(("dump", len(L) - 1, {k: list(v) for k, v in recs.items()}))
        thread(0)
        if pol == "flush": L.append("0 chflush 0")
        else: L.append("0 dumpc 0 K0"); checks.append(("dump", len(L) - 1, {k: list(v) for k, v in recs.items()}))
        d = ctx.drv()
        res = d.run(L)
        cut = {}
        overflowed = False
        if pol == "flush":
            out = d.req("readsum", "k0", res.out)
            if out[1]: raise Fail("unreadable: the recorder's output cannot be read: " + out[1][:200])
            self.compare(out[2], recs, False, {}, size, "output")
            overflowed = over
        else:
            for c in checks:
                if c[0] == "clear": cut = {}
                else:
                    self.compare(dec(res.res.get(c[1], "")), c[2], pol == "stop", cut, size, "program line %d" % c[1])
            overflowed = over
        return dict(tags=["bulk", pol] + (["overflow"] if overflowed else []) + ["size" + case["size"]], nontrivial=overflowed, show={k: case[k] for k in ("policy", "size", "ops")})

    def compare(self, text, recs, stop, cut, size, where):
        got = {}
        for l in text.split("\n"):
            if l:
                f = l.split(" ")
                got.setdefault(int(f[0]) if f[0] != "-" else None, []).append((f[1], int(f[2]), int(f[3])))
        for t in set(got) - set(recs): raise Fail("altered: %s has %d records of a thread %s that made none" % (where, len(got[t]), t))
        for t, want in recs.items():
            g = got.get(t, [])
            if stop:
                if len(g) > len(want): raise Fail("duplicated: %s: thread %d has %d records, %d were made" % (where, t, len(g), len(want)))
                if g != [x[:3] for x in want[:len(g)]]:
                    i = next(i for i in range(len(g)) if g[i] != want[i][:3])
                    raise Fail("altered: %s: thread %d record %d is %s, expected %s (stop policy keeps the oldest records)" % (where, t, i, g[i], want[i][:3]))
                if t in cut and cut[t] != len(g): raise Fail("not stopped: %s: thread %d stopped after %d records but now has %d" % (where, t, cut[t], len(g)))
                used, k = 0, 0
                for x in want:
                    if used + x[4] + 1 >= size: break
                    used += x[4]; k += 1
                if len(g) < min(k, len(want)): raise Fail("lost: %s: thread %d kept %d of %d records although the first %d fit" % (where, t, len(g), len(want), k))
                if sum(x[3] for x in want[:len(g)]) > size: raise Fail("bound: %s: thread %d has more data than fits the buffer" % (where, t))
                if len(g) < len(want): cut[t] = len(g)
            else:
                w = [x[:3] for x in want]
                if g != w:
                    i = next((i for i in range(min(len(g), len(w))) if g[i] != w[i]), min(len(g), len(w)))
                    raise Fail("%s: %s: thread %d has %d records, expected %d; record %d is %s, expected %s" % (
                        "lost" if len(g) < len(w) else "duplicated" if len(g) > len(w) else "order or content", where, t, len(g), len(w), i, g[i] if i < len(g) else "missing", w[i] if i < len(w) else "none"))
CHECK = C03

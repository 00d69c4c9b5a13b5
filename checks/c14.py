"""C14: merging streams is a faithful union."""
import random
from collections import Counter
from vf.engine import Check, Fail, Invalid
from vf.model import *
from checks.c13 import parse_read, norm

QUERIES = ["AGGREGATE count()", "AGGREGATE count(),sum({n}) GROUP BY path", "AGGREGATE count(),min({n}),max({n}) GROUP BY {a}", "AGGREGATE count() GROUP BY {a},{b}",
           "AGGREGATE sum({n}) GROUP BY prop:nested,{b}", "SELECT * WHERE {a}", "SELECT * WHERE NOT {b}", "LET q=scale({n},2) SELECT *", "AGGREGATE inclusive_sum({n}) GROUP BY path"]

class C14(Check):
    id = "C14"
    rule = ("record sets over one attribute table split into 1-6 streams, each written with its own node numbering, node order, field order and duplicate definitions; compared with the record "
            "model, and queries over the split streams compared with the same queries over one stream; non-trivial: at least two non-empty streams that share an attribute")
    assumptions = ["query results are compared as multisets of records", "sums are compared with relative tolerance 1e-9"]
    quick, thorough = 12000, 120000

    def gen(self, r, i, tier):
        s = gen_stream(r, meta=True, nrec=r.choice([1, 2, 4, 8, 16, 32]), small=True, weird=r.random() < 0.5)
        n = r.randrange(1, 7)
        parts = [r.randrange(n) for _ in s["recs"]]
        gparts = [sorted(set(r.randrange(n) for _ in range(r.randrange(1, 3)))) for _ in s["globs"]]
        names = [a for a in s["attrs"]]
        num = [a for a in names if s["attrs"][a][0] in ("int", "uint", "double") and s["attrs"][a][1] & ASVALUE] or ["nope"]
        q = r.choice(QUERIES)
        return {"s": s, "parts": parts, "gparts": gparts, "fmts": [r.randrange(1 << 30) for _ in range(n)],
                "q": [q, r.choice(names), r.choice(names), r.choice(num)], "vary_def": r.random() < 0.15}

    def run(self, ctx, case):
        s = case["s"]
        valid_stream(s)
        n = len(case["fmts"])
        if n == 0: raise Invalid("no stream")
        subs = []
        for k in range(n):
            A = {a: list(v) for a, v in s["attrs"].items()}
            if case["vary_def"] and k % 2:   # same name, different definition in another stream
                for a in A:
                    if not A[a][1] & (GLOBAL | ASVALUE): A[a][1] ^= SKIP_EVENTS
            subs.append({"attrs": A, "recs": [rec for j, rec in enumerate(s["recs"]) if case["parts"][j:j + 1] == [k]],
                         "globs": [g for j, g in enumerate(s["globs"]) if k in case["gparts"][j]], "fmt": case["fmts"][k]})
        d = ctx.drv()
        texts = [cali(x) for x in subs]
        err, attrs, globs, recs = parse_read(d.req("read", str(n), *texts))
        if err: raise Fail("reader error: " + err)
        exp = [model_rec(x, rec) for x in subs for rec in x["recs"]]
        if len(exp) != len(recs): raise Fail("%d records, expected %d" % (len(recs), len(exp)))
        for i, (a, b) in enumerate(zip(exp, recs)):
            if not rec_eq(a, b, 6e-6): raise Fail("record %d is %s, expected %s" % (i, b, a))
        eg = {}
        for x in subs:
            for gn, v in x["globs"]: eg[repr((gn, v))] = (gn, (x["attrs"][gn][0], v))
        gg = {repr((gn, v[1])): (gn, v) for gn, v in flat(globs)}
        if sorted(eg) != sorted(gg): raise Fail("globals are %s, expected %s" % (gg, eg))
        nonempty = [x for x in subs if x["recs"]]
        tags = ["streams=%d" % n, "def-varies" if case["vary_def"] else "def-same"]
        if not case["vary_def"]:
            for a in s["attrs"]:
                if a in attrs and attrs[a][:2] != (s["attrs"][a][0], s["attrs"][a][1]): raise Fail("attribute %r is %s" % (a, attrs[a]))
            q, a, b, num = case["q"]
            qt = lambda t: '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'
            q = q.format(a=qt(a), b=qt(b), n=qt(num))
            one = dict(s); one["recs"] = [rec for x in subs for rec in x["recs"]]
            r1 = d.req("exec", q, "1", cali(one)); r2 = d.req("exec", q, str(n), *texts)
            r3 = d.req("exec", q, str(n), *texts[::-1])
            if r1[0] != "ok": raise Fail("query rejected: %s %s" % (q, r1))
            def canon(o): return Counter(repr(sorted((k, v[0], round(v[1], 6) if v[0] == "double" else v[1]) for k, v in flat(parse_rec(x)))) for x in o[2:])
            if canon(r1) != canon(r2): raise Fail("query %s over the split streams differs: %s" % (q, list((canon(r1) - canon(r2)).items())[:2] + ["vs"] + list((canon(r2) - canon(r1)).items())[:2]))
            if canon(r3) != canon(r2): raise Fail("query %s depends on the stream order" % q)
            tags.append(case["q"][0].split(" ")[0])
        return dict(tags=tags, nontrivial=len(nonempty) >= 2, show=dict(streams=texts[:2], query=case["q"][0]))
CHECK = C14

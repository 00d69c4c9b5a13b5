"""C19: aggregation is independent of order and partition."""
from vf.engine import Check, Fail, Invalid
from vf.model import *
from vf.query import *
from vf.driver import enc
from checks.c18 import OPS, gen_ops, gen_keys, agg_query, gen_agg_stream, check_ops

MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", ASAN_OPTIONS="detect_leaks=0:exitcode=99", OMPI_MCA_plm_rsh_agent="/bin/false")

def gen_plan(r, n):
    """postfix merge plan over streams 0..n-1"""
    ks = list(range(n)); r.shuffle(ks)
    def build(ks):
        if not ks: return ["e"]
        if len(ks) == 1: return [str(ks[0])]
        if r.random() < 0.15: return ["e"] + build(ks) + ["+"]
        if r.random() < 0.3:
            return build(ks[:-1]) + (["," + str(ks[-1])] if r.random() < 0.4 else [str(ks[-1]), "+"])
        m = r.randrange(1, len(ks))
        return build(ks[:m]) + build(ks[m:]) + ["+"]
    return " ".join(build(ks))

class C19(Check):
    id = "C19"
    rule = ("random record sets, permuted and split into 1-6 parts (separate streams with their own attribute and node ids; parts may lack attributes or be empty) that are aggregated separately and merged "
            "along a random merge tree, with records read into a part before or after it absorbed other parts; also mpi-caliquery runs on 1-6 ranks; all results compared with a single-pass model "
            "of all records; non-trivial: at least 2 non-empty parts share a key")
    assumptions = ["by-value string attributes are not keys or targets across MPI ranks", "any() may return any value of the group", "a result's own name (sum#x) is not an input attribute next to x"]
    quick, thorough = 8000, 300000

    def gen(self, r, i, tier):
        mpi = i % (60 if tier == "quick" else 200) == 0
        s = gen_agg_stream(r, nrec=r.choice([2, 5, 12, 30, 60]) if not mpi else r.choice([10, 60, 200]), weird=0.2)
        if mpi and r.random() < 0.5:
            A = {"function": ["string", NESTED, {}], "k": ["int", ASVALUE, {}], "v": ["double", ASVALUE, {}], "w": ["int", ASVALUE, {}]}
            s = {"attrs": A, "globs": [], "fmt": r.randrange(1000), "recs": [[["R", [["function", "f%d" % r.randrange(40)] for _ in range(r.randrange(1, 4))]], ["I", "k", r.randrange(200)], ["I", r.choice("vw"), r.randrange(100)]] for _ in range(r.choice([50, 500, 1500]))]}
        wide = mpi and r.random() < 0.35
        if wide:    # records too large for small transfer buffers
            m = r.choice([10, 25, 45, 90])
            A = {"function": ["string", NESTED, {}]}
            for k in range(m): A["w%d" % k] = [r.choice(["int", "double"]), ASVALUE, {}]
            s = {"attrs": A, "globs": [], "fmt": r.randrange(1000), "recs": [[["R", [["function", "f%d" % r.randrange(4)] for _ in range(r.randrange(1, 3))]]] + [["I", "w%d" % k, r.choice([r.randrange(100), r.randrange(10**6)])] for k in range(m) if r.random() < 0.9] for _ in range(r.choice([2, 10, 30]))]}
        A = s["attrs"]
        if mpi:
            for n in A:
                if A[n][0] == "string": A[n][1] &= ~ASVALUE
            s["recs"] = [[["R", [[e[1], e[2]]]] if e[0] == "I" and A[e[1]][0] == "string" else e for e in rec] for rec in s["recs"]]
        n = r.choice([1, 2, 2, 3, 4, 6])
        mode = r.choice(["random", "block", "skew"])
        part = [r.randrange(n) if mode == "random" else (j * n // max(1, len(s["recs"]))) if mode == "block" else (0 if r.random() < 0.8 else r.randrange(n)) for j in range(len(s["recs"]))]
        if r.random() < 0.3:    # an attribute only some part has
            a = r.choice(list(A))
            k = r.randrange(n)
            s["recs"] = [rec if p == k else [e for e in ([["R", [x for x in e[1] if x[0] != a]] if e[0] == "R" else e for e in rec]) if not (e[0] == "I" and e[1] == a) and not (e[0] == "R" and not e[1])] for p, rec in zip(part, s["recs"])]
        perm = list(range(len(s["recs"])))
        if r.random() < 0.7: r.shuffle(perm)
        ops, key = gen_ops(r, A), gen_keys(r, A)
        if key and any(o[0] in INCLUSIVE for o in ops):   # known finding c19-key-operand
            used = {a for o in ops for a in o[1:]}
            key = [[k for k in key[0] if not any(a in used and (a == k or k in A[a][2]) for a in A)], True]
        if wide: ops, key = [[r.choice(["sum", "min", "max"]), n] for n in A if n != "function"], r.choice([[["function"], False], [["function"], False], [[], False]])
        return {"s": s, "ops": ops, "key": key, "n": n, "part": part, "perm": perm, "plan": gen_plan(r, n), "mpi": mpi, "fmt": r.randrange(1 << 30)}

    def run(self, ctx, case):
        s = case["s"]
        valid_stream(s)
        A = {n: list(v) for n, v in s["attrs"].items()}
        ops, key, r = case["ops"], case["key"], random.Random(case["fmt"])
        check_ops(A, ops, key)
        if any(o[0] in INCLUSIVE for o in ops) and key is not None and not case.get("known") and any(a in o[1:] and A[a][1] & ASVALUE for a in A if is_key(A, key[0], a) for o in ops): raise Invalid("operand is key")
        n = case["n"]
        part = (case["part"] + [0] * len(s["recs"]))[:len(s["recs"])]
        if not n or any(p >= n for p in part): raise Invalid("parts")
        perm = [p for p in case["perm"] if p < len(s["recs"])]
        perm += [p for p in range(len(s["recs"])) if p not in set(perm)]
        if len(set(perm)) != len(perm): raise Invalid("perm")
        recs = [model_rec(s, x) for x in s["recs"]]
        keys, up = key if key is not None else ([], False)
        exp = aggregate(A, recs, ops, keys, up, key is None)
        texts = []
        for k in range(n):
            texts.append(cali({"attrs": s["attrs"], "recs": [s["recs"][j] for j in perm if part[j] == k], "globs": [], "fmt": case["fmt"] + k}))
        q = agg_query(ops, key, r, 0)
        if case["mpi"]:
            if any(v[0] == "string" and v[1] & ASVALUE for v in A.values()): raise Invalid("by-value string")
            from vf.build import tool
            rc, out, err, extra = self.mpi(ctx, q + " FORMAT cali", texts)
            got = parse_cali(out)[1]
            rel = 6e-6
        else:
            plan = case["plan"].split()
            if sorted(t.lstrip(",") for t in plan if t not in "e+") != sorted(map(str, range(n))): raise Invalid("plan")
            d = 0
            for t in plan:
                d += -1 if t == "+" else 0 if t[0] == "," else 1
                if d < 1: raise Invalid("plan")
            if d != 1 or plan[0][0] == "," or any(a[0] == "," and b == "" for a, b in zip(plan, plan[1:])): raise Invalid("plan")
            o = ctx.drv().req("agg", q, case["plan"], str(n), "", *texts)
            if o[0] != "ok": raise Fail("query rejected: %s: %s" % (q, o[1:]))
            if o[1]: raise Fail("reader error: " + o[1])
            got = [parse_rec(x) for x in o[2:]]
            rel = 1e-9
        rows, prob = rows_of(A, got, ops, keys)
        if prob: raise Fail("%s [%s]: %s" % (q, case["plan"], prob))
        diff = compare_rows(exp, rows, rel)
        if diff: raise Fail("%s [%s]: %s" % (q, case["plan"] if not case["mpi"] else "%d ranks" % n, diff))
        gk = {}
        for rec, p in zip(recs, part): gk.setdefault(group(A, rec, keys, up, key is None), set()).add(p)
        tags = sorted({o[0] for o in ops}) + ["parts:%d" % len(set(part)), "mpi" if case["mpi"] else "local"] + (["wide"] if len(ops) >= 25 else [])
        return dict(tags=tags, nontrivial=any(len(v) > 1 for v in gk.values()), show=dict(query=q, plan=case["plan"], mpi=case["mpi"], parts=[t[:200] for t in texts], rows=len(exp)))

    def mpi(self, ctx, q, texts):
        from vf import build
        import subprocess, tempfile, os, shutil
        from vf.driver import Inconclusive, Crash, san_tail
        d = tempfile.mkdtemp(prefix="vfmpi")
        try:
            for k, t in enumerate(texts):
                with open(os.path.join(d, "%d.cali" % k), "wb") as f: f.write(t.encode("utf-8", "surrogateescape"))
            env = {k: v for k, v in os.environ.items() if not k.startswith("CALI_")}
            env.update(MPIENV)
            try:
                p = subprocess.run(["timeout", "-k", "5", "60", "mpirun", "--oversubscribe", "-n", str(len(texts)), build.tool("mpi-caliquery"), "-q", q], cwd=d, env=env, stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=80)
            except subprocess.TimeoutExpired:
                raise Inconclusive("mpirun timeout")
            err = p.stderr.decode("utf-8", "surrogateescape")
            if "AddressSanitizer" in err or "runtime error:" in err: raise Crash(san_tail(err))
            if p.returncode == 124: raise Inconclusive("mpirun timeout")
            if p.returncode != 0:
                if "signal" in err and "mpi-caliquery" in err or "Invalid query" in err: raise Crash("mpi-caliquery: " + err[-1500:])
                raise Inconclusive("mpirun failed: " + err[-500:])
            if "error" in err: raise Fail("mpi-caliquery: " + err[-500:])
            return p.returncode, p.stdout.decode("utf-8", "surrogateescape"), err, {}
        finally:
            shutil.rmtree(d, ignore_errors=True)
CHECK = C19

"""C17: LET computes its definition for every record."""
from vf.engine import Check, Fail, Invalid
from vf.model import *
from vf.query import *

class C17(Check):
    id = "C17"
    rule = ("record sets with LET lists of 1-5 terms over all operators with numeric by-value and reference operands, missing operands, terms that use earlier results and IF conditions; each "
            "result record compared with an independent evaluation; non-trivial: at least one record got a result and one did not")
    assumptions = ["operands are numeric for ratio, scale, truncate and sum; operands of one sum have one type", "truncate is exercised with values below 2^52", "result names are new names"]
    quick, thorough = 24000, 300000

    def gen(self, r, i, tier):
        weird = r.random() < 0.4
        s = gen_stream(r, nrec=r.choice([1, 3, 6, 12]), plain=True, small=r.random() < 0.7, globs=False, weird=weird)
        A = dict(s["attrs"])
        lets = []
        for k in range(r.choice([1, 1, 2, 3, 5])):
            tgt = r.choice(["res", "x.y", "a b", "out", "time.s"]) + str(k)
            nums = [n for n in A if A[n][0] in ("int", "uint", "double")]
            miss = lambda pool: "missing" if not pool or r.random() < 0.05 else r.choice(pool)
            op = r.choice(["ratio", "scale", "truncate", "first", "sum", "leaf"])
            S = r.choice(["1", "2", "10", "0.5", "1e-3", "-4", "1000", "0.25"])
            if op == "ratio": args = [miss(nums), miss(nums)] + ([S] if r.random() < 0.6 else [])
            elif op == "scale": args = [miss(nums), S]
            elif op == "truncate": args = [miss(nums)] + ([r.choice(["1", "2", "5", "10", "100", "3"])] if r.random() < 0.8 else [])
            elif op == "first":
                t = r.choice([A[n][0] for n in A])
                args = [miss([n for n in A if A[n][0] == t]) for _ in range(r.randrange(1, 5))]
            elif op == "sum":
                t = r.choice(["int", "uint", "double"])
                args = [miss([n for n in A if A[n][0] == t]) for _ in range(r.randrange(1, 6))]
            else: args = [miss(list(A))] if r.random() < 0.6 else []
            cond = gen_cond(r, s, [n for n in s["attrs"]], good=1.0) if r.random() < 0.35 else None
            if op == "leaf" and not args: rt = "string"
            elif op in ("ratio", "scale"): rt = "double"
            else: rt = next((A[n][0] for n in args if n in A), "double")
            lets.append([tgt, op, args, cond])
            A[tgt] = [rt, ASVALUE | SKIP_EVENTS, {}]
        return {"s": s, "lets": lets, "mode": r.choice(["exec", "cali"]), "fmt": r.randrange(1 << 30)}

    def run(self, ctx, case):
        s = case["s"]
        valid_stream(s)
        lets = case["lets"]
        if not lets: raise Invalid("no term")
        A = {n: list(v) for n, v in s["attrs"].items()}
        nargs = {"ratio": (2, 3), "scale": (2, 2), "truncate": (1, 2), "first": (1, 8), "sum": (1, 8), "leaf": (0, 1)}
        known, T = set(A), {n: v[0] for n, v in A.items()}
        for tgt, op, args, cond in lets:
            if not tgt or tgt in known or not nargs[op][0] <= len(args) <= nargs[op][1] or any(not a for a in args): raise Invalid("term")
            if cond is not None and (cond[2] and not cond[3] or not cond[1]): raise Invalid("cond")
            ts = [T[a] for a in args[:2 if op == "ratio" else 1 if op in ("scale", "truncate") else 9] if a in T]
            if op in ("ratio", "scale", "truncate", "sum") and any(t not in ("int", "uint", "double") for t in ts): raise Invalid("operand type")
            if op in ("sum", "first") and len(set(ts)) > 1: raise Invalid("mixed operand types")
            if op in ("ratio", "scale", "truncate"):
                x = args[2:] if op == "ratio" else args[1:]
                if any(num_text(y) is None for y in x) or (op == "truncate" and any(float(y) <= 0 for y in x)): raise Invalid("scale")
            known.add(tgt)
            T[tgt] = "double" if op in ("ratio", "scale") else "string" if op == "leaf" and not args else (ts[0] if ts else "double")
        lim = 2**52
        trunc = {a for l in lets if l[1] == "truncate" for a in l[2][:1]}
        recs = [model_rec(s, x) for x in s["recs"]]
        if any(n in trunc and v[0] in ("int", "uint", "double") and abs(v[1]) > lim for rec in recs for n, v in flat(rec)): raise Invalid("truncate range")
        for l in lets:
            if l[1] == "sum":
                for rec in recs:
                    if any(abs(num(v)) > 2**60 for a in l[2] for v in vals(rec, a) if v[0] != "double"): raise Invalid("sum range")
        exp = let_apply(A, recs, lets)
        if exp is None: raise Invalid("cond operand")
        if any(l[1] == "truncate" for l in lets) and any(v[0] != "double" and abs(v[1]) > lim for l in lets if l[1] == "truncate" for rec in exp for v in vals(rec, l[2][0]) if v[0] in ("int", "uint")): raise Invalid("range")
        if any(l[1] == "truncate" and abs(v[1]) > lim for l in lets for rec in exp for v in vals(rec, l[2][0] if l[2] else "") if v[0] == "double"): raise Invalid("range")
        r = random.Random(case["fmt"])
        q = let_text(lets, r) + " SELECT *"
        got = run_query(ctx.drv(), case["mode"], q, [cali(s)])
        rel = 1e-12 if case["mode"] == "exec" else 6e-6
        for i in range(max(len(exp), len(got))):
            if i >= len(exp) or i >= len(got) or not rec_eq(exp[i], got[i], rel):
                raise Fail("%s: record %d is %s, expected %s" % (q, i, got[i:i + 1], exp[i:i + 1]))
        n = sum(len(a) - len(b) for a, b in zip(exp, recs))
        return dict(tags=sorted({l[1] + (" IF" if l[3] is not None else "") for l in lets}), nontrivial=0 < n < len(recs) * len(lets), show=dict(query=q, results=n, stream=cali(s)[:500]))
CHECK = C17

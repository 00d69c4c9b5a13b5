"""C18: query aggregation computes exactly the grouped reductions."""
from vf.engine import Check, Fail, Invalid
from vf.model import *
from vf.query import *

OPS = ["count", "sum", "min", "max", "avg", "any", "percent_total", "ratio", "scale", "scale_count", "variance", "inclusive_sum", "inclusive_scale",
       "inclusive_percent_total", "inclusive_ratio", "inclusive_min", "inclusive_max"]
SC = ["1", "2", "0.5", "10", "1e-3", "-2"]

def gen_ops(r, A, allowed=OPS, n=None):
    nums = [a for a in A if A[a][0] in ("int", "uint", "double") and A[a][1] & ASVALUE and not A[a][1] & GLOBAL]
    imm = [a for a in A if A[a][1] & ASVALUE and not A[a][1] & GLOBAL]
    ops, seen = [], set()
    for _ in range(n or r.choice([1, 2, 3, 5])):
        o = r.choice(allowed)
        if o == "count": c = [o]
        elif o == "scale_count": c = [o, r.choice(SC)]
        elif o == "any":
            if not imm: continue
            c = [o, r.choice(imm)]
        elif not nums: continue
        elif "ratio" in o: c = [o, r.choice(nums), r.choice(nums)] + ([r.choice(SC)] if r.random() < 0.5 else [])
        elif "scale" in o: c = [o, r.choice(nums), r.choice(SC)]
        else: c = [o, r.choice(nums) if r.random() < 0.97 else "missing.attr"]
        if res_name(c) in seen or ("ratio" in o and c[1] == c[2]): continue
        seen.add(res_name(c)); ops.append(c)
    return ops or [["count"]]

def gen_keys(r, A):
    """-> [keys, use_path] or None for no GROUP BY"""
    if r.random() < 0.15: return None
    pool = [a for a in A if not A[a][1] & GLOBAL]
    metas = sorted({m for a in A for m in A[a][2]})
    ks = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        a = r.choice(metas) if metas and r.random() < 0.3 else r.choice(pool)
        if a not in ks and A[a][0] != "double": ks.append(a)
    up = r.random() < 0.5
    if not ks and not up: up = True
    return [ks, up]

def agg_query(ops, key, r=None, form=0):
    if form == 0: q = "AGGREGATE " + ",".join(op_text(o, r) for o in ops)
    else: q = "SELECT *," + ",".join(op_text(o, r) for o in ops)
    if key is not None:
        ks = [qt(k, r) for k in key[0]] + ([r.choice(["path", "prop:nested"]) if r else "path"] if key[1] else [])
        if r: r.shuffle(ks)
        q += " GROUP BY " + ",".join(ks)
    return q

def gen_agg_stream(r, nrec=None, negatives=0.5, weird=0.3):
    s = gen_stream(r, nrec=nrec or r.choice([1, 3, 8, 20, 50]), plain=True, small=True, globs=False, meta=r.random() < 0.3, weird=r.random() < weird, depth=r.choice([2, 4, 6]))
    if r.random() < 0.5 and s["recs"]:   # records with the same entries in another order
        for _ in range(r.choice([1, 2, 5])):
            rec = [[e[0], [list(x) for x in e[1]]] if e[0] == "R" else list(e) for e in r.choice(s["recs"])]
            r.shuffle(rec)
            rec.sort(key=lambda e: e[0] != "R")
            s["recs"].insert(r.randrange(len(s["recs"]) + 1), rec)
    if r.random() > negatives:
        for rec in s["recs"]:
            for e in rec:
                if e[0] == "I" and s["attrs"][e[1]][0] in ("int", "double"): e[2] = abs(e[2])
    return s

def check_ops(A, ops, key):
    if not ops: raise Invalid("no operator")
    seen = set()
    for o in ops:
        n = res_name(o)
        if n in seen: raise Invalid("operator repeated")
        seen.add(n)
        for a in o[1:3 if "ratio" in o[0] else 2]:
            if o[0] == "scale_count": continue
            if not a: raise Invalid("name")
            if o[0] != "any" and a in A and (A[a][0] not in ("int", "uint", "double") or not A[a][1] & ASVALUE): raise Invalid("operand")
        if any(not x for x in o[1:]): raise Invalid("arg")
        for x in (o[2:] if o[0] in ("scale", "inclusive_scale") else o[3:] if "ratio" in o[0] else o[1:] if o[0] == "scale_count" else []):
            if num_text(x) is None: raise Invalid("scale")
        if "ratio" in o[0] and o[1] == o[2]: raise Invalid("ratio")
        if any("#" in a and a in A for a in o[1:]): raise Invalid("derived names")
    if key is not None and (any(not k or k == "path" or k in ("prop:nested",) for k in key[0]) or not (key[0] or key[1])): raise Invalid("key")

class C18(Check):
    id = "C18"
    rule = ("record sets aggregated with random operator lists and key lists (nested path, nested and other reference attributes, by-value attributes, attribute metadata, no GROUP BY), optionally "
            "after WHERE and LET; the set of result rows and every result value compared with an independent computation; non-trivial: at least 2 result rows and 3 records")
    assumptions = ["aggregated operands are numeric by-value attributes (any type for any())", "averages of integer attributes are truncated to the attribute's type",
                   "a ratio with zero denominator only has to be a real number or inf/nan", "values are exact in double arithmetic"]
    quick, thorough = 20000, 400000

    def gen(self, r, i, tier):
        s = gen_agg_stream(r)
        if r.random() < 0.02:   # many distinct keys
            A = {"function": ["string", NESTED, {}], "k": ["int", ASVALUE, {}], "v": ["double", ASVALUE, {}]}
            s = {"attrs": A, "recs": [[["R", [["function", "f%d" % r.randrange(60)]]], ["I", "k", r.randrange(400)], ["I", "v", r.randrange(100) / 4]] for _ in range(r.choice([300, 2000, 6000]))], "globs": [], "fmt": 1}
        A = s["attrs"]
        key = gen_keys(r, A)
        if r.random() < 0.15:   # by-value keys only
            ks = [a for a in A if A[a][1] & ASVALUE and A[a][0] != "double" and not A[a][1] & GLOBAL]
            if len(ks) > 1: key = [r.sample(ks, r.choice([2, 2, min(3, len(ks))])), r.random() < 0.3]
        c = {"s": s, "ops": gen_ops(r, A), "key": key, "mode": r.choice(["exec", "cali"]), "form": r.randrange(2), "fmt": r.randrange(1 << 30), "where": None, "let": []}
        if r.random() < 0.2: c["where"] = gen_cond(r, s, list(A), good=1.0)
        nums = [a for a in A if A[a][0] in ("int", "uint", "double")]
        if r.random() < 0.2 and nums:
            c["let"] = [r.choice([["v2", "scale", [r.choice(nums), "2"], None], ["v2", "first", [r.choice(nums)], None], ["v2", "truncate", [r.choice(nums), "4"], None]])]
            c["ops"] = c["ops"][:3] + [[r.choice(["sum", "max", "min", "inclusive_sum"]), "v2"]]
            if r.random() < 0.3 and c["key"] and c["let"][0][1] != "scale" and A[c["let"][0][2][0]][0] != "double": c["key"] = [c["key"][0] + ["v2"], c["key"][1]]
        return c

    def run(self, ctx, case):
        s = case["s"]
        valid_stream(s)
        A = {n: list(v) for n, v in s["attrs"].items()}
        ops, key, r = case["ops"], case["key"], random.Random(case["fmt"])
        check_ops(A, ops, key)
        recs = [model_rec(s, x) for x in s["recs"]]
        q = ""
        if case["let"]:
            l = case["let"][0]
            if len(l) != 4 or not l[2] or l[2][0] not in A or l[1] != "first" and len(l[2]) < 2 or l[0] != "v2" or not all(l[2]): raise Invalid("let")
            if l[1] != "first" and (num_text(l[2][1]) or 0) <= 0: raise Invalid("let")
            recs = let_apply(A, recs, case["let"])
            q += let_text(case["let"], r) + " "
        if case["where"] is not None:
            w = case["where"]
            if not w[1] or (w[2] and not w[3]): raise Invalid("where")
            keep = [cond_ok(A, x, w) for x in recs]
            if any(k is None for k in keep): raise Invalid("operand")
            recs = [x for x, k in zip(recs, keep) if k]
            q += "WHERE " + cond_text(w, r) + " "
        q += agg_query(ops, key, r, case["form"])
        keys, up = key if key is not None else ([], False)
        exp = aggregate(A, recs, ops, keys, up, key is None)
        got, prob = rows_of(A, run_query(ctx.drv(), case["mode"], q, [cali(s)]), ops, keys)
        if prob: raise Fail("%s: %s" % (q, prob))
        diff = compare_rows(exp, got, 1e-9 if case["mode"] == "exec" else 6e-6)
        if diff: raise Fail("%s: %s" % (q, diff))
        tags = sorted({o[0] for o in ops}) + ["key:" + ("none" if key is None else "path+" if key[1] and key[0] else "path" if key[1] else "attrs"), "rows>1" if len(exp) > 1 else "rows<=1"]
        return dict(tags=tags, nontrivial=len(exp) >= 2 and len(recs) >= 3, show=dict(query=q, rows=len(exp), records=len(recs), stream=cali(s)[:500]))
CHECK = C18

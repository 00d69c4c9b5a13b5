"""C16: WHERE keeps exactly the matching records."""
from vf.engine import Check, Fail, Invalid
from vf.model import *
from vf.query import *

class C16(Check):
    id = "C16"
    rule = ("record sets over all value types with nested and side paths, filtered by 1-4 conditions over all operators, negation, existing and unknown attributes and operand texts drawn from "
            "the values present or at random; the surviving records are compared with an independent evaluation; non-trivial: some records pass and some do not")
    assumptions = ["NOT of an ordering test means the opposite ordering test (as the parser documents), so it needs the attribute to be present",
                   "ordering against an operand text that is no value of the attribute's type is not decided", "doubles in operands are printed with 6 digits"]
    quick, thorough = 24000, 300000

    def gen(self, r, i, tier):
        s = gen_stream(r, nrec=r.choice([1, 3, 6, 12, 25]), plain=r.random() < 0.5, small=r.random() < 0.6, globs=False)
        names = list(s["attrs"])
        conds = [gen_cond(r, s, names) for _ in range(r.choice([1, 1, 1, 2, 3, 4]))]
        return {"s": s, "conds": conds, "mode": r.choice(["exec", "cali"]), "fmt": r.randrange(1 << 30)}

    def run(self, ctx, case):
        s = case["s"]
        valid_stream(s)
        A = {n: list(v) for n, v in s["attrs"].items()}
        if not case["conds"]: raise Invalid("no condition")
        if any(c[2] and not c[3] or not c[1] for c in case["conds"]): raise Invalid("empty operand")
        recs = [model_rec(s, x) for x in s["recs"]]
        exp, npass = [], 0
        for rec in recs:
            oks = []
            for c in case["conds"]:
                ok = cond_ok(A, rec, c)
                if ok is None: raise Invalid("operand")
                oks.append(ok)
            if all(oks): exp.append(rec)
        r = random.Random(case["fmt"])
        q = "SELECT * WHERE " + r.choice([",", " , ", ",\n"]).join(cond_text(c, r) for c in case["conds"])
        got = run_query(ctx.drv(), case["mode"], q, [cali(s)])
        for i in range(max(len(exp), len(got))):
            if i >= len(exp) or i >= len(got) or not rec_eq(exp[i], got[i], 6e-6):
                raise Fail("%s: result %d is %s, expected %s" % (q, i, got[i:i + 1], exp[i:i + 1]))
        tags = ["%s%s:%s" % ("not " if c[0] else "", c[2] or "exist", A[c[1]][0] if c[1] in A else "unknown") for c in case["conds"]]
        return dict(tags=sorted(set(tags)), nontrivial=0 < len(exp) < len(recs), show=dict(query=q, records=len(recs), kept=len(exp), stream=cali(s)[:600]))
CHECK = C16

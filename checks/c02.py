"""C02: annotation mistakes are contained."""
from vf.engine import Check, Fail
from vf.rt import World, INV_FORMS, INV_IDS
from checks import rtgen

class C02(Check):
    id = "C02"
    rule = ("random histories on 1-4 threads, with event tracing, that contain wrongly nested ends, ends of attributes that are not open and ends with the wrong value through every end interface, and calls with ids and handles that are no attribute, followed by "
            "further annotations and ends on the same and on other threads; contexts, values, paths, records and the log are compared with a model in which an offending thread's regions freeze; "
            "non-trivial: at least one mistake, and an annotation attempt on the offending thread after it")
    assumptions = ["the log is on (CALI_LOG_VERBOSITY=1 or more or the default error level)", "ends of names for which no attribute exists are left out (nothing can be open under such a name)"]
    quick, thorough = 5000, 250000

    def gen(self, r, i, tier):
        ops = rtgen.history(r, big=tier != "quick", mistakes=r.choice([0.03, 0.1, 0.25]), query=0.2, ends=0.4, xprob=0.05, extra_op=(lambda rr, w, t: ["inv", t, rr.choice(INV_FORMS), rr.choice(INV_IDS)]) if r.random() < 0.3 else None)
        return {"ops": ops, "log": r.choice([0, 1, 1, 2])}

    def run(self, ctx, case):
        w = World()
        w.start({"CALI_LOG_VERBOSITY": str(case.get("log", 0))})
        after = []
        base = {}
        for o in case["ops"]:
            w.do(o)
            for t in w.threads.values():
                if t.err and t.inc not in base: base[t.inc] = w.stats["begin"] + w.stats["end"] + w.stats["set"]
                if t.err and o[0] in ("b", "s", "e", "rb", "re", "lp", "fn", "ev") and w.stats["begin"] + w.stats["end"] + w.stats["set"] > base[t.inc]: after.append(t.inc)
        for t in list(w.threads): w.op_ctx(t)
        for t in sorted(w.threads):
            if t: w.op_join(t)
        while w.threads.get(0) and w.threads[0].objs: w.op_pop(0)
        w.finish()
        res = ctx.drv().run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        # one report per offending thread
        nerr = w.stats["stack_error"] + w.stats["value_error"]
        n = sum(1 for l in res.err.split("\n") if "Region stack mismatch" in l or "Stack value mismatch" in l)
        if nerr and n == 0: raise Fail("not reported: %d nesting mistakes but no message in the log" % nerr)
        if not nerr and n: raise Fail("false report: the log reports a nesting mistake but there was none: %s" % res.err[:300])
        if n < nerr: raise Fail("not reported: %d threads made nesting mistakes but the log has %d messages" % (nerr, n))
        tags = [k for k in ("stack_error", "value_error") if w.stats[k]] + ["threads%d" % min(w.ninc, 4)]
        if w.stats["inv"]: tags.append("invalid attribute")
        if nerr > 1: tags.append("several offenders")
        if nerr and w.ninc > nerr: tags.append("clean threads beside")
        return dict(tags=tags, nontrivial=nerr > 0 and bool(after), show=w.lines[:40])
CHECK = C02

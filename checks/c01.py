"""C01: snapshots carry exactly the annotations open at that moment."""
import random
from vf.engine import Check, Fail, Invalid
from vf.model import *
from vf.rt import World
from checks import rtgen

class C01(Check):
    id = "C01"
    rule = ("random histories of begin/set/end calls through every annotation interface on 1-4 threads, over attributes of all types and property combinations (nested, unaligned, by-value, hidden, "
            "process-scope, colliding blackboard slots), properly nested, with contexts, snapshots, attribute values and event records compared with a reference model; "
            "non-trivial: at least 5 state changes and 3 comparisons")
    assumptions = ["the order of set values among entries of different attributes is as the model has it (at the innermost end)", "at most about 100 by-value attributes are open at a time"]
    quick, thorough = 5000, 300000

    def gen(self, r, i, tier):
        return {"ops": rtgen.history(r, big=tier != "quick")}

    def run(self, ctx, case):
        w = World(case["ops"])
        w.op_ctx(0)
        w.finish()
        res = ctx.drv().run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        s = w.stats
        tags = [k for k in ("join", "hit", "stack_error", "value_error") if s[k]] + ["threads%d" % min(w.ninc, 4)]
        return dict(tags=tags, nontrivial=s["begin"] + s["set"] + s["end"] >= 5 and s["ctx"] + s["get"] + s["records"] >= 3, show=w.lines[:40])
CHECK = C01

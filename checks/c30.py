"""C30: snapshot access functions return the snapshot's contents."""
from vf.engine import Check, Fail
from vf.model import *
from vf.rt import World
from checks import rtgen

def xop(r, w, t):
    hs = list(w.h)
    k = r.random()
    if k < 0.62:
        lens = [r.choice(["=0", "=-1", "=1", "=-%d" % r.randrange(1, 40), r.randrange(0, 60), 0, 1, 2, 3, 500]) for _ in range(r.choice([1, 3, 5]))]
        return ["cpull", t, "c0", lens, r.sample(hs, min(len(hs), r.choice([0, 2, 5])))]
    if k < 0.75:
        n = "am.%d" % len(w.attrs)
        meta = [[h, rtgen.value(r, w.attrs[w.h[h]].type)] for h in r.sample(hs, min(len(hs), r.choice([1, 2, 3]))) if h != "id" and w.attrs[w.h[h]].name != "thr"]
        return ["attrm", t, "M%d" % len(w.attrs), n, r.choice(rtgen.TYPES_RT), rtgen.props(r), meta]
    k = r.choice([0, 1, 2, 5, 20, 63, 64, 65, 80] if r.random() < 0.4 else [1, 2, 3])
    items = [[h, rtgen.value(r, w.attrs[w.h[h]].type)] for h in (r.choice(hs) for _ in range(k)) if w.attrs[w.h[h]].name != "thr"]
    return ["push", t, items] if r.random() < 0.5 else ["chpush", t, "c0", items]

class C30(Check):
    id = "C30"
    rule = ("annotation histories on 1-4 threads over attributes of all types and property combinations (some with other attributes as metadata, up to 100 open by-value attributes), with snapshots pulled into buffers of sufficient, exact and too small size (including 0), "
            "unpacked and searched for attributes that are visible or not, and snapshots pushed with up to 80 extra values; every returned size, entry, order and recorded value is compared with a reference model, and memory around the buffers is guarded; "
            "non-trivial: at least one buffer that was too small, one search with a result and one complete unpacking")
    assumptions = ["extra values beyond the documented 64 are ignored", "entries with hidden attributes are not looked at"]
    quick, thorough = 4000, 200000

    def gen(self, r, i, tier):
        return {"ops": rtgen.history(r, big=tier != "quick", query=0.08, extra_op=xop, xprob=r.choice([0.15, 0.3]), flush=0.01)}

    def run(self, ctx, case):
        w = World(case["ops"])
        w.op_cpull(0, "c0", ["=0", "=-1", 3], list(w.h)[:6])
        w.finish()
        res = ctx.drv().run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        s = w.stats
        tags = [k for k in ("short", "fits", "found", "notfound", "push") if s[k]]
        return dict(tags=tags, nontrivial=s["short"] > 0 and s["found"] > 0 and s["fits"] > 0, show=w.lines[:40])
CHECK = C30

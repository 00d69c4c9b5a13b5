"""C07: measurement channels are independent."""
from vf.engine import Check, Fail
from vf.model import *
from vf.rt import World, compare_records, canon, hidden_name
from checks import rtgen

LISTS = ["region", "phase,loop", "nm.a:nm.b", "at.0,region", "at.1:at.2:at.3", "none.such", "loop"]
def config(r):
    c = {}
    k = r.random()
    if k < 0.15: c["CALI_SERVICES_ENABLE"] = r.choice(["trace", "event", "trace:event", "event,trace,timestamp" if False else "event,trace"])
    if r.random() < 0.3: c["CALI_EVENT_TRIGGER"] = r.choice(LISTS)
    if r.random() < 0.25: c["CALI_EVENT_ENABLE_SNAPSHOT_INFO"] = r.choice(["false", "true"])
    if r.random() < 0.25: c["CALI_EVENT_REGION_LEVEL"] = r.choice(["0", "1", "2", "4", "7", "phase"])
    if r.random() < 0.25 and "trace" in c.get("CALI_SERVICES_ENABLE", "event,trace"):
        c["CALI_SERVICES_ENABLE"] = c.get("CALI_SERVICES_ENABLE", "event,trace") + ",recorder"
        c["CALI_CHANNEL_FLUSH_ON_EXIT"] = "true"
    return c

def chop(r, w, t):
    live = [c for c, ch in w.chname.items() if ch.alive]
    dead = [c for c, ch in w.chname.items() if not ch.alive]
    hs = [h for h in w.h if w.attrs[w.h[h]].name != "thr"]
    k = r.random()
    if (k < 0.2 or not live) and len(w.channels) < 8:
        n = "ch%d" % len(w.channels)
        c = config(r)
        if "recorder" in c.get("CALI_SERVICES_ENABLE", ""): c["CALI_RECORDER_FILENAME"] = n + ".cali"
        return ["chnew", t, n, r.random() < 0.8, c]
    if dead and k < 0.25: return ["dead", t, r.choice(dead), r.choice(["chact", "chdeact", "chflush", "chdel", "chisact"])]
    if not live: return None
    c = r.choice(live)
    if k < 0.36: return ["chact", t, c]
    if k < 0.46: return ["chdeact", t, c]
    if k < 0.5: return ["chisact", t, c]
    if k < 0.56: return ["dump", t, c]
    if k < 0.6: return ["chclear", t, c]
    if k < 0.65: return ["chdel", t, c]
    if k < 0.72: return ["globs", t] + ([c] if r.random() < 0.8 else [])
    H = r.choice(hs); a = w.attrs[w.h[H]]
    if k < 0.8: return ["chset", t, c, H, rtgen.value(r, a.type)]
    if k < 0.84:
        if a.slot == "I" and a.name in w.chname[c].bb.I: return ["chset", t, c, H, rtgen.value(r, a.type)]
        return ["chbegin", t, c, H, rtgen.value(r, a.type)]
    if k < 0.88:
        c2 = [h for h in hs if w.current(w.chname[c].bb, w.attrs[w.h[h]]) is not None]
        return ["chend", t, c, r.choice(c2)] if c2 else None
    if k < 0.93: return ["chget", t, c, H]
    if k < 0.96: return ["chpush", t, c, [[h, rtgen.value(r, w.attrs[w.h[h]].type)] for h in r.sample(hs, min(len(hs), r.randrange(3)))]]
    return ["pull", t, c]

class C07(Check):
    id = "C07"
    rule = ("annotation histories on 1-4 threads interleaved with creating up to 8 channels of differing configuration (services, trigger lists, region levels, event info, recorder files) at any point, activating, deactivating, "
            "flushing, clearing and deleting them, setting, beginning and ending values on one channel, reading globals and using ids of deleted channels; all records of every channel, channel values, global values and the files written at exit "
            "are compared with a model that keeps the channels apart; non-trivial: at least two channels existed, one changed state while another recorded, and at least 5 records were compared")
    assumptions = ["channel operations and annotations on different threads do not overlap in time"]
    quick, thorough = 4000, 200000

    def gen(self, r, i, tier):
        ops = rtgen.history(r, big=tier != "quick", channels=False, query=0.1, extra_op=chop, xprob=r.choice([0.15, 0.3, 0.5]), usr=False)
        return {"ops": ops}

    def run(self, ctx, case):
        w = World(case["ops"])
        w.finish()
        for c in w.chname: w.op_globs(0, c)
        # at exit: threads are joined, then objects on thread 0 are closed, then the channels are flushed
        for t in sorted(w.threads):
            if t: w.op_join(t)
        while w.threads.get(0) and w.threads[0].objs: w.op_pop(0)
        res = ctx.drv().run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        nrec = 0
        for c, ch in w.chname.items():
            fn = ch.cfg.get("CALI_RECORDER_FILENAME")
            if not fn or "recorder" not in ch.cfg["CALI_SERVICES_ENABLE"]: continue
            flushed = [o for o in case["ops"] if o[0] == "dead" and o[2] == c]
            if not ch.alive:
                if fn in res.files: raise Fail("output: deleted channel %s wrote %s" % (c, fn))
                continue
            if ch.cfg.get("CALI_CHANNEL_FLUSH_ON_EXIT") != "true": return None
            if fn not in res.files:
                raise Fail("output: channel %s did not write %s at exit" % (c, fn))
            out = ctx.drv().req("read", "1", res.files[fn])
            if out[1]: raise Fail("output: %s is not readable: %s" % (fn, out[1][:200]))
            na = int(out[2]); ng = int(out[3 + na])
            lines = out[4 + na + ng:]
            got = [simp(w.project(parse_rec(l))) for l in lines]
            m = compare_records(got, [(t, simp(e)) for t, e in ch.recs], "file of channel " + c)
            if m: raise Fail("output: " + m)
            want = globs_of(w, ch)
            gg = []
            for e in map(parse_rec, out[3 + na + 1: 4 + na + ng]):
                for x in e: gg += list(x[1]) if x[0] == "R" else [(x[1], x[2])]
            gg = sorted(repr(sv(x)) for x in gg if not hidden_name(w, x[0]) and not x[0].startswith("starttime."))
            one = {x[0]: x for x in want if x[0] in w.attrs and w.attrs[x[0]].slot == "I"}      # a file has one value per by-value attribute: the process' or the channel's
            for n in one:
                mine = [x for x in want if x[0] == n]
                if len(mine) > 1:
                    hit = [x for x in mine if repr(sv(x)) in gg][:1]
                    want = [x for x in want if x[0] != n] + (hit or mine)
            if gg != sorted(repr(sv(x)) for x in want): raise Fail("output: the global values in the file of channel %s are %s, expected %s" % (c, gg, want))
            w.stats["files"] += 1; nrec += len(ch.recs)
        s = w.stats
        ops = set(o[0] for o in case["ops"])
        tags = ["channels%d" % min(len(w.channels), 4)] + [o for o in ("chact", "chdeact", "chdel", "chclear", "chset", "dead", "globs") if o in ops] + (["file"] if s["files"] else [])
        return dict(tags=tags, nontrivial=len(w.channels) >= 2 and bool(ops & {"chact", "chdeact", "chdel", "chclear", "chset"}) and s["records"] + nrec >= 5, show=w.lines[:40])

def sv(nv):
    n, v = nv
    return (n, ("double", "%.6g" % v[1]) if v[0] == "double" else v)
def simp(entries):
    out = []
    for e in entries:
        if e[0] == "R": out.append(("R", tuple(sv(x) for x in e[1])))
        elif e[0] == "I": out.append(("I",) + sv((e[1], e[2])))
        else: out.append(e)
    return out
def globs_of(w, ch):
    want = []
    for bb in (w.proc, ch.bb):
        want += [(n, v) for s in ("R", "U") for n, v in bb.p[s] if w.attrs[n].props & GLOBAL and not w.attrs[n].props & HIDDEN] + [(n, v) for n, v in bb.I.items() if w.attrs[n].props & GLOBAL and not w.attrs[n].props & HIDDEN]
    return want
CHECK = C07

"""C31: reports made in the running program equal off-line queries of the same data."""
import json, random, re
from vf.engine import Check, Fail, Invalid
from vf.driver import enc, dec
from vf.model import *
from vf.query import *
from vf.report import gen_report, report_query
from vf.rt import World
from checks import rtgen

class RWorld(World):
    """checkpoints: ["ck", tid, channel, query index, clear, repeat]"""
    def __init__(self, ops, queries):
        self.queries, self.cks, self.flushes = queries, [], []
        super().__init__(ops)
    def globals(self, ch):
        out = []
        for bb in (self.proc, ch.bb):
            out += [(n, v) for s in ("R", "U") for n, v in bb.p[s] if self.attrs[n].props & GLOBAL] + [(n, v) for n, v in bb.I.items() if self.attrs[n].props & GLOBAL]
        return [x for x in out if not self.attrs[x[0]].props & HIDDEN]
    def op_ck(self, tid, c, qi, clear):
        ch = self.ch(c)
        if not ch or not ch.alive: return
        self.thread(tid)
        a = self.emit(tid, "calidump", ch.idx)
        b = self.emit(tid, "report", ch.idx, enc(self.queries[qi % len(self.queries)]), 1 if clear else 0)
        z = self.emit(tid, "calidump", ch.idx)
        self.cks.append((c, qi % len(self.queries), a, b, z, clear, self.globals(ch)))
        if clear: ch.recs = []
    def op_fl(self, tid, c):
        ch = self.ch(c)
        if not ch or not ch.alive: return
        self.thread(tid)
        a = self.emit(tid, "calidump", ch.idx)
        self.emit(tid, "chflush", ch.idx)
        self.flushes.append((c, a, self.globals(ch)))

FMTS = ["table", "table", "tree", "tree", "json", "json", "json-split", "expand", "cali", "format"]
def gen_queries(r, w, n):
    A = {a.name: (a.type, a.props, {}) for a in w.attrs.values()}
    A.pop("cali.snapshot", None)
    recs = []
    for c in w.channels:
        for _, rec in c.recs[-40:]:
            recs.append([["I", e[1], e[2][1]] if e[0] == "I" else ["R", [[n_, v[1]] for n_, v in e[1] if n_ in A]] for e in rec if e[0] == "I" and e[1] in A or e[0] == "R"])
    recs = [[e for e in rec if e[0] == "I" or e[1]] for rec in recs]
    for x in ("count", "region.count", "sum#region.count", "time.duration.ns", "sum#time.duration.ns"): A.setdefault(x, ("uint", ASVALUE, {}))
    out = []
    for _ in range(n):
        c = gen_report(r, order=r.random() < 0.5, stream={"attrs": dict(A), "recs": recs, "globs": []}, agg=0.5)
        r2 = random.Random(c["fmt"])
        q = report_query(c, r2)
        if r.random() < 0.35 and recs:
            vis = [a for a in A if not A[a][1] & HIDDEN]
            q += " WHERE " + ",".join(cond_text(gen_cond(r, c["s"], vis)) for _ in range(r.choice([1, 1, 2])))
        if r.random() < 0.2: q += " LET lx=scale(%s,2)" % r.choice(["count", "thr", "region.count"])
        f = r.choice(FMTS)
        if f == "table": f += r.choice(["", "", "(print-globals)", "(column-width=20)"])
        elif f == "tree": f += r.choice(["", "", "(print-globals)", "(path-attributes=\"region,phase\")"])
        elif f == "json": f += r.choice(["", "(object)", "(records)", "(split)", "(pretty)", "(quote-all)", "(separate-nested,object)"])
        elif f == "format": f += "(\"" + " ".join("%%[%d]%s%%" % (r.choice([4, 20]), n) for n in r.sample([a for a in A if re.fullmatch(r"[a-z.0-9]+", a)], 2)) + "\")"
        out.append(q + " FORMAT " + f)
    return out

def canon(q, t):
    """the part of a report that does not depend on node ids and on the order of entries and columns"""
    fmt = q.split(" FORMAT ")[1]
    if fmt == "cali":
        A, recs, globs, prob = parse_cali(t)
        if prob: raise Fail("cali: " + str(prob[:3]))
        return sorted(repr(sorted(map(repr, rec))) for rec in recs), sorted(map(repr, globs)), sorted((n, a[0], a[1]) for n, a in A.items() if not n.startswith("cali.") and any(n == x for rec in recs for x, _ in flat(rec)))
    if fmt.startswith("json"):
        if "(split" in fmt: t = "[" + t + "]"
        try: d = json.loads(t)
        except ValueError as e: raise Fail("json: %s: %s" % (e, t[:300]))
        if "object" in fmt:
            used = {k for rec in d["records"] for k in rec} | set(d["globals"])
            d["attributes"] = {k: {x: y for x, y in v.items() if not x.startswith("cali.event.")} for k, v in d["attributes"].items() if k in used}
        return d
    lines = [" ".join(l.split()) for l in t.split("\n") if l.strip()]
    if "print-globals" in fmt:
        i = 0
        while i < len(lines): # sort runs of globals (outputs may be joined)
            k = i
            while k < len(lines) and re.search("\\S :( |$)", lines[k]): k += 1
            lines[i:k] = sorted(lines[i:k]); i = k + 1
    if fmt == "expand": return [sorted(l.split(",")) for l in lines]
    if fmt[:2] in ("ta", "tr") and not re.search('SELECT (?!\\*)', q): return [sorted(l.split(" ")) for l in lines]
    return lines

class C31(Check):
    id = "C31"
    rule = "a case counts as non-trivial when a compared channel held at least three records"
    assumptions = ["hidden attributes and by-value attributes that are also nested are not generated: hidden data is not readable off-line and a .cali file lists references before values, which changes the order in nested paths",
                   "the order of columns in tables and trees without SELECT, of the entries of a record and of the attribute list follows internal node ids and is not compared",
                   "query results are compared as text: row order, numbers and layout have to be the same",
                   "the off-line side is the query library applied to a .cali dump of the same channel, and (service cases) the cali-query tool applied to the recorder's file; C13-C24 decide that this side is right"]
    technique = "property-based testing: differential - reports made in a generated program against off-line queries of its recorded data"
    def world(self, b): return RWorld(b["ops"], b["q"])
    quick, thorough = 1500, 60000

    def gen(self, r, i, tier):
        how = r.choice(["direct", "direct", "service"])
        sv = r.choice(["event,trace", "event,trace", "event,aggregate", "event,aggregate", "event,trace,aggregate", "event,trace,timer", "event,aggregate,timer"])
        cfg = {"CALI_SERVICES_ENABLE": sv}
        if "aggregate" in sv and r.random() < 0.3: cfg["CALI_AGGREGATE_KEY"] = r.choice(["path", "*", "region", "prop:nested", "prop:nested,thr", "thr"])
        if r.random() < 0.3: cfg["CALI_EVENT_ENABLE_SNAPSHOT_INFO"] = "false"
        nq = r.choice([1, 2, 3])
        def extra(rr, w, t):
            k = rr.random()
            if k < 0.1: return ["chclear", t, "c0"]
            if k < 0.5: return ["push", t, [[h, rtgen.value(rr, w.attrs[w.h[h]].type)] for h in rr.sample(list(w.h), min(len(w.h), rr.randrange(4))) if w.attrs[w.h[h]].name != "thr"]]
            if k < 0.7: return ["glob", t, rr.choice(["g.a", "g.b", "run name", "g.i"]), rtgen.value(rr, "string")]
            return ["ck", t, "c0", rr.randrange(nq), rr.random() < 0.2] if how == "direct" else ["fl", t, "c0"]
        if how == "service":
            cfg["CALI_SERVICES_ENABLE"] += ",report,recorder"
            cfg["CALI_RECORDER_FILENAME"] = "out.cali"
            cfg["CALI_REPORT_FILENAME"] = r.choice(["rep.txt", "stdout"])
            if r.random() < 0.4: cfg["CALI_REPORT_APPEND"] = "true"
        def op_ck(self, *a): pass
        World.op_ck = World.op_fl = op_ck
        ops = rtgen.history(r, query=0.03, extra_op=extra, chcfg=cfg, usr=False, xprob=0.12, flush=0)
        ops.append(["ck", 0, "c0", 0, False] if how == "direct" else ["fl", 0, "c0"])
        for o in ops:
            k = {"attr": 5, "attrc": 5, "ann": 4}.get(o[0])
            if k: o[k] &= ~(HIDDEN | (NESTED if o[k] & ASVALUE else 0))
        w = World(ops); del World.op_ck, World.op_fl
        Q = gen_queries(r, w, nq)
        if how == "service" and re.search("FORMAT (cali|json)", Q[0]):
            cfg["CALI_REPORT_FILENAME"] = "rep.txt"; cfg.pop("CALI_REPORT_APPEND", None)
        return {"how": how, "ops": ops, "q": Q}

    def offline(self, d, q, text):
        o = d.req("query", q, "", "1", text)
        if o[0] != "ok": return None
        if o[2]: raise Fail("reader: %s" % o[2])
        return o[1]

    def same(self, q, got, want, what, text):
        if got == want: return
        a, b = canon(q, got), canon(q, want)
        if a == b: return
        raise Fail("%s: %s gives\n%s\nthe query tool gives\n%s" % (what, q, got[:1500], want[:1500]))

    def run(self, ctx, case):
        how, Q = case["how"], case["q"]
        d = ctx.drv()
        if how == "service":
            ops = [list(o) for o in case["ops"]]
            for o in ops:
                if o[0] == "chnew": o[4] = dict(o[4], CALI_REPORT_CONFIG=Q[0])
            w = RWorld(ops, Q)
        else: w = RWorld(case["ops"], Q)
        if d.req("parse", Q[0])[0] != "ok": raise Fail("query: %s %s" % (Q[0], d.req("parse", Q[0])))
        res = d.run(w.lines)
        n = 0
        dumps = lambda l: dec(res.res.get(l, ""))
        def check_globs(text, globs, what):
            A, recs, g, prob = parse_cali(text)
            if prob: raise Fail("cali: " + str(prob[:3]))
            got = []
            for e in g: got += [(e[1], e[2])] if e[0] == "I" else list(e[1])
            got = [x for x in got if x[0][:5] != "cali." and x[0][:10] != "starttime."]
            if sorted(map(repr, got)) != sorted(map(repr, globs)): raise Fail("metadata: %s has the global values %s, expected %s" % (what, got, globs))
            return len(recs)
        for c, qi, a, b, z, clear, globs in w.cks:
            t = dumps(a)
            n = max(n, check_globs(t, globs, "channel output"))
            want = self.offline(d, Q[qi], t)
            self.same(Q[qi], dumps(b), want, "report", t)
            if clear:
                k = check_globs(dumps(z), globs, "channel output after clear")
                if k: raise Fail("clear: %d records are left after a report that clears the channel" % k)
        if how == "service" and w.flushes:
            cfg = next(o[4] for o in w_ops(case) if o[0] == "chnew")
            if len(w.flushes) > 1 and re.search("FORMAT (cali|json)", Q[0]) and (cfg.get("CALI_REPORT_APPEND") == "true" or cfg.get("CALI_REPORT_FILENAME") == "stdout"): raise Invalid("joined outputs")
            app, out = cfg.get("CALI_REPORT_APPEND") == "true", cfg.get("CALI_REPORT_FILENAME")
            wants = []
            for c, a, globs in w.flushes:
                t = dumps(a)
                n = max(n, check_globs(t, globs, "channel output"))
                wants.append(self.offline(d, Q[0], t))
            check_globs(res.files.get("out.cali", ""), w.flushes[-1][2], "recorder output")
            if out == "stdout": got, want = res.out, "".join(wants)
            else: got, want = res.files.get(out, ""), "".join(wants) if app else wants[-1]
            self.same(Q[0], got, want, "report service", None)
            rc, o, e, _ = d.tool("cali-query", ["-q", Q[0], "out.cali"], files={"out.cali": res.files.get("out.cali", "")})
            if rc: raise Fail("tool: cali-query ends with %d: %s" % (rc, e[-300:]))
            self.same(Q[0], o, wants[-1], "recorder and query tool", None)
        return dict(tags=[how], nontrivial=n >= 3, show=dict(queries=Q, program=w.lines[:30]))

def w_ops(case): return case["ops"]
CHECK = C31

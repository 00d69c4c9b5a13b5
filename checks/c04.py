"""C04: on-line aggregation equals aggregating the full trace."""
import re
from collections import Counter
from vf.engine import Check, Fail, Invalid
from vf.driver import enc, dec
from vf.model import *
from vf.rt import World, parse_rec, compare_records, thr_of, show
from checks import rtgen

NUM = ("int", "uint", "double")
RES = re.compile(r"(min|max|sum|avg)#(.*)", re.S)

def wrap(t, x):
    if t == "int": return (x + 2**63) % 2**64 - 2**63
    if t == "uint": return x % 2**64
    return x

def tdiv(a, n):
    q = abs(a) // n
    return -q if a < 0 else q

def aggregate(recs, attrs, keys):
    """recs: (thread, entries). -> list of (key entries, count, {attribute: (type, [values])})"""
    rows, order = {}, []
    for t, rec in recs:
        k = [e for e in rec if e[0] == "R"]
        imm = {}
        for e in rec:
            if e[0] == "I" and e[1] not in imm: imm[e[1]] = e[2]
        k += [("I", a, imm[a]) for a in keys if a in imm and attrs[a][1] & ASVALUE]
        kk = (t, repr(sorted(map(repr, k))))
        if kk not in rows: rows[kk] = [k, 0, {}]
        row = rows[kk]; row[1] += 1
        for a, v in imm.items():
            b = re.sub(r"^event\.(begin|set|end)#", "", a)     # trigger attributes are like the attribute of the event
            if b in attrs and attrs[b][1] & AGGREGATABLE and v[0] in NUM: row[2].setdefault(a, (v[0], []))[1].append(v[1])
    return list(rows.values())

def expected(rows):
    out = []
    for k, n, vals in rows:
        e = list(k) + [("I", "count", ("uint", n))]
        for a, (t, x) in vals.items():
            s = wrap(t, sum(x)) if t != "double" else sum(x)
            e += [("I", "min#" + a, (t, min(x))), ("I", "max#" + a, (t, max(x))), ("I", "sum#" + a, (t, s)), ("I", "avg#" + a, (t, s / len(x) if t == "double" else tdiv(s, len(x))))]
        out.append(e)
    return out

def join_keys(l):
    return ",".join('"%s"' % k if re.search('[ ,]', k) else k for k in l)

def split_keys(s):
    return [m.group(1) if m.group(1) is not None else m.group(2) for m in re.finditer('"([^"]*)"|([^,]+)', s)]

def ckey(rec):
    """record -> (exact part, doubles)"""
    ex, fl = [], []
    for e in rec:
        if e[0] == "I" and e[2][0] == "double" and RES.match(e[1]): fl.append((e[1], e[2][1])); ex.append("D" + e[1])
        else: ex.append(repr(e))
    return sorted(ex), sorted(fl)

def compare_rows(got, want, what):
    g = sorted((ckey(r) + (r,) for r in got), key=lambda x: (x[0], x[1]))
    w = sorted((ckey(r) + (r,) for r in want), key=lambda x: (x[0], x[1]))
    ok = lambda a, b: a[0] == b[0] and all(x[0] == y[0] and abs(x[1] - y[1]) <= 1e-9 * (abs(x[1]) + abs(y[1]) + 1e-300) for x, y in zip(a[1], b[1]))
    if len(g) == len(w) and all(ok(a, b) for a, b in zip(g, w)): return None
    a = [x for x in g if not any(ok(x, y) for y in w)]
    b = [x for x in w if not any(ok(x, y) for y in g)]
    return "%s: profile has %d records, expected %d; found\n  %s\nexpected\n  %s" % (what, len(g), len(w), "\n  ".join(show(x[2]) for x in a[:3]) or "(more copies)", "\n  ".join(show(x[2]) for x in b[:3]) or "(more copies)")

TIME = ("time.offset.ns", "time.duration.ns", "time.inclusive.duration.ns")

class AWorld(World):
    """channels that aggregate, some of which also trace"""
    def __init__(self, ops):
        self.rows = Counter(); self.nmulti = self.ndump = 0; self.cleared = {}
        super().__init__(); self.start()
        for op in ops: self.do(op)
    def sv(self, ch): return re.split("[,:]", ch.cfg.get("CALI_SERVICES_ENABLE", ""))
    def record(self, ch, t, repl=None, extra=()):
        ch.recs.append((t.inc, self.snapshot(t, repl, extra)))
    def op_dump(self, tid, c):
        self.thread(tid); ch = self.ch(c)
        if not ch or not ch.alive: return
        want, tr = list(ch.recs), ch.trace
        keys = split_keys(ch.cfg.get("CALI_AGGREGATE_KEY", ""))
        attrs = {n: (a.type, a.props) for n, a in self.attrs.items()}
        attrs.update({n: ("uint", ASVALUE | AGGREGATABLE if n != "time.offset.ns" else ASVALUE) for n in TIME})
        attrs["region.count"] = ("uint", ASVALUE | AGGREGATABLE)
        l = self.emit(tid, "dump", ch.idx)
        self.ndump += 1
        if len(want) and want == ch.recs and self.cleared.get(c): self.stats["after clear"] += 1
        def chk(r):
            got = [self.project(parse_rec(x)) for x in dec(r).split("\n") if x]
            prof = [x for x in got if any(e[0] == "I" and e[1] == "count" for e in x)]
            trace = [x for x in got if not any(e[0] == "I" and e[1] == "count" for e in x)]
            if tr:
                plain = [[e for e in x if not (e[0] == "I" and e[1] in TIME)] for x in trace]
                m = compare_records(plain, want, "trace of channel " + c)
                if m: return m
                src = [(thr_of(x), x) for x in trace]
            else:
                if trace: return "channel %s delivered a record without count: %s" % (c, show(trace[0]))
                src = want
            exp = expected(aggregate(src, attrs, keys)) if "aggregate" in self.sv(ch) else []
            prof = [[e for e in x if not (e[0] == "I" and e[1] == "aggregate.slot")] for x in prof]
            if not tr: prof = [[e for e in x if not (e[0] == "I" and RES.match(e[1]) and RES.match(e[1]).group(2) in TIME)] for x in prof]
            self.stats["rows"] += len(exp); self.nmulti = max(self.nmulti, sum(1 for e in exp if any(x[1] == "count" and x[2][1] > 1 for x in e if x[0] == "I")))
            self.stats["values"] += sum(1 for e in exp for x in e if x[0] == "I" and x[1].startswith("sum#") and x[1] != "sum#region.count")
            return self.compare(prof, exp, "channel " + c)
        self.expect(l, chk)
    def compare(self, got, want, what): return compare_rows(got, want, what)
    def op_chclear(self, tid, c):
        super().op_chclear(tid, c); self.cleared[c] = True

class C04(Check):
    id = "C04"
    rule = ("annotation histories on 1-4 threads (which also exit and start during the run) over attributes of all types with aggregatable values set, begun or pushed, attributes created before, between and after the records; channels that aggregate, some of which also trace, with 0-20 immediate key attributes, are flushed, cleared, "
            "deactivated and reactivated at arbitrary points; every flushed profile is compared exactly with the aggregation of the trace records of the same flush or of the records the history must have produced; non-trivial: at least two profile records, one of which aggregates more than one snapshot, and one aggregated user value")
    assumptions = ["aggregated values are numeric", "operations of different threads do not overlap in time", "a record's first entry of an attribute counts"]
    quick, thorough = 4000, 150000

    def gen(self, r, i, tier):
        keypool = []
        def cfg(tr=None):
            tr = tr if tr is not None else r.random() < 0.6
            sv = ["event", "aggregate"] + (["trace"] if tr else []) + ([r.choice(["timer", "timestamp"])] if tr and r.random() < 0.6 else [])
            r.shuffle(sv)
            c = {"CALI_SERVICES_ENABLE": ",".join(sv)}
            if r.random() < 0.4: c["CALI_EVENT_ENABLE_SNAPSHOT_INFO"] = "false"
            if r.random() < 0.15: c["CALI_EVENT_TRIGGER"] = r.choice(["region,loop", "at.0,at.1,region", "loop:phase"])
            if r.random() < 0.6:
                k = r.sample(["thr"] + ["at.%d" % j for j in range(20)], r.choice([1, 1, 2, 3, 8, 20]))
                c["CALI_AGGREGATE_KEY"] = join_keys(k)
            return c
        names = ["c0"] + (["c1"] if r.random() < 0.4 else [])
        def extra(r, w, t):
            k = r.random()
            c = r.choice(list(w.chname))
            if k < 0.12 and len(w.chname) < len(names): return ["chnew", t, "c1", True, cfg()]
            if k < 0.2: return ["chclear", t, c]
            if k < 0.4: return ["dump", t, c]
            if k < 0.46: return [r.choice(["chact", "chdeact"]), t, c]
            hs = [h for h in w.h if w.attrs[w.h[h]].name != "thr"]
            agg = [h for h in hs if w.attrs[w.h[h]].props & ASVALUE] or hs
            if k < 0.7:
                x = r.sample(agg, min(len(agg), r.randrange(1, 4))) + (r.sample(hs, min(len(hs), r.choice([0, 1, 2, 25]))) if r.random() < 0.4 else [])
                x = list(dict.fromkeys(x))[:64]
                return [r.choice(["push", "chpush"]), t] + ([c] if 0 else []) + [[[h, self.val(r, w.attrs[w.h[h]].type)] for h in x]]
            H = r.choice(agg); a = w.attrs[w.h[H]]
            return ["s", t, "lo", H, self.val(r, a.type)]
        many = r.random() < 0.08     # records with many key entries
        n = r.choice([2, 4, 8, 12, 25]) if not many else 30
        ops = rtgen.history(r, big=tier != "quick", nattr=n, query=0.0, flush=0.02, extra_op=extra, xprob=0.4, chcfg=cfg(), usr=False, proc=0.1, collide=0.0)
        late = []
        for o in ops:
            if o[0] in ("attr", "attrc", "ann"):
                k = 4 if o[0] == "ann" else 5
                o[k] &= ~HIDDEN
            if o[0] == "attr" and o[5] & ASVALUE:
                if o[4] in NUM and r.random() < 0.7: o[5] |= AGGREGATABLE
                if o[4] in NUM and r.random() < 0.2: late.append(o)
        for o in late:      # aggregatable attributes that are created during the run
            ops.remove(o); ops.insert(r.randrange(len(ops) + 1), o)
        for o in ops:
            if o[0] == "chpush" and len(o) == 3: o.insert(2, r.choice(names))
        if many:        # all values are open, and records differ in a few of them
            hs = [o for o in ops if o[0] == "attr"]
            for o in hs:
                if r.random() < 0.8: o[4] = r.choice(["int", "uint", "string", "double"]); o[5] = ASVALUE | (o[5] & AGGREGATABLE if o[4] in NUM else 0)
            pos = max([k for k, o in enumerate(ops) if o[0] in ("attr", "chnew")] + [0]) + 1
            vs = [o for o in hs if o[5] & ASVALUE]
            new = [["s", 0, "lo", o[2], self.val(r, o[4])] for o in vs]
            for _ in range(r.randrange(2, 8)):
                o = r.choice(vs); new += [["s", 0, "lo", o[2], self.val(r, o[4])], ["push", 0, []]]
            ops[pos:pos] = new
            for o in ops:
                if o[0] == "chnew": o[4]["CALI_AGGREGATE_KEY"] = join_keys(r.sample([x[3] for x in vs], r.randrange(1, len(vs) + 1)) if r.random() < 0.5 else [x[3] for x in vs])
        for c in names:
            if r.random() < 0.5: ops.append(["dump", 0, c])
        return {"ops": ops}

    def val(self, r, t):
        if t == "int": return ["int", r.choice([r.randrange(-10, 11), r.randrange(-10, 11), r.randrange(4), 2**40, -2**33])]
        if t == "uint": return ["uint", r.choice([r.randrange(11), r.randrange(4), 2**40, 2**63])]
        if t == "double": return ["double", r.choice([0.5, -2.25, 1.0, 3.0, 1e6, 0.1])]
        return rtgen.value(r, t)

    def world(self, case): return AWorld(case["ops"])
    def run(self, ctx, case):
        for o in case["ops"]:
            if o[0] == "chnew" and len(o) > 4 and not all(re.fullmatch('"[^"]*"|[^" ,]+', k) for k in re.findall('"[^"]*"|[^,]+', o[4].get("CALI_AGGREGATE_KEY", ""))): return None
            if o[0] == "chnew" and len(o) > 4 and ("aggregate" not in o[4].get("CALI_SERVICES_ENABLE", "") or "event" not in o[4].get("CALI_SERVICES_ENABLE", "")): return None
            if o[0] in ("attr", "attrc", "ann") and len(o) > 4 and o[4 if o[0] == "ann" else 5] & HIDDEN: return None
            if o[0] in ("attr", "attrc") and o[5] & AGGREGATABLE and (o[4] not in NUM or not o[5] & ASVALUE): return None
        w = AWorld(case["ops"])
        w.finish()
        res = ctx.drv().run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        s = w.stats
        tr = any(c.trace for c in w.channels); ag = any(not c.trace for c in w.channels)
        keys = max([len(split_keys(c.cfg.get("CALI_AGGREGATE_KEY", ""))) for c in w.channels] + [0])
        return dict(tags=(["trace"] if tr else []) + (["profile only"] if ag else []) + (["cleared"] if w.cleared else []) + ["dumps%d" % min(w.ndump, 4), "keys%s" % ("0" if not keys else "1-3" if keys < 4 else ">3")] + (["threads"] if w.ninc > 1 else []),
                    nontrivial=s["rows"] >= 2 and w.nmulti > 0 and s["values"] > 0, show=w.lines[:40])
CHECK = C04

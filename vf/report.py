"""Report cases: a record stream and a query (selection, aliases, aggregation, order) whose formatted output is checked."""
import random, math
from .model import *
from .query import *
from .engine import Fail, Invalid

CTRL = ["tab\there", "\x01\x02", "bell\x07", "\x1f", "del\x7f", "cr\rx", "\u00e4\t\"\\", "</script>", "\u2028", "emoji \U0001f600", "nul"]

def gen_report(r, order=False, inf=True, ctrl=True, agg=0.35, ops=("count", "sum", "min", "max", "avg", "percent_total", "inclusive_sum", "scale"), meta=True, hidden=True, weird=None, nrec=None, lists=0.55, unknown=True, stream=None):
    s = stream or gen_stream(r, nrec=nrec if nrec is not None else r.choice([0, 1, 2, 4, 8, 15, 30]), meta=meta, hidden=hidden and r.random() < 0.4, weird=r.random() < 0.5 if weird is None else weird,
                   plain=r.random() < 0.4, small=r.random() < 0.5)
    A = s["attrs"]
    if "nodes" in A and not stream and r.random() < 0.9: # a reserved name in json-split (known finding of C21)
        A["num.nodes"] = A.pop("nodes")
        for g in s["globs"]: g[0] = "num.nodes" if g[0] == "nodes" else g[0]
    if not stream and r.random() < 0.12: # long paths (regions of recursive programs)
        for rec in r.sample(s["recs"], min(len(s["recs"]), 2)):
            for e in rec:
                if e[0] == "R":
                    p0 = [list(x) for x in e[1]]
                    e[1] = e[1] + [list(r.choice(p0)) for _ in range(r.choice([12, 17, 20, 45]))]; break
    for rec in [] if stream else s["recs"]:
        for e in rec:
            if e[0] == "I":
                t = A[e[1]][0]
                if inf and t == "double" and r.random() < 0.08: e[2] = r.choice([math.inf, -math.inf, math.nan])
                if ctrl and t == "string" and r.random() < 0.08: e[2] = r.choice(CTRL)
            elif ctrl and r.random() < 0.04:
                for nv in e[1]:
                    if A[nv[0]][0] == "string" and r.random() < 0.4: nv[1] = r.choice(CTRL)
    case = {"s": s, "sel": None, "ops": [], "key": None, "order": [], "fmt": r.randrange(1 << 30)}
    from checks.c18 import gen_ops
    if r.random() < agg:
        case["ops"] = gen_ops(r, A, list(ops))
        pool = [a for a in A if not A[a][1] & GLOBAL and A[a][0] != "double" and not A[a][1] & HIDDEN]
        ks = r.sample(pool, min(len(pool), r.choice([0, 1, 1, 2, 3])))
        up = r.random() < 0.5 or not ks
        case["key"] = [ks, up] if r.random() < 0.85 else None
    names = [a for a in A if not A[a][1] & HIDDEN] + [res_name(o) for o in case["ops"]]
    k = r.random()
    if k < 0.15: case["sel"] = "*"
    elif k < 0.15 + lists and names:
        items = []
        for n in r.sample(names, r.randrange(1, len(names) + 1)):
            if n in A and A[n][1] & GLOBAL and r.random() < 0.8: continue
            items.append([n, "Alias %d" % len(items) + r.choice(["", "\"q", "%", " (s)", "\u00e4"]) if r.random() < 0.3 else None])
        if unknown and r.random() < 0.1: items.append(["no.such.attr", None])
        if r.random() < 0.3: items.insert(r.randrange(len(items) + 1), ["path", None])
        if items: case["sel"] = items
    if order:
        for n in r.sample(names, min(len(names), r.choice([0, 1, 1, 2, 3]))):
            case["order"].append([n, r.choice(["", "asc", "desc"])])
        if unknown and r.random() < 0.05: case["order"].append(["no.such.attr", ""])
    return case

def check_report(case):
    valid_stream(case["s"])
    A = case["s"]["attrs"]
    from checks.c18 import check_ops
    if case["ops"]: check_ops(A, case["ops"], case["key"])
    elif case["key"] is not None: raise Invalid("key without operator")
    if case["sel"] not in (None, "*"):
        if not case["sel"] or any(not i[0] or i[1] == "" for i in case["sel"]): raise Invalid("select")
        al = [i[1] for i in case["sel"] if i[1]]
        if len(set(al)) < len(al) or len({i[0] for i in case["sel"]}) < len(case["sel"]): raise Invalid("select twice")
        if any(a in A for a in al): raise Invalid("alias is an attribute")
    if case["key"] is not None and (len(set(case["key"][0])) < len(case["key"][0]) or not case["key"][0] and not case["key"][1]): raise Invalid("key")
    if any(not o[0] for o in case["order"]): raise Invalid("order")

def report_query(case, r):
    """query text without FORMAT"""
    W = lambda w: qt(w, r)
    bynames = {res_name(o): o for o in case["ops"]}
    q, insel = [], set()
    if case["sel"] == "*": q.append("SELECT *")
    elif case["sel"]:
        l = []
        for n, a in case["sel"]:
            if n in bynames and r.random() < 0.7: insel.add(n); t = op_text(bynames[n], r)
            else: t = W(n)
            l.append(t + (" AS " + W(a) if a else ""))
        q.append("SELECT " + ", ".join(l))
    rest = [o for o in case["ops"] if res_name(o) not in insel]
    if rest: q.append("AGGREGATE " + ",".join(op_text(o, r) for o in rest))
    if case["key"] is not None: q.append("GROUP BY " + ",".join([W(k) for k in case["key"][0]] + (["path"] if case["key"][1] else [])))
    if case["order"]: q.append("ORDER BY " + ",".join(W(o[0]) + (" " + o[1] if o[1] else "") for o in case["order"]))
    r.shuffle(q)
    return " ".join(q)

class Sel:
    """which attributes a report shows"""
    def __init__(self, case, keyed=False):
        A = case["s"]["attrs"]
        self.A = A
        self.all = case["sel"] in (None, "*")
        self.names, self.path, self.alias = set(), False, {}
        self.results = {res_name(o) for o in case["ops"]}
        if not self.all:
            self.names = {i[0] for i in case["sel"]}
            self.path = "path" in self.names
            self.alias = {i[0]: i[1] for i in case["sel"] if i[1]}
        elif keyed and case["key"] is not None:
            self.all = False
            self.names = set(case["key"][0]) | self.results
            self.path = case["key"][1]
    def nested(self, n): return n in self.A and bool(self.A[n][1] & NESTED)
    def shows(self, n):
        if n not in self.A and n not in self.results: return False # an internal attribute
        if not self.all: return n in self.names or (self.path and self.nested(n))
        return n in self.results or not self.A[n][1] & (HIDDEN | GLOBAL)

def run_exec(d, q, texts):
    return run_query(d, "exec", q, texts)

def visible(case, recs):
    """the records without hidden and internal attributes"""
    A, res, out = case["s"]["attrs"], {res_name(o) for o in case["ops"]}, []
    ok = lambda n: n in res or n in A and not A[n][1] & HIDDEN
    for rec in recs:
        x = [("R", tuple(nv for nv in e[1] if ok(nv[0]))) if e[0] == "R" else e for e in rec if e[0] == "R" or ok(e[1])]
        out.append([e for e in x if e[0] == "I" or e[1]])
    return out

def nocontrol(s):
    return "".join(c for c in s if ord(c) >= 32 or c == "\n")

def vtext(v):
    """(type, value) -> text shown in a report"""
    return show_text(v[0], v[1])

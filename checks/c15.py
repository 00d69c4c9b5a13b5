"""C15: malformed or truncated input never breaks the reader."""
import random
from vf.engine import Check, Fail, Invalid
from vf.model import *
from checks.c13 import parse_read

FORMATS = ["table", "json", "json(layout=columns)", "json(layout=object)" , "json-split", "tree", "expand", "cali", "json(layout=split)"]
QS = ["SELECT * FORMAT {f}", "SELECT *,count() AGGREGATE count() GROUP BY path FORMAT {f}", "AGGREGATE sum({n}),inclusive_sum({n}) GROUP BY {a} FORMAT {f}", "SELECT * WHERE {a} FORMAT {f} ORDER BY {n}",
      "LET x=scale({n},2),y=first({a},{n}),z=leaf(path) SELECT * FORMAT {f}"]
TOK = ["__rec=node,", "__rec=ctx,", "__rec=globals,", "id=", "attr=", "data=", "parent=", "ref=", "=", ",", "\\", "\n", "0", "1", "8", "9", "10", "11", "12", "13", "99", "18446744073709551615",
       "99999999999999999999999", "-1", "int", "string", "double", "", "\x00", "\xff", "cali.attribute.name", "foo", "__rec", "=,", ",,", "==", "\r\n", "inf", "nan", "1e999", "usr", "ptr", "inv", "prop", "256"]

def refs_of(line):
    f = dict()
    from vf.model import _fields
    for k, v in _fields(line): f[k] = v
    ids = [f["attr"][0]] if f["__rec"][0] == "node" else list(f.get("attr", []))
    ids += f.get("parent", []) + f.get("ref", [])
    return f["__rec"][0], f.get("id", [None])[0], ids

class C15(Check):
    id = "C15"
    rule = ("valid streams (a) truncated at a random byte, (b) with lines deleted, duplicated, or garbage lines inserted - the records that do not depend on a damaged definition are computed "
            "independently -, (c) mutated with random bytes and grammar tokens, (d) random token soup; each read and queried with every formatter under ASan/UBSan; non-trivial: the damaged stream differs from a valid one")
    assumptions = ["a cut-off last line may be read as one record or rejected", "a hang is 30 s of CPU time for one small request"]
    quick, thorough = 24000, 400000

    def gen(self, r, i, tier):
        s = gen_stream(r, meta=True, hidden=r.random() < 0.2, nrec=r.choice([0, 1, 2, 4, 8, 16]))
        kind = r.choice(["trunc", "lines", "lines", "bytes", "bytes", "soup"])
        text = cali(s)
        c = {"kind": kind, "text": text}
        if kind == "trunc": c["at"] = r.randrange(len(text) + 1)
        elif kind == "lines":
            lines = text.split("\n")[:-1]
            c["ops"] = [[r.choice(["del", "del", "dup", "garbage"]), r.randrange(len(lines) + 1), self.garbage(r)] for _ in range(r.randrange(1, 4))]
        elif kind == "bytes":
            t = text
            for _ in range(r.randrange(1, 8)):
                p = r.randrange(len(t) + 1)
                k = r.random()
                if k < 0.3: t = t[:p] + r.choice(TOK) + t[p:]
                elif k < 0.6: t = t[:p] + t[p + r.randrange(1, 6):]
                elif k < 0.8: t = t[:p] + chr(r.randrange(1, 127)) + t[p + 1:]
                else:
                    q = r.randrange(len(t) + 1); l = r.randrange(30)
                    t = t[:p] + t[q:q + l] + t[p + l * r.randrange(2):]
            c["text"] = t
        else:
            c["text"] = "".join((r.choice(["__rec=node,id=%d,attr=%d,data=%s,parent=%d\n" % (r.randrange(30), r.randrange(30), r.choice(TOK), r.randrange(30)), r.choice(["__rec=ctx,ref=%d,attr=%d,data=%s\n", "__rec=globals,ref=%d,attr=%d,data=%s\n"]) % (r.randrange(30), r.randrange(30), r.choice(TOK))])
                                 if r.random() < 0.4 else r.choice(TOK)) for _ in range(r.randrange(1, 40)))
        names = list(s["attrs"])
        c["q"] = [r.choice(QS), r.choice(FORMATS), r.choice(names), r.choice(names)]
        return c

    def garbage(self, r):
        return r.choice(["garbage", "__rec=foo,id=1", "rec=ctx,ref=1", "__rec=node", "=", ",,,,", "__rec=node,id=,attr=", "#comment", "__rec=node,attr=8,data=x", "__rec=node,id=7777,attr=8888,data=x,parent=9999",
                         "__rec=node,id=55555,attr=8,data=q,parent=44444", "".join(chr(r.randrange(32, 126)) for _ in range(r.randrange(1, 30)))])

    def run(self, ctx, case):
        d, kind, text = ctx.drv(), case["kind"], case["text"]
        if kind == "trunc":
            cut = text[:case["at"]]
            nfull = sum(1 for l in cut.split("\n")[:-1] if l.startswith("__rec=ctx"))
            partial = cut.split("\n")[-1]
            full = parse_read(d.req("read", "1", text))[3]
            err, attrs, globs, recs = parse_read(d.req("read", "1", cut))
            extra = 1 if partial.startswith("__rec=ctx") else 0
            if not nfull <= len(recs) <= nfull + extra: raise Fail("cut after %d complete records: %d records delivered" % (nfull, len(recs)))
            for a, b in zip(full[:nfull], recs):
                if not rec_eq(a, b): raise Fail("record before the cut is %s, expected %s" % (b, a))
            if not extra and not partial.startswith("__rec=") and partial and not err: raise Fail("cut-off line %r was not reported" % partial)
            bad = cut
        elif kind == "lines":
            lines = [(l, True) for l in text.split("\n")[:-1]]
            marked = []
            dead = set()
            for op, k, g in case["ops"]:
                if op == "garbage": lines.insert(min(k, len(lines)), (g, False))
                elif k < len(lines):
                    if op == "dup": lines.insert(k, lines[k])
                    else: del lines[k]
            orig = {}
            for l in text.split("\n")[:-1]: orig.setdefault(l, 0)
            ok_ids = {str(i) for i in range(12)}
            expect = []
            full = parse_read(d.req("read", "1", text))[3]
            ctxs = [l for l in text.split("\n")[:-1] if l.startswith("__rec=ctx")]
            val = dict(zip(ctxs, full))
            for l, good in lines:
                if not good: continue
                k, i, ids = refs_of(l)
                if all(x in ok_ids for x in ids):
                    if k == "node": ok_ids.add(i)
                    elif k == "ctx": expect.append(val[l])
            bad = "".join(l + "\n" for l, _ in lines)
            err, attrs, globs, recs = parse_read(d.req("read", "1", bad))
            it = iter(recs)
            for e in expect:
                for g in it:
                    if rec_eq(e, g): break
                else: raise Fail("intact record %s is missing or changed" % e)
            if len(recs) > len([1 for l, _ in lines if l.startswith("__rec=ctx")]): raise Fail("more records than record lines")
            if any(not g and not l.startswith("__rec=") and l for l, g in lines) and not err: raise Fail("malformed line was not reported")
        else:
            bad = text
            d.req("read", "1", bad)
        q, f, a, b = case["q"]
        qt = lambda t: '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'
        q = q.format(f=f, a=qt(a), n=qt(b))
        o = d.req("query", q, "", "1", bad)
        d.req("rewrite", "1", bad)
        d.req("agg", "AGGREGATE count(),sum(%s) GROUP BY %s" % (qt(b), qt(a)), "0 1 +", "2", "", bad, bad)
        return dict(tags=[kind, f.split("(")[0]], nontrivial=True, show=bad[:600])
CHECK = C15

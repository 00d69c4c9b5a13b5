"""C32: query tool options and CalQL are equivalent."""
import re, random
from vf.engine import Check, Fail, Invalid
from vf.model import *
from vf.query import *

SAFE = re.compile(r"[A-Za-z_0-9.#]+")
AGGS = {"count": 0, "sum": 1, "min": 1, "max": 1, "avg": 1, "percent_total": 1, "inclusive_sum": 1, "scale": 2}

def gen_opts(r, s):
    A = s["attrs"]
    names = [a for a in A if SAFE.fullmatch(a)] or ["nope"]
    nums = [a for a in names if a in A and A[a][0] in ("int", "uint", "double") and A[a][1] & ASVALUE and not A[a][1] & GLOBAL]
    p = lambda x: r.random() < x
    o = {}
    if p(0.4):
        l = []
        for _ in range(r.choice([1, 1, 2])):
            n = r.choice(names)
            vs = [x for rec in s["recs"] for e in rec for m, x in (e[1] if e[0] == "R" else [[e[1], e[2]]]) if m == n]
            v = None
            if p(0.6) and vs and n in A:
                v = cali_text(A[n][0], r.choice(vs))
                if not re.fullmatch(r"[A-Za-z0-9_./+-]+", v): v = None
            l.append([p(0.3), n, v])
        o["select"] = l
    if p(0.4): o["attributes"] = r.sample(names, r.randrange(1, min(4, len(names)) + 1))
    if p(0.4) and nums:
        ops, seen = [], set()
        for _ in range(r.choice([1, 1, 2, 3])):
            f = r.choice(list(AGGS))
            op = [f] + ([r.choice(nums)] if AGGS[f] else []) + (["2"] if f == "scale" else [])
            if res_name(op) in seen: continue
            seen.add(res_name(op)); ops.append(op)
        o["aggregate"] = ops
        k = r.random()
        if k < 0.15: o["key"] = "none"
        elif k < 0.8:
            ks = [n for n in r.sample(names, min(len(names), r.choice([1, 1, 2, 3]))) if n not in A or A[n][0] != "double"]
            if p(0.4): ks.insert(r.randrange(len(ks) + 1), r.choice(["path", "prop:nested"]))
            if ks: o["key"] = ks
    if p(0.3): o["sort"] = r.sample(names, r.randrange(1, min(3, len(names)) + 1))
    f = r.choice(["table", "table", "tree", "json", "expand", "format", "cali"])
    o["fmt"] = f
    if f == "tree" and p(0.4): o["pathattrs"] = r.sample(names, min(len(names), r.choice([1, 2])))
    if f == "format":
        o["format"] = " ".join("%" + (("[%d]" % r.choice([4, 10, 20])) if p(0.5) else "") + n + "%" for n in r.sample(names, min(len(names), r.choice([1, 2, 3]))))
        if p(0.4): o["title"] = r.choice(["Title", "A B C", "x"])
    o["let"] = bool(nums) and p(0.15)
    o["letattr"] = r.choice(nums) if nums else ""
    return o

BAD = [["--nosuch"], ["-x"], ["--query=SELECT"], ["-q", "FORMAT nosuch"], ["-q", "AGGREGATE nosuch(x)"], ["-q", "SELECT sum("], ["-q", "LET a="], ["-q", "WHERE a=1,"], ["-Q", "no-such-file.calql"], ["--query-file=none/none"], ["-q", "GROUP a"],
       ["-q", "AGGREGATE scale(a)"], ["-q", "bogus"], ["--tabel"], ["-tz"], ["-q", "FORMAT format"], ["-q", "LET x=ratio(a)"], ["-q", "SELECT a,"], ["-q", "SELECT a b"], ["-f"]]

class C32(Check):
    id = "C32"
    rule = ("command lines with random selection, aggregation, sorting and formatting options in random order and spelling (long, short, joined, separate), over 1-4 input files or standard input, to a file or standard "
            "output; the output is compared with the equivalent CalQL query run by the library; CalQL from the command line and from query files; attribute and global listings, cali-stat counts and reuse statistics against counts "
            "from the generated data; invalid options, queries and files; non-trivial: the output has at least two lines, or an error is expected")
    assumptions = ["names in options have no commas, blanks or operator characters", "exclusion of attributes with '-' is not covered"]
    quick, thorough = 2400, 60000
    quick_wall = 300

    def gen(self, r, i, tier):
        s = gen_stream(r, meta=r.random() < 0.5, nrec=r.choice([1, 2, 4, 8, 20]), plain=True, small=True, weird=r.random() < 0.3)
        kind = r.choice(["opts"] * 6 + ["query", "globals", "attributes", "stat", "bad", "missing"])
        n = r.choice([1, 1, 1, 2, 3, 4])
        return {"kind": kind, "s": s, "o": gen_opts(r, s), "n": n, "parts": [r.randrange(n) for _ in s["recs"]], "stdin": n == 1 and r.random() < 0.3, "out": r.random() < 0.2, "fmt": r.randrange(1 << 30), "bad": r.randrange(len(BAD)),
                "fmts": [r.randrange(1 << 30) for _ in range(n)]}

    def opt(self, r, long, short, val):
        if val is None: return ["--" + long] if short is None or r.random() < 0.5 else ["-" + short]
        k = r.randrange(4)
        if k == 0 or (short is None and k == 2): return ["--%s=%s" % (long, val)]
        if k == 1 or short is None: return ["--" + long, val]
        if k == 2: return ["-" + short, val]
        return ["-%s=%s" % (short, val)]

    def run(self, ctx, case):
        s, o = case["s"], case["o"]
        valid_stream(s)
        r = random.Random(case["fmt"])
        d = ctx.drv()
        n = case["n"]
        if len(case["fmts"]) != n: raise Invalid("parts")
        texts = [cali({"attrs": s["attrs"], "recs": [rec for j, rec in enumerate(s["recs"]) if case["parts"][j:j + 1] == [k]], "globs": s["globs"] if k == 0 else [], "fmt": case["fmts"][k]}) for k in range(n)]
        files = {"in%d.cali" % k: t for k, t in enumerate(texts)}
        k = case["kind"]
        if k == "bad": return self.bad(d, case, files)
        if k == "missing": return self.missing(d, case, files, texts)
        if k == "stat": return self.stat(d, case, files, texts, r)
        groups = []
        q = []
        if k in ("globals", "attributes"):
            groups.append(self.opt(r, "list-" + k, "G" if k == "globals" else None, None))
            groups.append(self.opt(r, "json", "j", None))
        else:
            if o.get("let"): q.append("LET lx=scale(%s,2)" % o["letattr"])
            lead = list(q)
            if o.get("select"):
                if any(SAFE.fullmatch(c[1]) is None or (c[2] is not None and not re.fullmatch(r"[A-Za-z0-9_./+-]+", c[2])) for c in o["select"]): raise Invalid("select")
                groups.append(self.opt(r, "select", "s", ",".join(("-" if c[0] else "") + c[1] + ("=" + c[2] if c[2] is not None else "") for c in o["select"])))
                q.append("WHERE " + ",".join(("NOT " if c[0] else "") + qt(c[1]) + ("=" + qt(c[2]) if c[2] is not None else "") for c in o["select"]))
            if o.get("attributes"):
                groups.append(self.opt(r, "print-attributes", None, ",".join(o["attributes"])))
                q.append("SELECT " + ",".join(qt(a) for a in o["attributes"]))
            if o.get("aggregate"):
                ops = o["aggregate"]
                if any(not op or op[0] not in AGGS or len(op) - 1 != AGGS[op[0]] for op in ops): raise Invalid("op")
                groups.append(self.opt(r, "aggregate", None, ",".join(op[0] + ("(" + ",".join(op[1:]) + ")" if len(op) > 1 or r.random() < 0.5 else "") for op in ops)))
                q.append("AGGREGATE " + ",".join("%s(%s)" % (op[0], ",".join(qt(a) for a in op[1:])) for op in ops))
                if o.get("key") == "none": groups.append(self.opt(r, "aggregate-key", None, "none")); q.append("GROUP BY no.such.attribute.at.all")
                elif o.get("key"): groups.append(self.opt(r, "aggregate-key", None, ",".join(o["key"]))); q.append("GROUP BY " + ",".join(x if x in ("path", "prop:nested") else qt(x) for x in o["key"]))
            if o.get("sort"): groups.append(self.opt(r, "sort-by", "S", ",".join(o["sort"]))); q.append("ORDER BY " + ",".join(qt(x) for x in o["sort"]))
            f = o["fmt"]
            if f == "table": groups.append(self.opt(r, "table", "t", None)); fq = "table"
            elif f == "tree":
                groups.append(self.opt(r, "tree", "T", None)); fq = "tree"
                if o.get("pathattrs"): groups.append(self.opt(r, "path-attributes", None, ",".join(o["pathattrs"]))); fq = "tree(path-attributes=%s)" % qt(",".join(o["pathattrs"]))
            elif f == "json": groups.append(self.opt(r, "json", "j", None)); fq = "json"
            elif f == "expand": groups.append(self.opt(r, "expand", "e", None)); fq = "expand"
            elif f == "format":
                if not o.get("format"): raise Invalid("format")
                groups.append(self.opt(r, "format", "f", o["format"])); fq = "format(format=%s" % qt(o["format"])
                if o.get("title"): groups.append(self.opt(r, "title", None, o["title"])); fq += ",title=%s" % qt(o["title"])
                fq += ")"
            else: fq = "cali"
            q.append("FORMAT " + fq)
            if k == "query":
                full = " ".join(q)
                if r.random() < 0.5: groups = [self.opt(r, "query", "q", full)]
                else: files["q.calql"] = full.replace(" ", "\n", 1); groups = [self.opt(r, "query-file", "Q", "q.calql")]
            elif lead: groups.append(self.opt(r, "query", "q", " ".join(lead)))
        if case["out"]: groups.append(self.opt(r, "output", "o", "out.txt"))
        if not case["stdin"]:
            ins = ["in%d.cali" % j for j in range(n)]
            # inputs keep their order but may stand between options
            r.shuffle(groups)
            for f in ins: groups.insert(r.randrange(max([i for i, g in enumerate(groups) if g and g[0].startswith("in")] + [-1]) + 1, len(groups) + 1), [f])
        else: r.shuffle(groups)
        args = [a for g in groups for a in g]
        rc, out, err, extra = d.tool("cali-query", args, stdin=texts[0] if case["stdin"] else b"", files=files)
        if rc != 0 or "rror" in err: raise Fail("%s: status %d: %s" % (args, rc, err[-300:]))
        if case["out"]:
            if out: raise Fail("%s: output on standard output in spite of -o: %r" % (args, out[:200]))
            if "out.txt" not in extra: raise Fail("%s: no output file" % args)
            out = extra["out.txt"]
        if k in ("globals", "attributes"): return self.listing(k, case, args, out)
        o2 = d.req("query", " ".join(q), "", str(n), *texts)
        if o2[0] != "ok": raise Fail("query rejected: %s: %s" % (" ".join(q), o2[1:]))
        exp = o2[1]
        if out != exp: raise Fail("%s prints\n%s\nbut %s gives\n%s" % (args, out[:700], " ".join(q), exp[:700]))
        tags = [k, o["fmt"]] + [x for x in ("select", "attributes", "aggregate", "key", "sort", "let") if o.get(x)] + (["stdin"] if case["stdin"] else []) + (["files"] if n > 1 else [])
        return dict(tags=tags, nontrivial=out.count("\n") > 1, show=dict(args=args, query=" ".join(q), output=out[:500]))

    def listing(self, k, case, args, out):
        import json
        A = case["s"]["attrs"]
        try: recs = json.loads(out)
        except ValueError as e: raise Fail("%s: no valid JSON: %s: %s" % (args, e, out[:300]))
        if k == "globals":
            exp = {}
            for n, v in case["s"]["globs"]: exp.setdefault(n, []).append(v)
            got = {}
            for rec in recs: got.update(rec)
            if set(got) != set(exp): raise Fail("%s: lists %s, expected %s" % (args, sorted(got), sorted(exp)))
            for n, l in exp.items():
                t = A[n][0]
                if len(l) == 1 and t in ("int", "uint") and not isinstance(got[n], (list, dict)) and str(got[n]) != str(l[0]): raise Fail("%s: global %s is %r, expected %r" % (args, n, got[n], l))
                if len(l) == 1 and t == "string" and got[n] != "".join(c for c in l[0]): raise Fail("%s: global %s is %r, expected %r" % (args, n, got[n], l))
        else:
            byname = {}
            for rec in recs:
                n = rec.get("cali.attribute.name")
                byname.setdefault(n, []).append(rec)
            used = set()
            def use(n):
                if n in used: return
                used.add(n)
                for m in A[n][2]: use(m)
            for rec in case["s"]["recs"]:
                for e in rec:
                    for n in ([x[0] for x in e[1]] if e[0] == "R" else [e[1]]): use(n)
            for n, v in case["s"]["globs"]: use(n)
            miss = used - set(byname)
            more = set(byname) - set(A)
            if miss or more: raise Fail("%s: does not list %s, lists %s" % (args, sorted(miss), sorted(map(str, more))))
            for n in used:
                for rec in byname[n]:
                    if rec.get("cali.attribute.type") != A[n][0] or rec.get("cali.attribute.prop") != A[n][1]: raise Fail("%s: attribute %s is listed as %s, expected %s" % (args, n, rec, A[n]))
                    for m, v in A[n][2].items():
                        if m not in rec: raise Fail("%s: attribute %s is listed without %s: %s" % (args, n, m, rec))
        return dict(tags=[k], nontrivial=bool(recs), show=dict(args=args, output=out[:500]))

    def bad(self, d, case, files):
        args = list(BAD[case["bad"]]) + ["in0.cali"]
        if args[0] == "-f": args = ["in0.cali", "-q", "SELECT , FORMAT table"]
        rc, out, err, extra = d.tool("cali-query", args, files=files)
        if rc == 0 or not err.strip(): raise Fail("%s: status %d, message %r" % (args, rc, err))
        if out.strip(): raise Fail("%s: prints %r" % (args, out[:300]))
        rc, out, err, extra = d.tool("cali-stat", ["--nosuch", "in0.cali"], files=files)
        if rc == 0 or not err.strip(): raise Fail("cali-stat --nosuch: status %d, message %r" % (rc, err))
        return dict(tags=["bad"], nontrivial=True, show=dict(args=args, message=err[:300]))

    def missing(self, d, case, files, texts):
        # an unreadable file is reported and does not keep the other files from being processed
        n = case["n"]
        ins = ["in%d.cali" % j for j in range(n)]
        pos = case["fmt"] % (n + 1)
        args = ["-q", "SELECT * FORMAT expand"] + ins[:pos] + ["does-not-exist.cali"] + ins[pos:]
        rc, out, err, extra = d.tool("cali-query", args, files=files)
        if "does-not-exist.cali" not in err: raise Fail("%s: no message about the missing file: %r" % (args, err))
        o2 = d.req("query", "SELECT * FORMAT expand", "", str(n), *texts)
        if out != o2[1]: raise Fail("%s prints %r, expected %r" % (args, out[:400], o2[1][:400]))
        return dict(tags=["missing"], nontrivial=True, show=dict(args=args, message=err[:300]))

    def stat(self, d, case, files, texts, r):
        n = case["n"]
        A = case["s"]["attrs"]
        if any(a[1] & HIDDEN for a in A.values()): raise Invalid("hidden")
        reuse = r.random() < 0.5
        args = (["-r"] if reuse else []) + ["in%d.cali" % j for j in range(n)] + (["-o", "o.txt"] if case["out"] else [])
        rc, out, err, extra = d.tool("cali-stat", args, files=files)
        if rc != 0: raise Fail("%s: status %d: %s" % (args, rc, err[-300:]))
        if case["out"]: out = extra.get("o.txt", "")
        lines = [l for t in texts for l in t.split("\n")]
        nodes = sum(l.startswith("__rec=node") for l in lines)
        recs = [rec for rec in case["s"]["recs"]]
        ref = sum(e[0] == "R" for rec in recs for e in rec); imm = sum(e[0] == "I" for rec in recs for e in rec)
        L = out.split("\n")
        def row(title, k=2):
            for i, l in enumerate(L):
                if l.startswith(title): return L[i + k].split()
            raise Fail("cali-stat prints no %r: %s" % (title, out[:500]))
        g = lambda x: "%g" % x
        exp = [str(nodes + len(recs)), str(nodes), str(len(recs))]
        if row("Number of records") != exp: raise Fail("cali-stat counts records %s, expected %s" % (row("Number of records"), exp))
        exp = [str(ref + 2 * imm + 4 * nodes), str(4 * nodes), str(ref), str(2 * imm)]
        if row("Number of elements") != exp: raise Fail("cali-stat counts elements %s, expected %s" % (row("Number of elements"), exp))
        if recs:
            ne = [sum(1 if e[0] == "R" else 2 for e in rec) for rec in recs]
            exp = [str(min(ne)), str(max(ne)), g((ref + 2 * imm) / len(recs))]
            if row("Elements/snapshot") != exp: raise Fail("cali-stat gives elements per snapshot %s, expected %s" % (row("Elements/snapshot"), exp))
            ra = sum(len(e[1]) if e[0] == "R" else 1 for rec in recs for e in rec)
            exp = [str(ra), g(ra / len(recs)), g(ra / (ref + 2 * imm + 4 * nodes)) if ref + 2 * imm + 4 * nodes else None]
            got = row("Attributes referenced")
            if exp[2] is not None and got != exp: raise Fail("cali-stat counts attribute references %s, expected %s" % (got, exp))
        if reuse:
            # number of nodes and of different values per attribute
            attrs, cnt, uses = {}, {}, {}
            exp = {}
            for a in A:
                pn = 0
                for t in texts:
                    ids = set()
                    for l in t.split("\n"):
                        f = dict(x.split("=", 1) for x in fields(l) if "=" in x)
                        if f.get("__rec") != "node": continue
                        if f.get("attr") == "8" and unesc(f.get("data", "")) == a: ids.add(f["id"])
                        elif f.get("attr") in ids: pn += 1
                if pn: exp[a] = pn
            got = {}
            i = [k for k, l in enumerate(L) if l.startswith("Reuse")]
            for l in L[i[0] + 2:]:
                f = l.rsplit(None, 5)
                if len(f) == 6 and not f[0].startswith("cali.attribute."): got[f[0].strip()] = int(f[1])
            if {k: v for k, v in got.items()} != {k.strip(): v for k, v in exp.items()}: raise Fail("cali-stat counts nodes per attribute %s, expected %s" % (got, exp))
        return dict(tags=["stat"], nontrivial=len(recs) > 1, show=dict(args=args, output=out[:600]))

def fields(l):
    from vf.model import _split
    return _split(l, ",")
def unesc(t):
    from vf.model import _unesc
    return _unesc(t)
CHECK = C32

"""C21: JSON output is valid JSON and faithful."""
import json
from vf.engine import Check, Fail, Invalid
from vf.model import *
from vf.query import *
from vf.report import *

class Num(str): pass
class Const(str): pass

def parse(text, what):
    def pairs(l):
        d = {}
        for k, v in l:
            if k in d: raise Fail("%s: key %r appears twice in one object: %s" % (what, k, l))
            d[k] = v
        return d
    def const(x): raise ValueError("constant %s" % x)
    try:
        return json.loads(text, object_pairs_hook=pairs, parse_int=Num, parse_float=Num, parse_constant=const)
    except ValueError as e:
        raise Fail("%s: not valid JSON: %s: %s" % (what, e, text[:1500]))

def same(v, exp, quote_all, bool_any=False):
    """parsed JSON value against (type, value)"""
    t, x = exp
    if v is None or isinstance(v, (dict, list)): return False
    txt = {True: "true", False: "false"}.get(v, v) if isinstance(v, bool) else str(v)
    if t == "double" and x != x: return "nan" in txt and not isinstance(v, Num)
    if txt != nocontrol(vtext(exp)): return False
    lit = isinstance(v, (Num, bool))
    if quote_all or t in ("string", "addr", "type", "usr"): return not lit
    if t in ("int", "uint") or t == "double" and abs(x) != math.inf: return lit
    return t == "bool" or not lit

class C21(Check):
    id = "C21"
    rule = ("streams over all value types (also inf, nan, control characters, quotes, UTF-8, empty strings), attribute names with special characters, metadata, hidden attributes and globals, written by the json formatter "
            "(records, split and object layouts; pretty, quote-all, separate-nested) and the json-split formatter for random selections, aliases and aggregations; the text is parsed with a strict JSON parser and every "
            "record, column, node, global and attribute description compared with the query result; non-trivial: at least one record with an entry that is shown")
    assumptions = ["control characters other than newline are dropped, as the writers document", "values are shown as text with 6 decimals for doubles", "a boolean may be written as true/false or as a string",
                   "non-finite numbers have no JSON literal, so they are written as strings"]
    quick, thorough = 30000, 500000

    def gen(self, r, i, tier):
        c = gen_report(r)
        G, A = c["s"]["globs"], c["s"]["attrs"]
        if G and r.random() < 0.25: # nested values of a global
            n, v = r.choice(G)
            for _ in range(r.choice([1, 2]) if not A[n][1] & ASVALUE and v != "" else 0):
                x = gen_value(r, A[n][0])
                if x != "": G.append([n, x])
        k = r.random()
        if k < 0.55:
            args = [r.choice(["object", "object", "records", "split"])] if r.random() < 0.6 else []
            args += [x for x in ("pretty", "quote-all", "separate-nested") if r.random() < 0.3]
            r.shuffle(args)
            c["f"] = ["json", args]
        else: c["f"] = ["json-split", []]
        return c

    def known(self, case, msg):
        if case["f"][0] == "json-split" and "appears twice in one object" in msg and any(g[0] in ("data", "nodes", "columns", "column_metadata") for g in case["s"]["globs"]): return "c21-global-name"

    def run(self, ctx, case):
        check_report(case)
        A = case["s"]["attrs"]
        if "path" in A: raise Invalid("an attribute named path")
        f, args = case["f"]
        if f not in ("json", "json-split") or any(a not in ("object", "records", "split", "pretty", "quote-all", "separate-nested") for a in args): raise Invalid("format")
        if sum(a in args for a in ("object", "records", "split")) > 1: raise Invalid("layouts")
        r = random.Random(case["fmt"])
        q = report_query(case, r)
        d = ctx.drv()
        text = cali(case["s"])
        recs = run_exec(d, q, [text])
        qf = q + " FORMAT " + f + ("(" + ",".join(args) + ")" if args else "")
        o = d.req("query", qf, "", "1", text)
        if o[0] != "ok": raise Fail("query rejected: %s: %s" % (qf, o[1:]))
        sel = Sel(case, keyed=f == "json-split")
        n = self.json(qf, o[1], case, sel, recs, args) if f == "json" else self.split(qf, o[1], case, sel, recs)
        tags = [f] + args + (["aggregated"] if case["ops"] else []) + ["select:" + ("all" if case["sel"] in (None, "*") else "list")] + (["alias"] if sel.alias else [])
        return dict(tags=tags, nontrivial=n > 0, show=dict(query=qf, output=o[1][:800]))

    def globals(self, case):
        A, g = case["s"]["attrs"], {}
        for n, v in case["s"]["globs"]:
            t = A[n][0]
            if t == "double": v = float(fmt_double(v))
            g.setdefault(n, []).append(vtext((t, v)))
        return {nocontrol(n): v for n, v in g.items()}

    def check_globals(self, q, case, got):
        exp = self.globals(case)
        for n, vs in exp.items():
            if n not in got: raise Fail("%s: global %r is missing: %s" % (q, n, list(got)))
            if got[n] != nocontrol("/".join(vs)): raise Fail("%s: global %r is %r, expected %r" % (q, n, got[n], "/".join(vs)))
        for n in got:
            if n not in exp: raise Fail("%s: unexpected global %r" % (q, n))

    def json(self, q, text, case, sel, recs, args):
        A = case["s"]["attrs"]
        sep = "separate-nested" in args
        key = lambda n: "path" if sel.nested(n) and not sep else nocontrol(sel.alias.get(n, n))
        exp = []
        for rec in recs:
            h, v = {}, {}
            for e in rec:
                if e[0] == "R":
                    for n, x in reversed(e[1]):
                        if sel.shows(n): h.setdefault(key(n), []).insert(0, x)
                elif sel.shows(e[1]): v[key(e[1])] = e[2]
            x = {k: ("string", "/".join(vtext(y) for y in l)) for k, l in h.items()}
            x.update(v)
            if x: exp.append(x)
        if "split" in args: text = "[" + text + "]"
        doc = parse(text, q)
        obj = None
        if "object" in args:
            obj = doc
            if not isinstance(doc, dict) or set(doc) != {"records", "globals", "attributes"}: raise Fail("%s: the object has %s" % (q, list(doc)))
            doc = doc["records"]
        if not isinstance(doc, list) or any(not isinstance(x, dict) for x in doc): raise Fail("%s: records are no array of objects" % q)
        if "split" in args and exp == [] : pass
        qa = "quote-all" in args
        eq = lambda a, b: set(a) == set(b) and all(same(b[k], a[k], qa) for k in a)
        self.match(q, exp, doc, eq, bool(case["ops"]))
        if obj is not None:
            self.check_globals(q, case, obj["globals"])
            at = obj["attributes"]
            shown = {n for rec in recs for n, _ in flat(rec) if sel.shows(n) and (sep or not sel.nested(n))}
            for n in shown:
                if nocontrol(n) not in at: raise Fail("%s: attribute %r is not described: %s" % (q, n, list(at)))
            for n, m in at.items():
                if n in A:
                    if A[n][1] & HIDDEN: raise Fail("%s: hidden attribute %r is described" % (q, n))
                    if not sel.all and not sel.shows(n): raise Fail("%s: attribute %r is described but not selected" % (q, n))
                    for k, bit in (("is_global", GLOBAL), ("is_nested", NESTED)):
                        if m.get(k) is not bool(A[n][1] & bit): raise Fail("%s: %s of %r is %s" % (q, k, n, m.get(k)))
                    for k, x in A[n][2].items():
                        if k == "attribute.alias" and n in sel.alias: continue
                        if m.get(nocontrol(k)) != nocontrol(vtext((A[k][0], x))): raise Fail("%s: metadata %r of %r is %r, expected %r" % (q, k, n, m.get(k), x))
        return len(exp)

    def match(self, q, exp, got, eq, unordered):
        if len(exp) != len(got): raise Fail("%s: %d records in the output, expected %d: %s / %s" % (q, len(got), len(exp), str(got)[:600], str(exp)[:600]))
        if not unordered:
            for i, (a, b) in enumerate(zip(exp, got)):
                if not eq(a, b): raise Fail("%s: record %d is %s, expected %s" % (q, i, b, a))
        else:
            left = list(got)
            for a in exp:
                for j, b in enumerate(left):
                    if eq(a, b): del left[j]; break
                else: raise Fail("%s: no output record for %s in %s" % (q, a, str(left)[:800]))

    def split(self, q, text, case, sel, recs):
        A = case["s"]["attrs"]
        doc = parse(text, q)
        if not isinstance(doc, dict) or not {"data", "columns", "column_metadata", "nodes"} <= set(doc): raise Fail("%s: sections are %s" % (q, list(doc)))
        cols, meta, nodes, data = doc["columns"], doc["column_metadata"], doc["nodes"], doc["data"]
        if len(set(cols)) != len(cols): raise Fail("%s: columns appear twice: %s" % (q, cols))
        if len(meta) != len(cols): raise Fail("%s: %d columns but %d metadata entries" % (q, len(cols), len(meta)))
        self.check_globals(q, case, {k: v for k, v in doc.items() if k not in ("data", "columns", "column_metadata", "nodes")})
        chains = []
        for i, nd in enumerate(nodes):
            p = nd.get("parent")
            if p is not None and not (isinstance(p, Num) and 0 <= int(p) < i): raise Fail("%s: node %d has parent %s" % (q, i, p))
            if nd.get("column") not in cols: raise Fail("%s: node %d names column %r of %s" % (q, i, nd.get("column"), cols))
            if p is not None and nodes[int(p)]["column"] != nd["column"]: raise Fail("%s: node %d and its parent belong to different columns" % (q, i))
            chains.append((chains[int(p)] if p is not None else ()) + (nd["label"],))
        key = lambda n: "path" if sel.nested(n) else nocontrol(sel.alias.get(n, n))
        names = {}
        for n in list(A) + sorted(sel.results):
            if sel.shows(n): names.setdefault(key(n), set()).add(n)
        for i, c in enumerate(cols):
            if c not in names and (not sel.all or any(row[i] is not None for row in data)): raise Fail("%s: unexpected column %r" % (q, c))
        for c, m in zip(cols, meta):
            if c not in names: continue # an attribute that only describes other attributes
            value = all(n in sel.results or bool(A[n][1] & ASVALUE) for n in names[c])
            if m.get("is_value") is not value: raise Fail("%s: is_value of column %r is %s" % (q, c, m.get("is_value")))
            if len(names[c]) == 1 and c != "path":
                n = list(names[c])[0]
                for k, x in (A[n][2] if n in A else {}).items():
                    if k == "attribute.alias" and n in sel.alias: continue
                    if m.get(nocontrol(k)) != nocontrol(vtext((A[k][0], x))): raise Fail("%s: metadata %r of column %r is %r, expected %r" % (q, k, c, m.get(k), x))
        if any(len(row) != len(cols) for row in data): raise Fail("%s: a row has not one entry per column" % q)
        exp, got = [], []
        for rec in recs:
            x = {}
            for e in rec:
                if e[0] == "R":
                    for n, v in reversed(e[1]):
                        if sel.shows(n): x[key(n)] = (nocontrol(vtext(v)),) + x.get(key(n), ())
                elif sel.shows(e[1]): x[key(e[1])] = e[2]
            exp.append(x)
        for row in data:
            x = {}
            for c, m, v in zip(cols, meta, row):
                if v is None: continue
                if m["is_value"]: x[c] = v
                else:
                    if not isinstance(v, Num) or not 0 <= int(v) < len(nodes): raise Fail("%s: node reference %r in column %r" % (q, v, c))
                    if nodes[int(v)]["column"] != c: raise Fail("%s: column %r refers to node %s of column %r" % (q, c, v, nodes[int(v)]["column"]))
                    x[c] = chains[int(v)]
            got.append(x)
        def eq(a, b):
            return set(a) == set(b) and all((a[k] == b[k]) if isinstance(b[k], tuple) else (not isinstance(a[k][0], tuple) and same(b[k], a[k], False)) for k in a)
        self.match(q, exp, got, eq, bool(case["ops"]))
        return sum(1 for x in exp if x)
CHECK = C21

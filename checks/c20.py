"""C20: a CalQL text means what it says, and bad text is rejected."""
from vf.engine import Check, Fail, Invalid
from vf.model import *
from vf.query import *
from vf.driver import enc, dec

KEYWORDS = {"select", "where", "group", "order", "let", "format", "aggregate", "as", "unit", "not", "if", "asc", "desc", "path", "prop:nested", "by"}
AGG = {"count": (0, 0), "sum": (1, 1), "ratio": (2, 3), "percent_total": (1, 1), "inclusive_sum": (1, 1), "min": (1, 1), "max": (1, 1), "avg": (1, 1), "scale": (2, 2), "inclusive_scale": (2, 2),
       "inclusive_percent_total": (1, 1), "any": (1, 1), "scale_count": (1, 1), "inclusive_ratio": (2, 3), "inclusive_min": (1, 1), "inclusive_max": (1, 1), "variance": (1, 1)}
LET = {"ratio": (2, 3), "scale": (2, 2), "truncate": (1, 2), "first": (1, 8), "sum": (1, 8), "leaf": (0, 1)}
FMT = {"cali": [], "json": ["object", "pretty", "quote-all", "separate-nested", "records", "split"], "expand": [], "format": ["format", "title"], "table": ["column-width", "print-globals"],
       "tree": ["path-attributes", "column-width", "print-globals"], "json-split": []}
NUMS = ["1", "2", "0.5", "-3", "1e-6", "1e9", "100", "0"]
NUMARG = {("agg", "ratio"): 2, ("agg", "inclusive_ratio"): 2, ("agg", "scale"): 1, ("agg", "inclusive_scale"): 1, ("agg", "scale_count"): 0, ("let", "ratio"): 2, ("let", "scale"): 1, ("let", "truncate"): 1}
CH = "abcXYZ019_.#:/%+-[]{}*&^!?@$|~ ,;=<>()\\\"'\t\u00e4\u20ac"

def word(r):
    while True:
        k = r.random()
        if k < 0.55: w = r.choice(["function", "time.duration.ns", "loop", "iteration#main", "a", "x1", "mpi.rank", "sum#time", "count", "sum", "table"])
        elif k < 0.8: w = r.choice(["my attr", "a,b", "a=b", "a<b", "(x)", "quo\"te", "back\\slash", " lead", "trail ", "\u00fcber", "x;y", "a\nb", "*", "*a"])
        else: w = "".join(r.choice(CH) for _ in range(r.randrange(1, 9)))
        if w.lower() not in KEYWORDS: return w

def call(r, kind, table):
    f = r.choice(list(table))
    lo, hi = table[f]
    n = r.randrange(lo, min(hi, lo + 3) + 1)
    pos = NUMARG.get((kind, f))
    return [f] + [r.choice(NUMS) if i == pos else word(r) for i in range(n)]

def gen_model(r):
    q = {}
    p = lambda x: r.random() < x
    if p(0.6):
        items = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            k = r.random()
            if k < 0.15: items.append(["*", None, None, None])
            else:
                it = ["attr", word(r)] if k < 0.6 else ["call", call(r, "agg", AGG)]
                if p(0.1) and not any(x[1] == "path" for x in items): it = ["attr", "path"]
                items.append(it + [word(r) if p(0.3) else None, word(r) if p(0.2) else None])
        q["select"] = items
    if p(0.4): q["aggregate"] = [call(r, "agg", AGG) for _ in range(r.choice([1, 2, 3]))]
    if p(0.5): 
        q["group"] = [word(r) for _ in range(r.choice([1, 1, 2, 4]))]
        if p(0.3): q["group"][r.randrange(len(q["group"]))] = r.choice(["path", "prop:nested"])
    if p(0.5): q["where"] = [[p(0.3), word(r), r.choice(["", "=", "<", ">"]), word(r)] for _ in range(r.choice([1, 1, 2, 3]))]
    if p(0.35):
        l, seen = [], set()
        for _ in range(r.choice([1, 1, 2, 3])):
            t = word(r)
            if t in seen: continue
            seen.add(t)
            l.append([t, call(r, "let", LET), [p(0.3), word(r), r.choice(["", "=", "<", ">"]), word(r)] if p(0.3) else None])
        q["let"] = l
    if p(0.4): q["order"] = [[word(r), r.choice(["", "asc", "desc"])] for _ in range(r.choice([1, 1, 2, 3]))]
    if p(0.5):
        f = r.choice(list(FMT))
        names, args = FMT[f], []
        n = r.randrange(len(names) + 1) if f != "format" else r.choice([1, 2])
        keys = r.sample(names, n)
        positional = p(0.4)
        if f == "format" and not positional and "format" not in keys: keys[0] = "format"
        for i in range(n):
            if positional:
                w = word(r)
                if w in names or "=" in w: w = "w%d" % i
                args.append(["pos", w])
            elif f == "json" or (p(0.3) and keys[i] == "print-globals"): args.append(["flag", keys[i]])
            else: args.append(["kv", keys[i], word(r) if keys[i] not in ("column-width",) else r.choice(["10", "80", "3"])])
        q["format"] = [f, args]
    order = list(q); r.shuffle(order)
    return {"q": q, "order": order}

def case_of(r, w):
    k = r.random()
    return w.upper() if k < 0.4 else w if k < 0.7 else w.capitalize() if k < 0.85 else "".join(c.upper() if r.random() < 0.5 else c for c in w)

def render(m, r):
    q = m["q"]
    ws = lambda: r.choice([" ", " ", "  ", "\t", "\n", " \n "])
    ow = lambda: r.choice(["", "", " ", "\t", "\n"])
    K = lambda w: case_of(r, w)
    W = lambda w: qt(w, r)
    comma = lambda l: "".join((ow() + "," + ow() if i else "") + x for i, x in enumerate(l))
    fn = lambda c: case_of(r, c[0]) + (ow() + "(" + ow() + comma([W(a) for a in c[1:]]) + ow() + ")")
    cond = lambda c: (K("not") + ws() if c[0] else "") + W(c[1]) + (ow() + c[2] + ow() + W(c[3]) if c[2] else "")
    out = []
    for cl in m["order"]:
        v = q[cl]
        if cl == "select":
            t = K("select") + ws() + comma([("*" if i[0] == "*" else fn(i[1]) if i[0] == "call" else W(i[1])) + (ws() + K("as") + ws() + W(i[2]) if i[2] is not None else "") + (ws() + K("unit") + ws() + W(i[3]) if i[3] is not None else "") for i in v])
        elif cl == "aggregate": t = K("aggregate") + ws() + comma([fn(c) for c in v])
        elif cl == "group": t = K("group") + ws() + K("by") + ws() + comma([W(w) for w in v])
        elif cl == "where": t = K("where") + ws() + comma([cond(c) for c in v])
        elif cl == "let": t = K("let") + ws() + comma([W(l[0]) + ow() + "=" + ow() + fn(l[1]) + (ws() + K("if") + ws() + cond(l[2]) if l[2] is not None else "") for l in v])
        elif cl == "order": t = K("order") + ws() + K("by") + ws() + comma([W(o[0]) + (ws() + K(o[1]) if o[1] else "") for o in v])
        else:
            a = [W(x[1]) if x[0] in ("pos", "flag") else x[1] + "=" + W(x[2]) if r.random() < 0.5 else W(x[1] + "=" + x[2]) for x in v[1]]
            t = K("format") + ws() + case_of(r, v[0]) + (ow() + "(" + ow() + comma(a) + ow() + ")" if a else r.choice(["", "", "()"]))
        out.append(t)
    return (ow() if r.random() < 0.3 else "") + ws().join(out) + ow()

OPN = {(False, ""): "exist", (True, ""): "notexist", (False, "="): "eq", (True, "="): "ne", (False, "<"): "lt", (True, "<"): "ge", (False, ">"): "gt", (True, ">"): "le"}
def dcond(c): return "%s %s %s" % (OPN[(bool(c[0]), c[2])], enc(c[1]), enc(c[3] if c[2] else ""))
def dop(c): return " ".join(enc(x) for x in c)

def expected(m):
    """the spec dump of vdrv"""
    q, L = m["q"], []
    agg, sel, alias, unit = [], [], {}, {}
    star = False
    for cl in m["order"]:
        if cl == "aggregate": agg += q[cl]
        if cl == "select":
            for i in q[cl]:
                if i[0] == "*": star = True; continue
                n = i[1]
                if i[0] == "call": agg.append(i[1]); n = res_name(i[1])
                sel.append(n)
                if i[2] is not None: alias[n] = i[2]
                if i[3] is not None: unit[n] = i[3]
    L.append("aggsel %d" % (3 if agg else 1))
    L += ["agg " + dop(c) for c in agg]
    g = q.get("group")
    L.append("groupbysel %d path %d" % (3 if g else 0, int(bool(g) and any(x in ("path", "prop:nested") for x in g))))
    L += ["groupby " + enc(x) for x in (g or []) if x not in ("path", "prop:nested")]
    L.append("selectsel %d path %d" % (2 if star else 3 if sel else 0, int("path" in sel)))
    if not star: L += ["select " + enc(x) for x in sel if x not in ("path", "prop:nested")]
    w = q.get("where", [])
    L.append("filtersel %d" % (3 if w else 1))
    L += ["filter " + dcond(c) for c in w]
    o = q.get("order", [])
    L.append("sortsel %d" % (3 if o else 1))
    L += ["sort %d %s" % (2 if x[1] == "desc" else 1, enc(x[0])) for x in o]
    f = q.get("format")
    kw = {}
    if f:
        for i, a in enumerate(f[1]):
            if a[0] == "pos": kw[FMT[f[0]][i]] = a[1]
            elif a[0] == "flag": kw[a[1]] = "true"
            else: kw[a[1]] = a[2]
    L.append("format %d %s" % (1 if f else 0, enc(f[0]) if f else "") + "".join(" %s=%s" % (enc(k), enc(v)) for k, v in sorted(kw.items())))
    L += ["alias %s %s" % (enc(k), enc(v)) for k, v in sorted(alias.items(), key=lambda x: x[0].encode())]
    L += ["unit %s %s" % (enc(k), enc(v)) for k, v in sorted(unit.items(), key=lambda x: x[0].encode())]
    L += ["let %s %s | %s" % (enc(l[0]), dop(l[1]), dcond(l[2]) if l[2] is not None else "none  ") for l in q.get("let", [])]
    return star, L

BAD = ["unknown_clause", "unknown_clause_front", "unknown_agg", "unknown_sel", "unknown_let", "unknown_fmt", "args_agg", "args_sel", "args_let", "args_fmt", "unclosed", "where_operand", "where_not", "scale_text", "order_empty",
       "group_noby", "order_noby", "let_noeq", "let_dup", "as_empty", "junk", "unknown_kwarg"]
def bad_text(kind, base, r):
    q = render(base, r)
    j = (q + " ") if q else ""
    f = lambda t: {1: t, 2: t.upper()}[r.choice([1, 2])]
    bad = r.choice(["foo", "sum2", "counts", "Selekt", "totl"])
    if kind == "unknown_clause": return q + " " + bad if q.strip() else bad
    if kind == "unknown_clause_front": return bad + " " + q
    if kind == "unknown_agg": return j + "AGGREGATE " + bad + "(x)"
    if kind == "unknown_sel": return j + "SELECT " + bad + "(x)"
    if kind == "unknown_let": return j + "LET q=" + bad + "(x)"
    if kind == "unknown_fmt": return j + "FORMAT " + bad
    if kind in ("args_agg", "args_sel"):
        fn = r.choice(list(AGG)); lo, hi = AGG[fn]
        n = r.choice([k for k in range(6) if k < lo or k > hi])
        return j + ("AGGREGATE " if kind == "args_agg" else "SELECT ") + fn + "(" + ",".join(["1"] * n) + ")"
    if kind == "args_let":
        fn = r.choice(list(LET)); lo, hi = LET[fn]
        n = r.choice([k for k in range(11) if k < lo or k > hi])
        return j + "LET q=" + fn + "(" + ",".join(["1"] * n) + ")"
    if kind == "args_fmt": return j + "FORMAT " + r.choice(["cali(x)", "expand(a)", "format", "format()", "table(1,2,3)", "tree(a,2,3,4)", "json-split(a)", "json(a,b,c,d,e,f,g)"])
    if kind == "unclosed": return j + r.choice(["AGGREGATE sum(x", "SELECT sum(x, count()", "LET a=scale(b,2", "FORMAT format(x", "AGGREGATE sum(x GROUP BY y", "SELECT ratio(a,b WHERE c"])
    if kind == "where_operand": return j + "WHERE " + r.choice(["x=", "x<", "x >", "x=,y", "NOT x=", "a,x=", "x<,y"])
    if kind == "where_not": return j + "WHERE " + r.choice(["NOT", "a,NOT", "=3", "", ",a", "<2"])
    if kind == "scale_text":
        t = r.choice(["abc", "1x", "--2", "x1", "1,5".replace(",", "."), "one"])
        if t == "1.5": t = "1.5s"
        return j + r.choice(["AGGREGATE scale(x,%s)", "SELECT inclusive_scale(x,%s)", "AGGREGATE ratio(a,b,%s)", "SELECT scale_count(%s)", "LET q=scale(a,%s)", "LET q=truncate(a,%s)", "LET q=ratio(a,b,%s)"]) % t
    if kind == "order_empty": return j + "ORDER BY " + r.choice(["", ",a", "a,", "a desc,"])
    if kind == "group_noby": return j + "GROUP " + r.choice(["function", "x,y", ""])
    if kind == "order_noby": return j + "ORDER " + r.choice(["function", "x,y", ""])
    if kind == "let_noeq": return j + "LET " + r.choice(["x", "x scale(a,2)", "x,y=scale(a,2)", "x=scale(a,2),y"])
    if kind == "let_dup": return "LET x=scale(a,2), x=scale(b,3) " + (q if "let" not in base["q"] else "")
    if kind == "as_empty": return j + "SELECT " + r.choice(["a AS", "sum(x) as ,b", "a UNIT", "a AS b UNIT", "a AS , b"])
    if kind == "unknown_kwarg": return j + r.choice(["FORMAT table(foo=1)", "FORMAT json(bar=x)", "FORMAT tree(path=x)"])
    return q + " " + r.choice([")", "=", ";", "<", "(", ") " + q])

TOK = ["select", "SELECT", "where", "group by", "order by", "let", "format", "aggregate", "as", "unit", "not", "if", "asc", "desc", "(", ")", ",", "=", "<", ">", "*", ";", "\"", "\\", "sum", "count()", "sum(time)", "x", "function",
       "time", "1", "-1", "1e400", "scale(time,2)", "ratio(a,b)", "json", "table", "tree", "format(\"%[20]function%\")", "expand", "cali", "json-split", "'", "path", "prop:nested", "%", "\n", "\t", "\u00e4", "\x01", "format(\"%[99999999999999999999]a%\")",
       "table(column-width=3)", "table(-1)", "tree(column-width=0)", "json(object,pretty)", "truncate(a,0)", "a=ratio(time,count)", "b=first(time,x)", "c=leaf()", "inclusive_sum(time)", "variance(time)"]

FRAG = ["select *", "select function,count() group by function", "where x", "where not x=3", "where time>1e400", "where time<-1", "where a=", "order by time desc", "order by x asc,time", "format table", "format tree", "format json(object)", "format json(records,pretty)",
        "format json-split", "format expand", "format cali", "format format(\"%[8]function% %x%\")", "format format(\"%\")", "format format(\"%%\",t)", "format format(\"%[]a%\")", "format format(\"%[99999999999999999999]a%\")", "format format(\"%[-5]a%\")",
        "format table(column-width=3)", "format table(column-width=-1)", "format table(column-width=x)", "format tree(column-width=0)", "format tree(path-attributes=function)", "format tree(function,path-attributes=x)", "format tree(column-width=99999999999)",
        "aggregate sum(time),min(a),max(a),avg(time)", "aggregate percent_total(time)", "aggregate inclusive_sum(time) group by path", "aggregate variance(time),any(b)", "aggregate scale(time,0)", "aggregate scale(time,1e999)", "aggregate ratio(a,time)", "aggregate ratio(a,a,nan)",
        "let q=truncate(a,0)", "let q=truncate(time,0.0)", "let q=ratio(a,zero)", "let q=first(a,b,x)", "let q=leaf()", "let q=leaf(function)", "let a=scale(a,2)", "let q=sum(a,time,x),w=scale(q,3) if q", "let q=scale(b,2)", "let q=truncate(a,-3)", "let q=truncate(x,1e30)",
        "group by path", "group by prop:nested,x", "group by time", "select path,sum(time)", "select function as f unit g", "unit x", "aggregate count() as c", "group by x,,y", "select count(),count()", "format table(print-globals=true)"]

def exec_stream():
    A = {"function": ["string", NESTED, {}], "x": ["int", 0, {}], "time": ["double", ASVALUE, {}], "count": ["uint", ASVALUE, {}], "a": ["int", ASVALUE, {}], "b": ["string", ASVALUE, {}]}
    R = [[["R", [["function", "main"], ["x", 1], ["function", "foo"]]], ["I", "time", 2.5], ["I", "count", 2]], [["R", [["function", "main"]]], ["I", "time", -1.0], ["I", "a", 7]], [["I", "a", 0], ["I", "b", "txt"]], [["R", [["x", 3]]]]]
    return {"attrs": A, "recs": R, "globs": [], "fmt": 1}
STREAM = cali(exec_stream())

class C20(Check):
    id = "C20"
    rule = ("query texts derived from the grammar (all clauses in any order, random keyword case, white space, quoting and escaping of arbitrary words) compared field by field with the parsed query specification; "
            "texts with one injected mistake of 22 kinds that must be rejected with a message; and random token sequences, byte noise and mutated texts that must never crash or hang the parser and, when accepted, "
            "must execute and produce output without a crash; non-trivial: a derivation with at least two clauses, a rejected mistake, or an accepted noise text that was executed")
    assumptions = ["an attribute that is spelled like a keyword cannot be told from it", "an empty operand, and empty list elements in GROUP BY and argument lists, are left open"]
    quick, thorough = 48000, 900000

    def gen(self, r, i, tier):
        k = i % 5
        if k < 2: return dict(gen_model(r), kind="derive", fmt=r.randrange(1 << 30))
        if k == 2: return dict(gen_model(r), kind="reject", bad=r.choice(BAD), fmt=r.randrange(1 << 30))
        if k == 3 and r.random() < 0.7:
            parts = [render(gen_model(r), r) if r.random() < 0.4 else r.choice(FRAG) for _ in range(r.choice([1, 2, 3]))]
            if r.random() < 0.4: parts.insert(r.randrange(len(parts) + 1), r.choice(TOK))
            return {"kind": "noise", "text": r.choice([" ", "\n", "  "]).join(parts)}
        if k == 3:
            return {"kind": "noise", "text": "".join(r.choice(TOK) + r.choice([" ", " ", "", ","]) for _ in range(r.randrange(1, 25)))}
        t = render(gen_model(r), r)
        for _ in range(r.choice([1, 1, 2, 5, 20])):
            if not t: t = " "
            p = r.randrange(len(t))
            m = r.random()
            if m < 0.35: t = t[:p] + t[p + r.randrange(1, 4):]
            elif m < 0.7: t = t[:p] + r.choice(TOK + [chr(r.randrange(1, 256)), "\udcff"]) + t[p:]
            else: t = t[:p] + t[r.randrange(len(t)):]
        return {"kind": "noise", "text": t[:3000]}

    def run(self, ctx, case):
        d = ctx.drv()
        if case["kind"] == "noise":
            t = case["text"].replace("\0", "")
            o = d.req("parse", t)
            o2 = d.req("parse", t, "stream")
            if o != o2: raise Fail("the text %r parses differently from a string (%s) and from a stream (%s)" % (t, o, o2))
            if o[0] == "error":
                if not o[1]: raise Fail("rejected without a message: %r" % t)
                return dict(tags=["noise:rejected"], nontrivial=False, show=dict(text=t))
            e = d.req("exec", t, "1", STREAM)
            f = d.req("query", t, "", "1", STREAM)
            if e[0] != "ok" or f[0] != "ok": raise Fail("accepted text is not executed: %r %s" % (t, f[:2]))
            return dict(tags=["noise:executed"], nontrivial=True, show=dict(text=t, output=f[1][:300]))
        r = random.Random(case["fmt"])
        q = case["q"]
        case["order"] = [x for x in case["order"] if x in q]
        for cl, v in q.items():
            if not v: raise Invalid("empty clause")
        check_model(q)
        if case["kind"] == "reject":
            t = bad_text(case["bad"], case, r)
            o = d.req("parse", t)
            if o[0] != "error": raise Fail("malformed text (%s) is accepted: %r -> %s" % (case["bad"], t, o))
            if not o[1]: raise Fail("rejected without a message: %r" % t)
            f = d.req("query", t, "", "1", STREAM)
            if f[0] == "ok": raise Fail("malformed text is executed: %r" % t)
            return dict(tags=["reject:" + case["bad"]], nontrivial=True, show=dict(text=t, message=o[1]))
        t = render(case, r)
        star, exp = expected(case)
        for mode in ("", "stream"):
            o = d.req("parse", t, mode)
            if o[0] != "ok": raise Fail("well-formed text is rejected: %r: %s" % (t, o[1:]))
            got = [l for l in o[1].split("\n") if l and not (star and l.startswith("select "))]
            if got != exp:
                raise Fail("text %r: parsed as %s, expected %s" % (t, [g for g in got if g not in exp], [x for x in exp if x not in got]))
        return dict(tags=["derive:" + c for c in q], nontrivial=len(q) > 1, show=dict(text=t, spec=exp))

def check_model(q):
    def ok(*ws):
        if any(not w or w.lower() in KEYWORDS for w in ws): raise Invalid("word")
    def okcall(c, table, kind):
        if not c or c[0] not in table: raise Invalid("function")
        lo, hi = table[c[0]]
        if not lo <= len(c) - 1 <= hi or any(not x for x in c[1:]): raise Invalid("arguments")
        p = NUMARG.get((kind, c[0]))
        if p is not None and len(c) > p + 1 and num_text(c[p + 1]) is None: raise Invalid("number")
    for i in q.get("select", []):
        if i[0] == "attr" and i[1] != "path": ok(i[1])
        if i[0] == "call": okcall(i[1], AGG, "agg")
        if i[0] != "*": ok(*[x for x in i[2:] if x is not None])
    for c in q.get("aggregate", []): okcall(c, AGG, "agg")
    if sum(x in ("path", "prop:nested") for x in q.get("group", [])) > 1: raise Invalid("path twice")
    if sum(i[1] == "path" for i in q.get("select", [])) > 1: raise Invalid("path twice")
    ok(*[x for x in q.get("group", []) if x not in ("path", "prop:nested")])
    for c in q.get("where", []): ok(c[1], *([c[3]] if c[2] else []))
    seen = set()
    for l in q.get("let", []):
        ok(l[0]); okcall(l[1], LET, "let")
        if l[0] in seen: raise Invalid("twice")
        seen.add(l[0])
        if l[2] is not None: ok(l[2][1], *([l[2][3]] if l[2][2] else []))
    for o in q.get("order", []): ok(o[0])
    if "format" in q:
        f, args = q["format"]
        if f not in FMT or len(args) > len(FMT[f]) or (f == "format" and not args): raise Invalid("format")
        for a in args:
            if not all(a[1:]) : raise Invalid("format arg")
            if a[0] != "pos" and a[1] not in FMT[f]: raise Invalid("format arg")
            if a[0] == "pos" and (a[1] in FMT[f] or "=" in a[1]): raise Invalid("format arg")
CHECK = C20

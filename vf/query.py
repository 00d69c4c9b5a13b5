"""Reference model of the query pipeline (LET, WHERE, AGGREGATE/GROUP BY) over model records.

Records are in parse_rec form: [("R", ((name, (type, value)), ...root first)) | ("I", name, (type, value))].
A: attribute table {name: [type, props, {meta: value}]}
"""
import math, re
from .model import *

def qt(t, r=None):
    """CalQL word: quoted when needed (or at random)"""
    plain = t and t[0] != "*" and all(c.isalnum() or c in "_.#:/%+-[]{}*&^!?@$|~" for c in t) and t.isascii()
    if plain and (r is None or r.random() < 0.7): return t
    if r is not None and t and "\n" not in t and r.random() < 0.3: # backslash style
        return "".join(c if (c.isalnum() or c in "_.#") and c.isascii() else "\\" + c for c in t) if t.isascii() else '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'

class Undef(Exception): pass

def text_value(t, s):
    """operand text -> value of type t; None when the text clearly denotes none; Undef when that is open (e.g. "3x")"""
    if t == "string": return s
    if t in ("int", "uint"):
        if re.fullmatch(r"-?[0-9]+", s):
            x = int(s)
            if t == "int" and -2**63 <= x < 2**63 or t == "uint" and 0 <= x < 2**64: return x
            raise Undef
    elif t == "double":
        if re.fullmatch(r"-?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?", s): return float(s)
        if s.lower()[:3] in ("inf", "nan"): raise Undef
    elif t == "bool":
        if s.lower() in ("true", "t"): return True
        if s.lower() in ("false", "f"): return False
        if re.fullmatch(r"[0-9]{1,9}", s): return int(s) != 0
    elif t == "addr":
        if re.fullmatch(r"(0x)?[0-9a-f]{1,16}", s): return int(s, 16)
        if s[:1].lower() in "abcdef": raise Undef
    elif t == "type":
        return s if s in TYPE_ID else None
    if re.fullmatch(r"[A-Za-z_][A-Za-z_]*", s): return None
    raise Undef

def num_text(s):
    """text -> number, or None"""
    try: return text_value("double", s)
    except Undef: return None

def vals(rec, a):
    """all values of attribute a in the record"""
    return [v for n, v in flat(rec) if n == a]

def first_val(rec, a):
    """value of the first entry that has a; innermost on a path"""
    for e in rec:
        if e[0] == "I" and e[1] == a: return e[2]
        if e[0] == "R":
            for n, v in reversed(e[1]):
                if n == a: return v
    return None

def sort_key(v):
    t, x = v
    if t == "string": return x.encode("utf-8", "surrogateescape")
    if t == "type": return TYPE_ID[x]
    return x

def cond_ok(A, rec, c):
    try: return cond_ok_(A, rec, c)
    except Undef: return None

def cond_ok_(A, rec, c):
    """c = [negate, attr, op ('' '=' '<' '>'), text]; None when undefined (operand is no value of the type)"""
    neg, a, op, text = c
    have = vals(rec, a)
    if op == "": return (not have) if neg else bool(have)
    if a not in A: return neg and op == "="
    x = text_value(A[a][0], text)
    if op == "=":
        m = x is not None and any(sort_key(v) == sort_key((A[a][0], x)) for v in have)
        return not m if neg else m
    if x is None: return None
    k = sort_key((A[a][0], x))
    if op == "<": return any((sort_key(v) >= k) if neg else (sort_key(v) < k) for v in have)
    return any((sort_key(v) <= k) if neg else (sort_key(v) > k) for v in have)

def cond_text(c, r=None):
    neg, a, op, text = c
    sp = (lambda: r.choice(["", "", " ", "  ", "\t"])) if r else (lambda: "")
    kw = r.choice(["NOT", "not", "Not"]) if r else "NOT"
    return (kw + " " if neg else "") + qt(a, r) + (sp() + op + sp() + qt(text, r) if op else "")

def num(v):
    return float(v[1]) if v[0] == "double" else int(v[1])

# ------------------------------------------------------------------ LET

def let_apply(A, recs, lets):
    """lets: [[target, op, args, cond or None]] -> records with results; A is extended with the result attributes"""
    out = [list(r) for r in recs]
    restype = {}
    for rec in out:
        for tgt, op, args, cond in lets:
            if cond is not None:
                ok = cond_ok(A, rec, cond)
                if ok is None: return None
                if not ok: continue
            res = None
            if op == "ratio":
                a, b = first_val(rec, args[0]), first_val(rec, args[1])
                if a is None or b is None or num(b) == 0: continue
                res = ("double", (float(args[2]) if len(args) > 2 else 1.0) * (float(num(a)) / float(num(b))))
            elif op == "scale":
                a = first_val(rec, args[0])
                if a is None: continue
                res = ("double", float(args[1]) * float(num(a)))
            elif op == "truncate":
                a = first_val(rec, args[0])
                if a is None: continue
                f = float(args[1]) if len(args) > 1 else 1.0
                x = float(num(a)) - math.fmod(float(num(a)), f)
                res = (a[0], int(x)) if a[0] in ("int", "uint") else ("double", x)
            elif op == "first":
                for n in args:
                    res = first_val(rec, n)
                    if res is not None: break
                if res is None: continue
            elif op == "sum":
                vs = [v for v in (first_val(rec, n) for n in args) if v is not None]
                if not vs: continue
                res = (vs[0][0], sum(num(v) for v in vs))
            elif op == "leaf":
                for e in rec:
                    if args: res = first_val([e], args[0])
                    elif e[0] == "R": res = next((v for n, v in reversed(e[1]) if A[n][1] & NESTED), None)
                    if res is not None: break
                if res is None or (not args and res[0] != "string"): continue
            rec.append(("I", tgt, res))
            A.setdefault(tgt, [res[0], ASVALUE | SKIP_EVENTS, {}])
    return out

def let_text(lets, r=None):
    def one(l):
        tgt, op, args, cond = l
        return "%s=%s(%s)%s" % (qt(tgt, r), op if not r or r.random() < 0.7 else op.upper(), ",".join(qt(str(a), r) for a in args), " IF " + cond_text(cond, r) if cond is not None else "")
    return "LET " + ",".join(one(l) for l in lets)

# ------------------------------------------------------------------ aggregation

INCLUSIVE = ("inclusive_sum", "inclusive_scale", "inclusive_percent_total", "inclusive_ratio", "inclusive_min", "inclusive_max")

def op_text(o, r=None):
    return "%s(%s)" % (o[0] if not r or r.random() < 0.8 else o[0].upper(), ",".join(qt(str(a), r) for a in o[1:]))

def res_name(o):
    n = o[0]
    if n == "count": return "count"
    if n == "scale_count": return "scount"
    p = {"sum": "sum#", "ratio": "ratio#", "percent_total": "percent_total#", "inclusive_sum": "inclusive#", "min": "min#", "max": "max#", "avg": "avg#", "scale": "scale#",
         "inclusive_scale": "iscale#", "inclusive_percent_total": "ipercent_total#", "any": "any#", "inclusive_ratio": "iratio#", "inclusive_min": "imin#", "inclusive_max": "imax#", "variance": "variance#"}[n]
    return p + (o[1] if "ratio" not in n else o[1] + "/" + o[2])

def is_key(A, keys, a):
    return a in keys or any(m in keys for m in A[a][2])

def group(A, rec, keys, use_path, all_):
    """-> (nested path tuple, sorted other reference entries, sorted by-value entries)"""
    refs = [e[1] for e in rec if e[0] == "R"]
    path, other, imm = [], [], []
    for p in reversed(refs):
        for n, v in p:
            nested = bool(A[n][1] & NESTED)
            if all_ or (use_path and nested) or is_key(A, keys, n):
                (path if nested else other).append((n, v))
    for e in rec:
        if e[0] == "I" and is_key(A, keys, e[1]): imm.append((e[1], e[2]))
    return tuple(path), tuple(sorted(other, key=lambda x: (x[0],))), tuple(sorted(imm, key=repr))

def aggregate(A, recs, ops, keys, use_path, all_):
    """-> {key: {result name: (type, value) | ("any", [values])}}"""
    groups, order = {}, []
    def row(k):
        if k not in groups: groups[k] = {"n": 0, "own": {}, "inc": {}}
        return groups[k]
    total = {}
    for rec in recs:
        k = group(A, rec, keys, use_path, all_)
        g = row(k); g["n"] += 1
        for n, v in [(e[1], e[2]) for e in rec if e[0] == "I"]:
            g["own"].setdefault(n, []).append(v)
            g["inc"].setdefault(n, []).append(v)
            total.setdefault(n, []).append(v)
        imm = {e[1] for e in rec if e[0] == "I"}
        incl = set()
        for o in ops:
            if o[0] in INCLUSIVE: incl |= set(o[1:3] if o[0] == "inclusive_ratio" else o[1:2])
        if k[0] and incl & imm:
            for d in range(len(k[0]) - 1, 0, -1):
                p = row((k[0][:d], k[1], k[2]))
                for n, v in [(e[1], e[2]) for e in rec if e[0] == "I"]:
                    if n in incl: p["inc"].setdefault(n, []).append(v)
    out = {}
    for k, g in groups.items():
        r = {}
        for o in ops:
            name, op = res_name(o), o[0]
            src = g["inc"] if op in INCLUSIVE else g["own"]
            if op == "count":
                if g["n"]: r[name] = ("uint", g["n"])
            elif op == "scale_count":
                if g["n"]: r[name] = ("double", float(o[1]) * g["n"])
            elif "ratio" in op:
                a, b = src.get(o[1], []), src.get(o[2], [])
                if a and b:
                    x, y = float(sum(map(num, a))), float(sum(map(num, b)))
                    r[name] = ("double", (float(o[3]) if len(o) > 3 else 1.0) * x / y if y else None)
            else:
                xs = src.get(o[1], [])
                if not xs: continue
                t, ns = xs[0][0], None
                if op == "any": r[name] = ("any", list(xs)); continue
                ns = [num(v) for v in xs]
                if op in ("sum", "inclusive_sum"): r[name] = (t, sum(ns))
                elif op in ("min", "inclusive_min"): r[name] = (t, min(ns))
                elif op in ("max", "inclusive_max"): r[name] = (t, max(ns))
                elif op == "avg":
                    s = sum(ns)
                    r[name] = (t, s / len(ns) if t == "double" else (abs(s) // len(ns)) * (1 if s >= 0 else -1))
                elif op in ("scale", "inclusive_scale"): r[name] = ("double", float(o[2]) * float(sum(ns)))
                elif op in ("percent_total", "inclusive_percent_total"):
                    tot = float(sum(num(v) for v in total[o[1]]))
                    if tot > 0: r[name] = ("double", 100.0 * float(sum(ns)) / tot)
                elif op == "variance":
                    m = sum(map(float, ns)) / len(ns)
                    r[name] = ("double", sum(float(x) * float(x) for x in ns) / len(ns) - m * m)
        out[k] = r
    return out

def rows_of(A, dumps, ops, keys):
    """result records -> ({key: {result: value}}, problem or None)"""
    names = {res_name(o) for o in ops}
    out = {}
    for rec in dumps:
        path, other, imm, res = [], [], [], {}
        for e in rec:
            if e[0] == "R":
                for n, v in e[1]:
                    if n not in A: return out, "unknown attribute %r in a result row" % n
                    (path if A[n][1] & NESTED else other).append((n, v))
            elif e[0] == "I":
                if e[1] in names:
                    if e[1] in res: 
                        if res[e[1]] != e[2]: return out, "two values for %s in one row: %s" % (e[1], rec)
                    res[e[1]] = e[2]
                elif e[1] in A and is_key(A, keys, e[1]): imm.append((e[1], e[2]))
        k = (tuple(path), tuple(sorted(other, key=lambda x: (x[0],))), tuple(sorted(imm, key=repr)))
        if k in out: return out, "more than one row for key %s" % (k,)
        out[k] = res
    return out, None

def same_value(exp, got, rel):
    if exp[0] == "any": return any(val_eq(x, got, rel) for x in exp[1])
    if exp[1] is None: return got[0] == "double"
    if exp[0] != got[0]: return False
    if exp[0] == "double":
        x, y = exp[1], got[1]
        return x == y or abs(x - y) <= rel * max(abs(x), abs(y)) + 1e-9
    return exp[1] == got[1]

def compare_rows(exp, got, rel=1e-9):
    """-> None or a description of the difference"""
    for k in exp:
        if k not in got: return "no row for key %s (rows: %s)" % (k, list(got)[:6])
    for k in got:
        if k not in exp: return "unexpected row for key %s %s" % (k, got[k])
    for k in exp:
        e, g = exp[k], got[k]
        for n in e:
            if n not in g: return "row %s: %s is missing, expected %s" % (k, n, e[n])
            if not same_value(e[n], g[n], rel): return "row %s: %s is %s, expected %s" % (k, n, g[n], e[n])
        for n in g:
            if n not in e: return "row %s: unexpected %s=%s" % (k, n, g[n])
    return None

# ------------------------------------------------------------------ generators

OPVALS = ["0", "1", "-1", "2", "5", "10", "1.5", "-2.25", "true", "false", "foo", "main", "int", "double", "ff", "abc", "3x"]

def gen_cond(r, s, names, good=0.85):
    A = s["attrs"]
    a = r.choice(names) if r.random() < 0.95 else "no.such.attr"
    op = r.choice(["", "=", "=", "<", ">"])
    text = ""
    if op:
        t = A[a][0] if a in A else "string"
        pool = [v[1] for rec in s["recs"] for v in vals(model_rec(s, rec), a)] if a in A else []
        if pool and r.random() < 0.7: text = cali_text(t, r.choice(pool))
        elif r.random() < good: text = cali_text(t, gen_value(r, t, plain=r.random() < 0.5, small=r.random() < 0.7))
        else: text = r.choice(OPVALS)
        if text == "" : text = "x" if t == "string" else "1"
    return [r.random() < 0.3, a, op, text]

def run_query(d, mode, q, texts):
    """runs a query; -> records (parse_rec form). mode exec: records before formatting; cali: FORMAT cali output parsed"""
    from .engine import Fail
    if mode == "exec":
        o = d.req("exec", q, str(len(texts)), *texts)
        if o[0] != "ok": raise Fail("query rejected: %s: %s" % (q, o[1:]))
        if o[1]: raise Fail("reader error: " + o[1])
        return [parse_rec(x) for x in o[2:]]
    o = d.req("query", q + " FORMAT cali", "", str(len(texts)), *texts)
    if o[0] != "ok": raise Fail("query rejected: %s: %s" % (q, o[1:]))
    if o[2]: raise Fail("reader error: " + o[2])
    return [r for r in parse_cali(o[1])[1]]

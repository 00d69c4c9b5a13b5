"""C13: .cali data round-trips."""
import random, re
from vf.engine import Check, Fail
from vf import model as M
from vf.model import *

def norm(stream_attrs, rec):
    """drop values of hidden attributes (the reader does not keep them)"""
    def h(n): return n in stream_attrs and stream_attrs[n][1] & HIDDEN
    out = []
    for e in rec:
        if e[0] == "R": out.append(("R", tuple((n, ("hidden", None) if h(n) else v) for n, v in e[1])))
        elif e[0] == "I": out.append(("I", e[1], ("hidden", None) if h(e[1]) else e[2]))
        else: out.append(e)
    return out

def compare(what, s, recs, attrs, globs, rel=6e-6):
    exp = [norm(s["attrs"], model_rec(s, r)) for r in s["recs"]]
    got = [norm(s["attrs"], r) for r in recs]
    if len(exp) != len(got): raise Fail("%s: %d records, expected %d" % (what, len(got), len(exp)))
    for i, (a, b) in enumerate(zip(exp, got)):
        if not rec_eq(a, b, rel): raise Fail("%s: record %d is %s, expected %s" % (what, i, b, a))
    used = set()
    def use(n):
        if n in used: return
        used.add(n)
        for m in s["attrs"][n][2]: use(m)
    for r in s["recs"]:
        for e in r:
            for n in ([x[0] for x in e[1]] if e[0] == "R" else [e[1]]): use(n)
    for n, v in s.get("globs", []): use(n)
    for n in used:
        t, p, meta = s["attrs"][n]
        if n not in attrs: raise Fail("%s: attribute %r is missing" % (what, n))
        em = {m: (s["attrs"][m][0], v) for m, v in meta.items() if not s["attrs"][m][1] & HIDDEN}
        gm = {m: v for m, v in attrs[n][2].items() if not s["attrs"].get(m, ["", 0])[1] & HIDDEN}
        if (t, p) != attrs[n][:2] or em != gm: raise Fail("%s: attribute %r is %s, expected %s" % (what, n, attrs[n], (t, p, em)))
    eg = sorted(((n, (s["attrs"][n][0], v)) for n, v in s.get("globs", [])), key=repr)
    gg = sorted(flat(globs), key=repr)
    if len(eg) != len(gg) or any(a[0] != b[0] or not val_eq(a[1], b[1], rel) for a, b in zip(eg, gg)):
        raise Fail("%s: globals are %s, expected %s" % (what, gg, eg))

def parse_read(out):
    """response of the 'read' request -> err, attrs, globs, recs"""
    err = out[1]
    n = int(out[2])
    attrs = {}
    for a in out[3:3 + n]:
        name, t, p, meta = parse_attr(a)
        attrs[name] = (t, p, {m: v for m, v in meta})
    k = 3 + n
    g = int(out[k])
    globs = [parse_rec(x)[0] for x in out[k + 1:k + 1 + g]]
    return err, attrs, globs, [parse_rec(x) for x in out[k + 1 + g:]]

def write_script(s):
    L, ids, nodes = [], {}, {}
    def attr(n):
        if n in ids: return ids[n]
        t, p, meta = s["attrs"][n]
        ms = " ".join("%s %s" % (attr(m), drv_val(s["attrs"][m][0], v)) for m, v in meta.items())
        ids[n] = "a%d" % len(ids)
        L.append("attr %s %s %s %d %s" % (ids[n], enc(n), t, p, ms))
        return ids[n]
    def path(p):
        par, key = "-", ()
        for n, v in p:
            key = key + ((n, repr(v)),)
            if key not in nodes:
                a = attr(n)
                nodes[key] = "n%d" % len(nodes)
                L.append("node %s %s %s %s" % (nodes[key], a, drv_val(s["attrs"][n][0], v), par))
            par = nodes[key]
        return par
    for r in s["recs"]:
        es = []
        for e in r:
            if e[0] == "R": es.append(path(e[1]))
            else: es.append("%s=%s" % (attr(e[1]), drv_val(s["attrs"][e[1]][0], e[2])))
        L.append("rec " + " ".join(es))
    for n, v in s.get("globs", []):
        L.append("glob %s %s" % (attr(n), drv_val(s["attrs"][n][0], v)))
    L.append("wglob")
    return "\n".join(L) + "\n"

class C13(Check):
    id = "C13"
    rule = ("record streams with random attribute types, properties, metadata, nested and side paths, by-value entries and run globals, with special characters and extreme values; "
            "kinds: text written by the harness' own writer and read by CaliReader, records written by CaliWriter and read by the harness' own parser, read-write-read; "
            "non-trivial: at least 3 records or a value or name that needs escaping")
    assumptions = ["doubles are compared to the 6 significant digits .cali text carries", "USR and PTR values and values of hidden attributes are not part of the guarantee",
                   "control characters other than newline are outside the generated domain"]
    quick, thorough = 20000, 200000

    def gen(self, r, i, tier):
        kind = r.choice(["read", "write", "rewrite"])
        s = gen_stream(r, meta=True, hidden=r.random() < 0.3, nrec=r.choice([0, 1, 2, 3, 5, 8, 13, 30, 60]))
        if r.random() < 0.2:
            for rec in s["recs"]:
                for e in rec:
                    if e[0] == "I" and s["attrs"][e[1]][0] == "double": e[2] = r.uniform(-1e6, 1e6)
        return {"kind": kind, "s": s}

    def run(self, ctx, case):
        s, kind = case["s"], case["kind"]
        valid_stream(s)
        d = ctx.drv()
        text = cali(s)
        if kind == "read":
            err, attrs, globs, recs = parse_read(d.req("read", "1", text))
            if err: raise Fail("reader error on a valid stream: " + err)
            compare("read", s, recs, attrs, globs)
        else:
            if kind == "write": wt = d.req("write", write_script(s))[1]
            else:
                o = d.req("rewrite", "1", text)
                if o[2]: raise Fail("reader error on a valid stream: " + o[2])
                wt = o[1]
            ids = re.findall(r"^__rec=node,id=(\d+)", wt, re.M)
            if len(ids) != len(set(ids)): raise Fail("written stream defines a node more than once")
            if kind == "write" or not any(M.is_hidden(s, n) for n in s["attrs"]):
                attrs, recs, globs, prob = parse_cali(wt)
                if prob: raise Fail("written stream is not self-contained: %s" % prob[:3])
                compare("written text", s, recs, attrs, globs)
            err, attrs, globs, recs = parse_read(d.req("read", "1", wt))
            if err: raise Fail("reader error on written stream: " + err)
            compare("re-read", s, recs, attrs, globs)
        special = any(c in text for c in ("\\",)) or any(ord(c) > 127 for c in text)
        tags = [kind, "recs>3" if len(s["recs"]) > 3 else "recs<=3"] + (["special"] if special else []) + (["globals"] if s["globs"] else []) + (["meta"] if any(a[2] for a in s["attrs"].values()) else [])
        return dict(tags=tags, nontrivial=len(s["recs"]) >= 3 or special, show=text[:1500])
CHECK = C13

"""C24: the Python reader agrees with the C++ reader."""
import sys, os, io, tempfile, traceback
sys.dont_write_bytecode = True
from vf.engine import Check, Fail, Invalid
from vf.model import *
from checks.c13 import parse_read, write_script

def reader():
    p = os.environ.get("VF_REPO", "/repo") + "/python/caliper-reader"
    if p not in sys.path: sys.path.insert(0, p)
    import caliperreader
    return caliperreader

SCOPES = {12: "process", 20: "thread", 24: "task"}

class C24(Check):
    id = "C24"
    rule = ("record streams as in C13 (special characters, empty and blank-padded values, hidden attributes, attribute metadata, globals) as .cali text from the harness' own writer, from CaliWriter and from "
            "FORMAT cali queries, read by read_caliper_contents, CaliperReader and read_caliper_globals from files and streams; records, globals and attribute metadata are compared with what CaliReader "
            "reads from the same text; non-trivial: at least 3 records or a value that needs escaping")
    assumptions = ["values are compared as the text in the stream (doubles as numbers)", "attributes that occur in several references of one record are left open", "no attribute is named path",
                   "control characters other than newline are outside the generated domain"]
    quick, thorough = 12000, 300000

    def gen(self, r, i, tier):
        s = gen_stream(r, meta=True, hidden=r.random() < 0.3, nrec=r.choice([0, 1, 2, 3, 5, 8, 13, 30, 60]))
        return {"kind": r.choice(["own", "own", "write", "query"]), "s": s, "src": r.choice(["file", "stream", "reader"])}

    def run(self, ctx, case):
        s = case["s"]
        valid_stream(s)
        if "path" in s["attrs"]: raise Invalid("path")
        cr = reader()
        d = ctx.drv()
        text = cali(s)
        if case["kind"] == "write": text = d.req("write", write_script(s))[1]
        elif case["kind"] == "query":
            o = d.req("query", "SELECT * FORMAT cali", "", "1", text)
            if o[0] != "ok" or o[2]: raise Fail("query failed: %s" % o)
            text = o[1]
        err, attrs, globs, recs = parse_read(d.req("read", "1", text))
        if err: raise Fail("C++ reader error on a valid stream: " + err)
        if any(ord(c) < 32 and c != "\n" for c in text): raise Invalid("control character")
        try: text.encode("utf-8")
        except UnicodeEncodeError: raise Invalid("encoding")
        try:
            if case["src"] == "file":
                fd, fn = tempfile.mkstemp(suffix=".cali")
                with os.fdopen(fd, "w", encoding="utf-8", newline="") as f: f.write(text)
                try:
                    prec, pglob = cr.read_caliper_contents(fn)
                    pg2 = cr.read_caliper_globals(fn)
                finally: os.unlink(fn)
            else:
                prec, pglob = cr.read_caliper_contents(io.StringIO(text, newline="\n"))
                pg2 = cr.read_caliper_globals(io.StringIO(text, newline="\n"))
            R = cr.CaliperReader()
            R.read(io.StringIO(text, newline="\n"))
        except Exception as e:
            raise Fail("exception in the Python reader: %s" % traceback.format_exc()[-600:])
        if pg2 != pglob or R.globals != pglob or R.records != prec: raise Fail("read_caliper_contents, CaliperReader and read_caliper_globals differ")
        if len(prec) != len(recs): raise Fail("%d records, the C++ reader has %d" % (len(prec), len(recs)))
        for k, (a, b) in enumerate(zip(recs, prec)): self.cmp("record %d" % k, attrs, a, b)
        self.cmp("globals", attrs, [e for g in [globs] for e in g], pglob, False)
        # attribute metadata
        vis = {n for n, a in attrs.items() if not a[1] & HIDDEN}
        pa = set(R.attributes())
        used = {n for rec in recs for n, _ in flat(rec)} | {n for n, _ in flat(globs)}
        for n in used & vis:
            if n not in pa: raise Fail("attribute %r is missing" % n)
        if any(attrs[n][1] & HIDDEN for n in pa if n in attrs): raise Fail("hidden attribute listed: %s" % pa)
        for n in used & pa:
            t, p, meta = attrs[n]
            a = R.attribute(n)
            got = (a.name(), a.attribute_type(), a.is_nested(), a.is_value(), a.is_global(), a.is_hidden(), a.is_aggregatable(), a.scope())
            exp = (n, t, bool(p & NESTED), bool(p & ASVALUE), bool(p & GLOBAL), bool(p & HIDDEN), bool(p & 2048), SCOPES.get(p & 60, "UNKNOWN"))
            if got != exp: raise Fail("attribute %r is %s, expected %s" % (n, got, exp))
            md = a.metadata()
            for m, v in meta.items():
                if m.startswith("cali.attribute."): continue
                if m in attrs and attrs[m][1] & HIDDEN: continue
                if a.get(m) is None or not same(v, a.get(m)) or not same(v, md.get(m)): raise Fail("attribute %r: metadata %s is %r, expected %r" % (n, m, a.get(m), v))
        special = "\\" in text or any(ord(c) > 127 for c in text)
        return dict(tags=[case["kind"], case["src"]] + (["special"] if special else []) + (["globals"] if globs else []), nontrivial=len(recs) >= 3 or special, show=text[:1500])

    def cmp(self, what, attrs, rec, p, path=True):
        hidden = lambda n: n in attrs and attrs[n][1] & HIDDEN
        # expected: name -> list of values
        exp, seen, several = {}, {}, set()
        paths = []
        for k, e in enumerate(rec):
            here = {}
            if e[0] == "R":
                for n, v in e[1]:
                    if not hidden(n): here.setdefault(n, []).append(v)
                x = [v for n, v in e[1] if n in attrs and attrs[n][1] & NESTED and not hidden(n)]
                if x: paths.append(x)
            elif not hidden(e[1]): here[e[1]] = [e[2]]
            for n, l in here.items():
                if n in exp: several.add(n)
                exp[n] = l
        for n, l in exp.items():
            if n in several: continue
            if n not in p: raise Fail("%s: %r is missing, expected %s" % (what, n, l))
            got = p[n] if isinstance(p[n], list) else [p[n]]
            if (len(l) > 1) != isinstance(p[n], list) or len(got) != len(l) or not all(same(a, b) for a, b in zip(l, got)):
                raise Fail("%s: %r is %r, expected %s" % (what, n, p[n], l))
        if len(paths) == 1 and path:
            got = p.get("path")
            if not isinstance(got, list) or len(got) != len(paths[0]) or not all(same(a, b) for a, b in zip(paths[0], got)): raise Fail("%s: path is %r, expected %s" % (what, got, paths[0]))
        if not paths and "path" in p: raise Fail("%s: path is %r, expected none" % (what, p["path"]))
        extra = set(p) - set(exp) - {"path"}
        if extra: raise Fail("%s: has %s" % (what, extra))

def same(v, s):
    t, x = v
    if not isinstance(s, str): return False
    if t == "double":
        try: y = float(s)
        except ValueError: return False
        return x == y or x != x and y != y or abs(x - y) <= 1e-9 * abs(x)
    return cali_text(t, x) == s
CHECK = C24

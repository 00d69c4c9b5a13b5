"""C23: expanded, format-string and re-emitted .cali output shows every record correctly."""
from vf.engine import Check, Fail, Invalid
from vf.model import *
from vf.query import *
from vf.report import *
from checks.c22 import B

class C23(Check):
    id = "C23"
    rule = ("streams and queries with random selections, aliases, aggregations, written by the expand formatter (list of name=value, paths joined by slashes), by format strings with random literal text, field "
            "widths, titles and unknown attributes, and as .cali (parsed by an independent parser); the full text is compared with the query result; non-trivial: at least two records are shown")
    assumptions = ["the order of different attributes of one path in an expanded record is left open", "paths with empty values are outside the generated domain for format strings", "doubles in .cali have 6 significant digits",
                   "padding is limited to 80 blanks", "field text has no % and field names no brackets"]
    quick, thorough = 36000, 400000

    def gen(self, r, i, tier):
        c = gen_report(r, inf=True, ctrl=r.random() < 0.5, hidden=False, nrec=r.choice([0, 1, 2, 4, 8, 15, 30]))
        c["f"] = r.choice(["expand", "expand", "format", "format", "cali"])
        A = c["s"]["attrs"]
        if c["f"] == "format":
            pool = [a for a in A if not set(a) & set("%[]")] + [res_name(o) for o in c["ops"] if not set(res_name(o)) & set("%[]")] + (["no.such"] if r.random() < 0.1 else [])
            c["fields"] = []
            for k in range(r.choice([1, 1, 2, 3, 5])):
                if not pool: break
                c["fields"].append([r.choice(["", " ", " | ", "x=", ", ", "\u00e4: ", "\"", "[", "]", "\\", "a,b ", "'"]), r.choice(pool), r.choice([None, None, "0", "1", "4", "10", "20", "79", "80", "90", "200", "-3", "x", "007"])])
            c["tail"] = r.choice(["", "", " end", "]", "."])
            c["title"] = r.choice([None, None, "Title", "A  B", "t\"q", "", "a,b"])
        return c

    def run(self, ctx, case):
        check_report(case)
        A = case["s"]["attrs"]
        r = random.Random(case["fmt"])
        if "path" in A: raise Invalid("path")
        d = ctx.drv()
        text = cali(case["s"])
        q = report_query(case, r)
        recs = run_exec(d, q, [text])
        if any(v[1] != v[1] for rec in recs for _, v in flat(rec)): raise Invalid("nan")
        qf = q + " FORMAT "
        if case["f"] == "format":
            fs = ""
            for p, n, w in case["fields"]:
                if "%" in p or not n or set(n) & set("%[]") or (w is not None and set(w) & set("%[]")): raise Invalid("field")
                fs += p + "%" + ("[%s]" % w if w else "") + n + "%"
            if "%" in case["tail"] or not fs: raise Invalid("field")
            fs += case["tail"]
            a = "format=" + qt(fs, r)
            t = None if case["title"] is None else "title=" + qt(case["title"], r)
            l = [a] + ([t] if t else [])
            if r.random() < 0.3: l.reverse()
            qf += "format(" + ",".join(l) + ")"
        else: qf += case["f"]
        o = d.req("query", qf, "", "1", text)
        if o[0] != "ok": raise Fail("query rejected: %s: %s" % (qf, o[1:]))
        if o[2]: raise Fail("reader error: " + o[2])
        sel = Sel(case)
        f = {"expand": self.expand, "format": self.fmt, "cali": self.cali}[case["f"]]
        n = f(qf, case, sel, recs, o[1])
        tags = [case["f"]] + (["aggregated"] if case["ops"] else []) + (["select"] if not sel.all else []) + (["alias"] if sel.alias else [])
        return dict(tags=tags, nontrivial=n > 1, show=dict(query=qf, output=o[1][:800]))

    def expand(self, q, case, sel, recs, out):
        if sel.path and case["sel"] not in (None, "*"): raise Invalid("path selected")
        A = case["s"]["attrs"]
        shows = lambda n: sel.all or n in sel.names
        name = lambda n: sel.alias.get(n, n)
        out = B(out)
        pos, n = {0}, 0
        for rec in recs:
            groups = []
            for e in rec:
                if e[0] == "R":
                    by = {}
                    for m, v in e[1]:
                        if shows(m): by.setdefault(m, []).append(vtext(v))
                    if by: groups.append([B(name(m) + "=" + "/".join(l)) for m, l in by.items()])
                elif shows(e[1]): groups.append([B(name(e[1]) + "=" + vtext(e[2]))])
            if not groups: continue
            n += 1
            new = set()
            for p in pos:
                cur = {p}
                for gi, g in enumerate(groups):
                    cur = set().union(*(self.anyorder(out, c, g, gi == 0) for c in cur))
                new |= {c + 1 for c in cur if out[c:c + 1] == b"\n"}
            if not new: raise Fail("%s: record %d is not shown as %s at %r" % (q, n, groups, out[min(pos):min(pos) + 200]))
            pos = new
        if len(out) not in pos: raise Fail("%s: extra output %r" % (q, out[max(pos):][:200]))
        return n

    def anyorder(self, out, p, g, first):
        if not g: return {p}
        s, res = b"" if first else b",", set()
        for i, x in enumerate(g):
            if out.startswith(s + x, p): res |= self.anyorder(out, p + len(s) + len(x), g[:i] + g[i + 1:], False)
        return res

    def fmt(self, q, case, sel, recs, out):
        exp = b""
        if case["title"] is not None: exp += B(case["title"]) + b"\n"
        for rec in recs:
            l = b""
            for p, n, w in case["fields"]:
                val = b""
                for e in rec:
                    if e[0] == "R":
                        vs = [vtext(v) for m, v in e[1] if m == n]
                        if len(vs) > 1 and "" in vs: raise Invalid("empty value in a path")
                        val = B("/".join(vs))
                    elif e[1] == n: val = B(vtext(e[2]))
                    if val: break
                m = re.match(r"\s*([+-]?\d+)", w or "")
                w = max(0, int(m.group(1))) if m else 0
                l += B(p) + val + b" " * min(80, max(0, w - len(val)))
            exp += l + B(case["tail"]) + b"\n"
        if exp != B(out): raise Fail("%s: output is %r, expected %r" % (q, out[:1500], exp[:1500]))
        return len(recs)

    def cali(self, q, case, sel, recs, out):
        if any(isinstance(v[1], str) and any(ord(c) < 32 and c != "\n" for c in v[1]) for rec in recs for _, v in flat(rec)): raise Invalid("control character")
        # .cali records list references before by-value entries
        recs = [sorted(rec, key=lambda e: e[0] == "I") for rec in recs]
        attrs, got, globs, prob = parse_cali(out)
        if prob: raise Fail("%s: written stream is not self-contained: %s" % (q, prob[:3]))
        if len(got) != len(recs): raise Fail("%s: %d records, expected %d" % (q, len(got), len(recs)))
        for a, b in zip(recs, got):
            if not rec_eq(a, b, 6e-6): raise Fail("%s: record %s, expected %s" % (q, b, a))
        eg = sorted(((n, (case["s"]["attrs"][n][0], v)) for n, v in case["s"]["globs"]), key=repr)
        gg = sorted(flat(globs), key=repr)
        if len(eg) != len(gg) or any(a[0] != b[0] or not val_eq(a[1], b[1], 6e-6) for a, b in zip(eg, gg)): raise Fail("%s: globals are %s, expected %s" % (q, gg, eg))
        return len(recs)

import re, random
CHECK = C23

"""C22: table and tree reports show every record correctly."""
import re
from vf.engine import Check, Fail, Invalid
from vf.model import *
from vf.query import *
from vf.report import *

def B(s): return s.encode("utf-8", "surrogateescape")

def clamp(b, w):
    if len(b) <= w: return b
    if w < 4: return b[:w]
    return b[:w // 2 - 1] + b"~~" + b[len(b) - (w // 2 - 1):]
def padr(b, w): return b + b" " * max(1, 1 + w - len(b))
def padl(b, w): return b" " * (w - len(b)) + b + b" "

def text_key(t, b):
    """sort key of a printed value"""
    s = b.decode("utf-8", "surrogateescape")
    if t == "string": return (1, b)
    if s == "": return (0,)
    if t in ("int", "uint"): return (1, int(s))
    if t == "double": return (1, float(s))
    if t == "addr": return (1, int(s, 16))
    if t == "bool": return (1, s == "true")
    return (1, TYPE_ID[s])

def max_width(case, default):
    w = case["width"]
    if w is None: return default
    try: w = int(w)
    except ValueError: return 0
    return max(0, w)

class C22(Check):
    id = "C22"
    rule = ("streams and queries with random selections, aliases, alias metadata, aggregations, sort lists (several keys, ties, missing values, ascending and descending), column-width and print-globals arguments, written by the "
            "table and tree formatters (tree also with path-attributes); the full text is compared with an independent layout of the query result: header names, cells, alignment, shortening, row and sibling order, indentation; "
            "non-trivial: at least two rows are shown")
    assumptions = ["a later ORDER BY key is applied over an earlier one (stable sorts in list order), as the documented example shows", "values with line breaks are not laid out",
                   "rows that show no value at all are omitted", "a column of the tree report that never has a value is left open", "trailing blanks do not count"]
    quick, thorough = 36000, 400000

    def gen(self, r, i, tier):
        c = gen_report(r, order=True, inf=True, ctrl=False, nrec=r.choice([0, 1, 2, 4, 8, 15, 30]))
        A = c["s"]["attrs"]
        fix = lambda v: v.replace("\n", "_") if isinstance(v, str) else v
        for rec in c["s"]["recs"]:
            for e in rec:
                if e[0] == "I":
                    e[2] = fix(e[2])
                    if A[e[1]][0] == "double" and e[2] != e[2] and r.random() < 0.9: e[2] = 1.5
                else:
                    for nv in e[1]: nv[1] = fix(nv[1])
        for g in c["s"]["globs"]: g[1] = fix(g[1])
        c["f"] = r.choice(["table", "tree"])
        if c["f"] == "table": c["order"] = [o for o in c["order"] if o[0] not in A or A[o[0]][0] == "string" or A[o[0]][1] & ASVALUE]
        c["width"] = r.choice([None, None, None, "20", "8", "4", "5", "0", "-1", "bad", "100", "1"])
        c["globs"] = r.random() < 0.15
        c["pathattrs"] = None
        if c["f"] == "tree" and r.random() < 0.3:
            pool = [a for a in A if "," not in a and not A[a][1] & (HIDDEN | GLOBAL)]
            if pool: c["pathattrs"] = r.sample(pool, min(len(pool), r.choice([1, 1, 2]))) + (["path"] if r.random() < 0.1 else [])
        return c

    def run(self, ctx, case):
        check_report(case)
        A = case["s"]["attrs"]
        if "path" in A or case["f"] not in ("table", "tree"): raise Invalid("path")
        r = random.Random(case["fmt"])
        d = ctx.drv()
        text = cali(case["s"])
        recs = visible(case, run_exec(d, report_query(case, r), [text]))
        if any("\n" in vtext(v) for rec in recs for _, v in flat(rec)) or any("\n" in str(g[1]) for g in case["s"]["globs"]): raise Invalid("line break")
        types = {}
        for rec in recs:
            for n, v in flat(rec): types[n] = v[0]
        if any(v[1] != v[1] for rec in recs for _, v in flat(rec)): raise Invalid("nan")
        case = dict(case)
        if case["f"] == "tree" and case["sel"] not in (None, "*"):
            pred, have = self.pred(case, A), set()
            for rec in recs:
                p, dt = self.unpack(rec, pred)
                if p: have |= set(dt)
            case["sel"] = [i for i in case["sel"] if i[0] == "path" or i[0] in have] or None
            if case["sel"] and all(i[0] == "path" for i in case["sel"]): case["sel"] = None
        q = report_query(case, r)
        args = []
        if case["pathattrs"]: args.append("path-attributes=" + qt(",".join(case["pathattrs"])))
        if case["width"] is not None: args.append("column-width=" + case["width"])
        if case["globs"]: args.append("print-globals" + r.choice(["", "=true"]))
        qf = q + " FORMAT " + case["f"] + ("(" + ",".join(args) + ")" if args else "")
        o = d.req("query", qf, "", "1", text)
        if o[0] != "ok": raise Fail("query rejected: %s: %s" % (qf, o[1:]))
        sel = Sel(case)
        lines = [l.rstrip(b" ") for l in B(o[1]).split(b"\n")]
        if lines and not lines[-1]: lines.pop()
        if case["globs"]: lines = self.globals(qf, case, lines)
        n = (self.table if case["f"] == "table" else self.tree)(qf, case, sel, recs, types, lines)
        tags = [case["f"]] + (["aggregated"] if case["ops"] else []) + (["ordered%d" % min(2, len(case["order"]))] if case["order"] else []) + (["width"] if case["width"] is not None else []) + (["alias"] if sel.alias else []) + \
               (["path-attributes"] if case["pathattrs"] else []) + (["globals"] if case["globs"] else [])
        return dict(tags=tags, nontrivial=n > 1, show=dict(query=qf, output=o[1][:800]))

    def globals(self, q, case, lines):
        A = case["s"]["attrs"]
        exp = []
        for n, v in case["s"]["globs"]:
            t = A[n][0]
            if t == "double": v = float(fmt_double(v))
            exp.append((clamp(B(n), 24), vtext((t, v)), t))
        k = max(1, len(exp))
        head, rest = lines[:k], lines[k:]
        for n, v, t in exp:
            # the separator follows the padded key; text values may be shortened
            ok = any(l.startswith(n) and l[len(n):].lstrip(b" ").startswith(b": ") and (B(v) in l or len(v) > 52) or (v == "" and l.startswith(n) and l.endswith(b":")) or (v.strip() == "" and l.startswith(n)) or B(v).rstrip() in l and l.startswith(n) for l in head)
            if not ok: raise Fail("%s: no line for global %s=%s in %s" % (q, n, v, head))
        return rest

    def display(self, case, sel, n, auto):
        if n in sel.alias: return sel.alias[n]
        A = case["s"]["attrs"]
        if auto and n in A and "attribute.alias" in A[n][2]: return A[n][2]["attribute.alias"]
        return n

    def table(self, q, case, sel, recs, types, lines):
        A = case["s"]["attrs"]
        auto = case["sel"] in (None, "*")
        cols = [[o[0], None] for o in case["order"]]
        ns = len(cols)
        if not auto: cols += [[i[0], B(self.display(case, sel, i[0], False))] for i in case["sel"] if i[0] != "path"]
        seen = set()
        rows = []
        for rec in recs:
            if auto:
                for e in rec:
                    for n in ([n for n, _ in reversed(e[1])] if e[0] == "R" else [e[1]]):
                        if n not in seen and sel.shows(n):
                            seen.add(n)
                            cols.append([n, B(self.display(case, sel, n, True))])
            row = []
            for n, _ in cols:
                val = ""
                for e in rec:
                    if e[0] == "R":
                        l = [vtext(v) for m, v in e[1] if m == n]
                        if len(l) > 1 and "" in l: raise Invalid("empty value in a path")
                        if any(l): val = "/".join(l); break
                    elif e[1] == n: val = vtext(e[2]); break
                row.append(B(val))
            if any(row): rows.append(row)
        for k, o in enumerate(case["order"]):
            t = types.get(o[0])
            if t is None: continue
            try: rows.sort(key=lambda row: text_key(t, row[k]), reverse=o[1] == "desc")
            except ValueError: raise Invalid("joined numbers")
        mw = max_width(case, 60)
        exp, widths = [], []
        for c, (n, disp) in enumerate(cols):
            w = max([len(disp or b"")] + [len(row[c]) for row in rows if c < len(row)])
            widths.append(max(4, min(w, mw) if mw > 0 else w))
        exp.append(b"".join(padr(clamp(cols[c][1], widths[c]), widths[c]) for c in range(ns, len(cols))).rstrip(b" "))
        for row in rows:
            l = b""
            for c in range(ns, len(row)):
                s = clamp(row[c], widths[c])
                l += (padl if types.get(cols[c][0]) in ("int", "uint", "double") else padr)(s, widths[c])
            exp.append(l.rstrip(b" "))
        self.same(q, exp, lines)
        return len(rows)

    def same(self, q, exp, lines):
        exp, lines = list(exp), list(lines)
        while exp and not exp[-1]: exp.pop()
        while lines and not lines[-1]: lines.pop()
        for i in range(max(len(exp), len(lines))):
            if i >= len(exp) or i >= len(lines) or exp[i] != lines[i]:
                raise Fail("%s: line %d is %s, expected %s\n%s" % (q, i, lines[i:i + 1], exp[i:i + 1], b"\n".join(lines[:20]).decode("utf-8", "replace")))

    def pred(self, case, A):
        pa = case["pathattrs"]
        if not pa or pa == ["path"]: return lambda n: n in A and bool(A[n][1] & NESTED)
        return lambda n: n in pa

    def unpack(self, rec, pred):
        path, data = [], {}
        for e in rec:
            for n, v in (reversed(e[1]) if e[0] == "R" else [(e[1], e[2])]):
                if pred(n): path.append((n, v))
                else: data.setdefault(n, v)
        return tuple(reversed(path)), data

    def tree(self, q, case, sel, recs, types, lines):
        A = case["s"]["attrs"]
        pred = self.pred(case, A)
        class Node:
            def __init__(self, label): self.label, self.kids, self.recs = label, [], []
        root, info = Node(None), {}
        for rec in recs:
            path, data = self.unpack(rec, pred)
            if not path: continue
            n = root
            for p in path:
                for k in n.kids:
                    if k.label == p: n = k; break
                else:
                    k = Node(p); n.kids.append(k); n = k
            n.recs.append(data)
            for a, v in data.items():
                if a not in info: info[a] = [B(self.display(case, sel, a, True)), 0]; info[a][1] = len(info[a][0])
                info[a][1] = max(info[a][1], len(B(vtext(v))))
        def key(v): return (0,) if v is None else (1, sort_key(v))
        def extreme(n, a, f):
            vs = [x[a] for x in n.recs if a in x] + [y for y in (extreme(k, a, f) for k in n.kids) if y is not None]
            return f(vs, key=key) if vs else None
        def rank(n): return [key(extreme(n, a, max if o == "desc" else min)) for a, o in case["order"]]
        def before(n):
            """siblings in groups of equal rank: the last key is the primary one"""
            l = list(n.kids)
            for a, o in case["order"]:
                desc = o == "desc"
                for k in l:
                    have = sorted([x for x in k.recs if a in x], key=lambda x: key(x[a]), reverse=desc)
                    k.recs = have + [x for x in k.recs if a not in x]
                l.sort(key=lambda k: key(extreme(k, a, max if desc else min)), reverse=desc)
            groups = []
            for k in l:
                if groups and groups[-1][0] == rank(k): groups[-1][1].append(k)
                else: groups.append((rank(k), [k]))
            return [g for _, g in groups]
        mw = max_width(case, 48)
        W = lambda w: max(4, min(w, mw) if mw > 0 else w)
        def plen(n, level): return max([2 * level + len(B(vtext(n.label[1])))] + [plen(k, level + 1) for k in n.kids])
        pw = W(max([4] + [plen(k, 0) for k in root.kids]))
        auto = case["sel"] in (None, "*")
        if auto:
            left, cols = [a for a in info if sel.shows(a) or (a in A and A[a][1] & GLOBAL and case["sel"] == "*")], []
            h = lines[0] if lines else b""
            p = len(padr(clamp(b"Path", pw), pw))
            def order(p, left):
                if not left: yield []
                for a in left:
                    c = padr(clamp(info[a][0], W(info[a][1])), W(info[a][1]))
                    if h[p:p + len(c)] == c or h[p:] == c.rstrip(b" "):
                        for x in order(p + len(c), [b for b in left if b != a]): yield [a] + x
            orders = [o for o, _ in zip(order(p, left), range(120))]
            if not orders: raise Fail("%s: header %r does not show columns %s" % (q, h, left))
        else: orders = [[i[0] for i in case["sel"] if i[0] != "path"]]
        # columns with the same short header can come in any order
        err = None
        for cols in orders:
            try: return self.rows(q, case, root, before, cols, info, types, list(lines), pw, W)
            except Fail as e: err = err or e
        raise err

    def rows(self, q, case, root, before, cols, info, types, lines, pw, W):
        head = (padr(clamp(b"Path", pw), pw) + b"".join(padr(clamp(info[a][0], W(info[a][1])), W(info[a][1])) for a in cols)).rstrip(b" ")
        if (lines or [b""])[0] != head: raise Fail("%s: header %r, expected %r" % (q, lines[:1], head))
        self.far = (0, None)
        lines = lines + [None]
        total = [1]
        def block(n, level):
            cut = 2 * level >= pw
            ind = b" " * (pw - 2 if cut else 2 * level)
            out = [padr(ind + (b".." if cut else clamp(B(vtext(n.label[1])), pw - 2 * level)), pw)]
            for k, x in enumerate(n.recs):
                if len(n.recs) > 1: out.append(padr(ind + (b".." if cut else clamp(b" |-", pw - 2 * level)), pw))
                for a in cols:
                    w = W(info[a][1])
                    s = clamp(B(vtext(x[a])), w) if a in x else b""
                    out[-1] += (padl if types[a] in ("int", "uint", "double", "addr") else padr)(s, w)
            return [l.rstrip(b" ") for l in out]
        def forest(n, level, p):
            """all positions where a layout of n's children that starts at p can end; siblings with equal sort keys come in any order"""
            pos = {p}
            for g in before(n):
                pos = set().union(*(perms(g, level, q) for q in pos))
                if not pos: break
            return pos
        def perms(g, level, p):
            if not g: return {p}
            res = set()
            for k in g:
                for q in one(k, level, p): res |= perms([x for x in g if x is not k], level, q)
                if res: break
            return res
        memo = {}
        def one(k, level, p):
            b = memo.setdefault(id(k), None)
            if b is None:
                for _ in before(k): pass
                b = memo[id(k)] = block(k, level)
            for i, l in enumerate(b):
                if p + i >= len(lines) or lines[p + i] != l:
                    if p + i >= self.far[0]: self.far = (p + i, l)
                    return set()
            return forest(k, level + 1, p + len(b))
        def size(n): return sum(len(n.recs) * (len(n.recs) > 1) + 1 for n in [n]) + sum(map(size, n.kids))
        want = 1 + sum(map(size, root.kids))
        if want not in forest(root, 0, 1) or len([l for l in lines if l is not None]) < want or any(lines[want:-1]):
            raise Fail("%s: line %d is %r, expected e.g. %r\n%s" % (q, self.far[0], (lines + [None])[self.far[0]], self.far[1], b"\n".join(lines[:20 if len(lines) > 20 else -1]).decode("utf-8", "replace")))
        return want - 1
CHECK = C22

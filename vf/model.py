"""Record streams as plain data, .cali text generation and parsing, and record dumps.

stream = {"attrs": {name: [type, props, {meta: value}]}, "recs": [record], "globs": [[name, value]...], "fmt": int}
record = list of entries:  ["R", [[name, value], ...root first]]  or  ["I", name, value]
"""
import random, re
from .driver import dec, enc

ASVALUE, NOMERGE, PROCESS, THREAD, TASK = 1, 2, 12, 20, 24
SKIP_EVENTS, HIDDEN, NESTED, GLOBAL, UNALIGNED, AGGREGATABLE = 64, 128, 256, 512, 1024, 2048
TYPE_ID = {"usr": 0, "int": 1, "uint": 2, "string": 3, "addr": 4, "double": 5, "bool": 6, "type": 7, "ptr": 11}
TYPES = ["int", "uint", "string", "addr", "double", "bool", "type"]

# ------------------------------------------------------------------ values

def fmt_double(x):
    return "%g" % x

def cali_text(t, v):
    """unescaped .cali text of a value"""
    if t == "string": return v
    if t in ("int", "uint"): return str(v)
    if t == "double": return fmt_double(v)
    if t == "bool": return "true" if v else "false"
    if t == "addr": return "%x" % v
    if t == "type": return v
    raise ValueError(t)

def show_text(t, v):
    """text of a value as reports show it (Variant::to_string)"""
    if t == "double": return "%f" % v
    return cali_text(t, v)

def esc(s):
    return "".join({"\\": "\\\\", ",": "\\,", "=": "\\=", "\n": "\\n"}.get(c, c) for c in s)

def drv_val(t, v):
    if t == "string": return "s:" + enc(v)
    if t == "int": return "i:%d" % v
    if t == "uint": return "u:%d" % v
    if t == "double": return "d:" + repr(float(v))
    if t == "bool": return "b:1" if v else "b:0"
    if t == "addr": return "a:%x" % v
    if t == "type": return "t:" + v
    if t == "usr": return "U:" + enc(v)
    raise ValueError(t)

def parse_val(s):
    """driver value text -> (type, value)"""
    k, p = s[0], s[2:]
    if k == "i": return ("int", int(p))
    if k == "u": return ("uint", int(p))
    if k == "d": return ("double", float(p))
    if k == "b": return ("bool", p == "1")
    if k == "t": return ("type", p)
    if k == "a": return ("addr", int(p, 16))
    if k == "s": return ("string", dec(p))
    if k == "U": return ("usr", dec(p))
    if k == "x": return ("inv", None)
    return ("ptr", None)

def parse_rec(s):
    """driver record dump -> [("R", ((name, (type, val)), ...)) | ("I", name, (type, val)) | ("E",)]"""
    out = []
    for e in s.split(" "):
        if not e: continue
        if e == "E": out.append(("E",)); continue
        k, rest = e[0], e[2:]
        if k == "I":
            n, v = rest.split("=", 1)
            out.append(("I", dec(n), parse_val(v)))
        else:
            path = []
            for part in rest.split("/"):
                if not part: continue
                n, v = part.split("=", 1)
                path.append((dec(n), parse_val(v)))
            out.append(("R", tuple(path)))
    return out

def parse_attr(s):
    f = s.split(" ")
    meta = []
    for m in f[3:]:
        if m:
            n, v = m.split("=", 1)
            meta.append((dec(n), parse_val(v)))
    return dec(f[0]), f[1], int(f[2]), meta

def model_rec(stream, rec):
    """record of a stream in the form of parse_rec"""
    A = stream["attrs"]
    out = []
    for e in rec:
        if e[0] == "R": out.append(("R", tuple((n, (A[n][0], v)) for n, v in e[1])))
        else: out.append(("I", e[1], (A[e[1]][0], e[2])))
    return out

def is_hidden(stream, n): return bool(stream["attrs"][n][1] & HIDDEN)

# ------------------------------------------------------------------ .cali text

class Writer:
    """Writes a stream as .cali text with free choice of node ids, sharing and order."""
    def __init__(self, stream, vary=True, first_id=None):
        self.s, self.out = stream, []
        self.r = random.Random(stream.get("fmt", 0))
        self.vary = vary
        self.next = first_id if first_id is not None else (12 if not vary else self.r.choice([12, 12, 13, 40, 200]))
        self.ids = {}
        self.attr_ids = {}
        self.dup = vary and self.r.random() < 0.1

    def node(self, attr_id, text, parent, key, share=True):
        k = (parent, key)
        if k in self.ids and share and not (self.dup and self.r.random() < 0.3): return self.ids[k]
        i = self.next
        self.next += 1 if not self.vary else self.r.choice([1, 1, 1, 2, 5])
        self.ids[k] = i
        f = ["id=%d" % i, "attr=%d" % attr_id, "data=" + esc(text)]
        if parent is not None: f.append("parent=%d" % parent)
        if self.vary and self.r.random() < 0.1: 
            d = f.pop(2); self.r.shuffle(f); f.insert(self.r.randrange(len(f) + 1), d)
            if f[-1] == "data=": f.insert(0, f.pop())
        self.out.append("__rec=node," + ",".join(f))
        return i

    def attr(self, n):
        if n in self.attr_ids: return self.attr_ids[n]
        t, props, meta = self.s["attrs"][n]
        for m in meta: self.attr(m)
        p = TYPE_ID[t]
        for m, v in meta.items():
            p = self.node(self.attr(m), cali_text(self.s["attrs"][m][0], v), p, (m, repr(v)))
        p = self.node(10, str(props), p, ("prop", props))
        i = self.node(8, n, p, ("name", n))
        self.attr_ids[n] = i
        return i

    def path(self, path):
        p = None
        for n, v in path:
            p = self.node(self.attr(n), cali_text(self.s["attrs"][n][0], v), p, (n, repr(v)))
        return p

    def rec(self, rec, kind="ctx"):
        refs = [self.path(e[1]) for e in rec if e[0] == "R"]
        imm = [(self.attr(e[1]), esc(cali_text(self.s["attrs"][e[1]][0], e[2]))) for e in rec if e[0] == "I"]
        l = "__rec=" + kind
        if refs: l += ",ref=" + "=".join(map(str, refs))
        if imm: l += ",attr=" + "=".join(str(a) for a, _ in imm) + ",data=" + "=".join(t for _, t in imm)
        self.out.append(l)

    def text(self):
        if self.vary and self.r.random() < 0.2:
            for n in self.s["attrs"]: self.attr(n)
        for rec in self.s["recs"]: self.rec(rec)
        g = self.s.get("globs", [])
        if g:
            ref, imm, combine = [], [], []
            for n, v in g:
                if self.s["attrs"][n][1] & ASVALUE: imm.append(["I", n, v])
                elif self.vary and sum(x[0] == n for x in g) == 1 and self.r.random() < 0.3: ref.append(["R", [[n, v]]])
                else: combine.append([n, v])
            if combine: ref.append(["R", combine])
            self.rec(ref + imm, "globals")
        return "".join(l + "\n" for l in self.out)

def cali(stream, vary=True):
    return Writer(stream, vary).text()

# independent reader of .cali text (strict)
def _fields(line):
    out, cur, i, lst = [], "", 0, [""]
    key = None
    fields = []
    for part in _split(line, ","):
        vals = _split(part, "=")
        fields.append((vals[0], [_unesc(v) for v in vals[1:]]))
    return fields
def _split(s, sep):
    out, cur, i = [], [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s): cur.append(s[i:i + 2]); i += 2
        elif s[i] == sep: out.append("".join(cur)); cur = []; i += 1
        else: cur.append(s[i]); i += 1
    out.append("".join(cur))
    return out
def _unesc(s):
    return re.sub(r"\\(.)", lambda m: "\n" if m.group(1) == "n" else m.group(1), s, flags=re.S)

def conv(t, s):
    if t == "string": return s
    if t in ("int", "uint"): return int(s)
    if t == "double": return float(s)
    if t == "bool": return s in ("true", "1", "t")
    if t == "addr": return int(s, 16)
    return s

def parse_cali(text):
    """-> (attrs {name: (type, props, meta)}, recs, globs, problems) with records in parse_rec form"""
    nodes = {i: (9, t, None) for t, i in TYPE_ID.items()}
    nodes.update({8: (8, "cali.attribute.name", 3), 9: (8, "cali.attribute.type", 7), 10: (8, "cali.attribute.prop", 1)})
    recs, globs, prob = [], [], []
    cache = {}
    def attr(i):
        if i in cache: return cache[i]
        if i not in nodes or nodes[i][0] != 8: prob.append("node %s is not an attribute" % i); return ("!invalid", "inv", 0)
        name, t, props, p = nodes[i][1], None, 0, nodes[i][2]
        while p is not None:
            a, v, q = nodes[p]
            if a == 9: t = v
            elif a == 10: props = int(v)
            p = q
        cache[i] = (name, t, props)
        return cache[i]
    def path(i):
        out = []
        while i is not None:
            if i not in nodes: prob.append("unknown node %s" % i); break
            a, v, p = nodes[i]
            n, t, _ = attr(a)
            out.append((n, (t, conv(t, v)) if t not in ("usr", "ptr", "inv", None) else (t, v if t == "usr" else None)))
            i = p
        return tuple(reversed(out))
    def entries(f):
        e = [("R", path(int(i))) for i in f.get("ref", [])]
        a, d = f.get("attr", []), f.get("data", [])
        if len(a) != len(d): prob.append("attr/data mismatch")
        for x, y in zip(a, d):
            n, t, _ = attr(int(x))
            if y == "" and t not in ("string", "usr"): prob.append("empty value for attribute %s" % n); continue
            e.append(("I", n, (t, conv(t, y)) if t not in ("usr", "ptr", "inv", None) else (t, v if t == "usr" else None)))
        return e
    for line in text.split("\n"):
        if not line: continue
        fl = _fields(line)
        f = {k: v for k, v in fl}
        kind = f.pop("__rec", [""])[0]
        if kind == "node":
            i, a = int(f["id"][0]), int(f["attr"][0])
            p = int(f["parent"][0]) if "parent" in f else None
            if p is not None and p not in nodes: prob.append("parent %d of node %d not written before it" % (p, i))
            if a not in nodes: prob.append("attribute %d of node %d not written before it" % (a, i))
            if i in nodes and nodes[i] != (a, f["data"][0], p): prob.append("node %d redefined" % i)
            nodes[i] = (a, f["data"][0], p)
        elif kind == "ctx": recs.append(entries(f))
        elif kind == "globals": globs.extend(entries(f))
        else: prob.append("unknown record %r" % line[:40])
    attrs = {}
    for i, (a, v, p) in list(nodes.items()):
        if a == 8 and i > 11:
            n, t, props = attr(i)
            meta, q = {}, p
            while q is not None:
                if nodes[q][0] not in (8, 9, 10):
                    m, mt, _ = attr(nodes[q][0])
                    meta[m] = (mt, conv(mt, nodes[q][1]) if mt in TYPES and (nodes[q][1] or mt == "string") else None)
                q = nodes[q][2]
            attrs[n] = (t, props, meta)
    return attrs, recs, globs, prob

# ------------------------------------------------------------------ comparing

def val_eq(a, b, rel=0.0):
    if a[0] != b[0]: return False
    if a[0] == "double":
        x, y = a[1], b[1]
        if x == y: return True
        if x != x and y != y: return True
        return abs(x - y) <= rel * max(abs(x), abs(y))
    return a[1] == b[1]

def entry_eq(a, b, rel=0.0):
    if a[0] != b[0]: return False
    if a[0] == "E": return True
    if a[0] == "I": return a[1] == b[1] and val_eq(a[2], b[2], rel)
    return len(a[1]) == len(b[1]) and all(n == m and val_eq(v, w, rel) for (n, v), (m, w) in zip(a[1], b[1]))

def rec_eq(a, b, rel=0.0):
    return len(a) == len(b) and all(entry_eq(x, y, rel) for x, y in zip(a, b))

def flat(rec):
    """expanded view: list of (name, (type, value)), paths root first, all in record order"""
    out = []
    for e in rec:
        if e[0] == "R": out.extend(e[1])
        elif e[0] == "I": out.append((e[1], e[2]))
    return out

def key_entry(e):
    return repr(e)

# ------------------------------------------------------------------ generators

NAMES = ["function", "region", "loop", "phase", "annotation", "mpi.rank", "kernel", "a", "b", "time.duration", "sum#tme",
         "cnt", "x y", "att=r", "co,mma", "quo\"te", "back\\slash", "iteration#main loop", "Zeta", "n#1", "path.x", "_u", "1st", "d(e)f", "per%cent", "semi;colon"]
PLAIN = ["function", "region", "loop", "phase", "annotation", "rank", "kernel", "alpha", "beta", "time", "size", "bytes", "iter", "step", "level", "thread", "module", "file", "line", "addr"]
STRS = ["main", "foo", "bar", "foo bar", "a", "b", "x", "", "0", "1", "10", "9", "42", "-1", "1.5", "true", "main/foo", "a=b", "c,d", "back\\slash", "tail\\", "quo\"te",
        "new\nline", "{\"j\":1}", "[1]", "%s%d", "ünï", "日本", "very long value " + "x" * 60, "a|b", "'single'", "inf", "nan", "a\\nb", "__rec=ctx", "  lead", "trail ", "foo()", "std::vector<int>", "A", "Main"]
PSTRS = ["main", "foo", "bar", "baz", "init", "solve", "step", "finalize", "io", "comm", "aaa", "zzz", "m", "foo2", "main2", "Main"]

def gen_value(r, t, plain=False, small=False):
    if t == "string": return r.choice(PSTRS) if plain or r.random() < 0.5 else r.choice(STRS)
    if t == "int":
        if small or r.random() < 0.7: return r.randrange(-20, 21)
        return r.choice([2**31 - 1, -2**31, 2**31, -2**31 - 1, 2**32, 2**33 + 7, 2**53 + 1, 2**63 - 1, -2**63, 1000003, -4294967297])
    if t == "uint":
        if small or r.random() < 0.7: return r.randrange(0, 40)
        return r.choice([2**31, 2**32 - 1, 2**32, 2**53 + 1, 2**63, 2**64 - 1, 10**18])
    if t == "double":
        if small or r.random() < 0.7: return r.randrange(-80, 81) / 4.0
        return r.choice([0.001, 1e-9, -2.5e10, 123456.0, 1e100, -1e-300, 999999.0, 0.1, 3.14159])
    if t == "bool": return r.random() < 0.5
    if t == "addr": return r.choice([0, 1, 0xdeadbeef, 0x7fff12345678, 2**64 - 1, 16])
    if t == "type": return r.choice(TYPES)
    raise ValueError(t)

def gen_attrs(r, n=None, names=None, types=TYPES, meta=False, hidden=False, weird=True, plain=False):
    """attribute table: some nested strings, some reference attributes, some by-value ones"""
    n = n or r.randrange(2, 9)
    pool = list(names or (NAMES if weird and r.random() < 0.5 else PLAIN))
    r.shuffle(pool)
    A = {}
    for i, name in enumerate(pool[:n]):
        k = r.random()
        if i == 0 or k < 0.3: t, p = ("string" if r.random() < 0.85 else r.choice(types)), NESTED
        elif k < 0.5: t, p = r.choice(types), r.choice([0, 0, SKIP_EVENTS, UNALIGNED, PROCESS, THREAD])
        else: t, p = r.choice(["int", "uint", "double", "double", "int"] + list(types)), ASVALUE
        if r.random() < 0.2: p |= r.choice([SKIP_EVENTS, THREAD, AGGREGATABLE if p & ASVALUE else 0, 0x30000])
        if hidden and r.random() < 0.15 and i and not p & NESTED: p |= HIDDEN
        A[name] = [t, p, {}]
    if meta and r.random() < 0.5:
        ms = [n for n in A]
        for n in list(A):
            if r.random() < 0.3:
                m = r.choice(["attribute.unit", "attribute.alias", "class.x", "meta.i"])
                if m not in A: A[m] = ["int" if m == "meta.i" else "string", SKIP_EVENTS, {}]
                if m != n and not (A[m][1] & HIDDEN) and not A[m][2]:
                    A[n] = [A[n][0], A[n][1], {m: r.randrange(5) if A[m][0] == "int" else ("U " + n[:3] if m == "attribute.alias" else r.choice(["sec", "bytes", "q\"u"]))}]
    return A

def gen_paths(r, A, names, n, plain=False, depth=5, small=False):
    out = []
    for _ in range(n):
        if out and r.random() < 0.6: p = list(r.choice(out))[:r.randrange(0, depth)]
        else: p = []
        for _ in range(r.randrange(1, 3)):
            a = r.choice(names)
            p = p + [[a, gen_value(r, A[a][0], plain, small)]]
        out.append(p[:depth + 2])
    return out

def gen_recs(r, A, n, plain=False, small=False, maxref=3, dup_imm=False, depth=5, values=None):
    ref = [a for a in A if not A[a][1] & (ASVALUE | GLOBAL)]
    nest = [a for a in ref if A[a][1] & NESTED]
    other = [a for a in ref if not A[a][1] & NESTED]
    imm = [a for a in A if A[a][1] & ASVALUE and not A[a][1] & GLOBAL]
    npath = max(1, n // r.choice([1, 2, 4, 8]))
    main = gen_paths(r, A, nest + (other if r.random() < 0.3 else []) or ref, npath, plain, depth, small) if ref else []
    side = gen_paths(r, A, other, max(1, npath // 2), plain, 2, small) if other else []
    recs = []
    for _ in range(n):
        rec = []
        if main and r.random() < 0.9: rec.append(["R", r.choice(main)])
        if side and maxref > 1 and r.random() < 0.35: rec.append(["R", r.choice(side)])
        for a in imm:
            if r.random() < 0.6: rec.append(["I", a, gen_value(r, A[a][0], plain, small)])
        if rec: recs.append(rec)
    return recs

def gen_stream(r, nrec=None, meta=False, hidden=False, weird=True, globs=True, plain=False, small=False, types=TYPES, attrs=None, depth=5):
    A = attrs or gen_attrs(r, types=types, meta=meta, hidden=hidden, weird=weird)
    n = nrec if nrec is not None else r.choice([0, 1, 2, 3, 5, 8, 13, 20, 40])
    recs = gen_recs(r, A, n, plain=plain, small=small, depth=depth)
    G = []
    if globs and r.random() < 0.6:
        for k in range(r.randrange(1, 4)):
            name = r.choice(["cali.caliper.version", "executable", "nodes", "problem size", "mpi.world.size", "g.x"]) 
            if name in A: continue
            t = r.choice(["string", "int", "double", "uint", "string"])
            A[name] = [t, GLOBAL | PROCESS | SKIP_EVENTS | UNALIGNED | (ASVALUE if r.random() < 0.4 else 0), {}]
            G.append([name, gen_value(r, t, plain)])
    return {"attrs": A, "recs": recs, "globs": G, "fmt": r.randrange(1 << 30)}

def valid_stream(s):
    """structural validity (used after shrinking)"""
    from .engine import Invalid
    try:
        for n, (t, p, m) in s["attrs"].items():
            if t not in TYPES or not n: raise Invalid("attr")
            for x in m:
                if x not in s["attrs"] or s["attrs"][x][2]: raise Invalid("meta")
        for rec in s["recs"]:
            if not rec: raise Invalid("empty record")
            seen_i = False
            for e in rec:
                if e[0] == "R":
                    if seen_i or not e[1]: raise Invalid("ref order")
                    for n, v in e[1]:
                        if s["attrs"][n][1] & ASVALUE: raise Invalid("asvalue in path")
                        check_val(s["attrs"][n][0], v)
                elif e[0] == "I":
                    seen_i = True
                    if not s["attrs"][e[1]][1] & ASVALUE: raise Invalid("imm")
                    check_val(s["attrs"][e[1]][0], e[2])
                else: raise Invalid("kind")
        for n, v in s.get("globs", []):
            check_val(s["attrs"][n][0], v)
            if not s["attrs"][n][1] & GLOBAL: raise Invalid("glob")
    except (KeyError, IndexError, TypeError, ValueError) as e:
        raise Invalid(repr(e))

def check_val(t, v):
    from .engine import Invalid
    ok = {"string": isinstance(v, str), "int": isinstance(v, int) and not isinstance(v, bool) and -2**63 <= v < 2**63,
          "uint": isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 2**64, "double": isinstance(v, (int, float)) and not isinstance(v, bool),
          "bool": isinstance(v, bool), "addr": isinstance(v, int) and 0 <= v < 2**64, "type": v in TYPES}[t]
    if not ok: raise Invalid("value")

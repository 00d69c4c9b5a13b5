"""C27: values compare, convert, print and pack consistently."""
import math, struct, random
from vf.engine import Check, Fail, Invalid
from vf.model import *
from vf.driver import enc, dec

CODE = {"inv": 0, "usr": 1, "int": 2, "uint": 3, "string": 4, "addr": 5, "double": 6, "bool": 7, "type": 8, "ptr": 9}
TNAMES = ["usr", "int", "uint", "string", "addr", "double", "bool", "type", "ptr"]
INTS = [0, 1, -1, 2, 9, 10, 127, 128, 255, 256, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**32 - 1, 2**53, 2**53 + 1, 2**62, 2**63 - 1, -2**63, -2**63 + 1, 42, 1000000007]
UINTS = [0, 1, 2, 9, 10, 127, 128, 255, 16383, 16384, 2**31, 2**32, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 2, 42, 3000000000]
DBLS = [0.0, 1.0, -1.0, 0.5, -0.5, 1e-5, 1e300, -1e300, 5e-324, 2.0**31, -2.0**31 - 0.5, 2.0**63, -2.0**63, 2.0**64, 1.5e10, math.inf, -math.inf, 2147483647.5, -0.9, 1e15, 0.1, 123456.789, 9.007199254740993e15, -1e19]
SS = ["", "a", "b", "ab", "aa", "aba", "abb", "a b", "b" * 300, "axa", "aya", "aaya", "axya", "true", "false", "1", "-1", "0", "int", "string", "\u00e4", "\u65e5\u672c", "\x7f", "A", "a\n", "Zoo", "zoo", "0x10", "a" * 40 + "b" + "a" * 40, "a" * 40 + "c" + "a" * 40]
PROPS = [1, 2, 64, 128, 256, 512, 1024, 2048]

def gen_val(r):
    t = r.choice(["int", "uint", "double", "bool", "type", "addr", "string", "usr", "inv", "int", "uint", "double", "string"])
    if t == "int": return [t, r.choice(INTS) if r.random() < 0.7 else r.randrange(-2**63, 2**63) >> r.randrange(64)]
    if t in ("uint", "addr"): return [t, r.choice(UINTS) if r.random() < 0.7 else r.randrange(2**64) >> r.randrange(64)]
    if t == "double": return [t, r.choice(DBLS) if r.random() < 0.6 else r.uniform(-1, 1) * 10.0 ** r.randrange(-20, 20)]
    if t == "bool": return [t, r.random() < 0.5]
    if t == "type": return [t, r.choice(TNAMES)]
    if t == "string": return [t, r.choice(SS) if r.random() < 0.7 else "".join(r.choice("abz ,=\\\u00e4\u65e5") for _ in range(r.randrange(1, 30)))]
    if t == "usr": return [t, "".join(chr(r.choice([0, 1, 65, 127])) for _ in range(r.randrange(0, 6)))]
    return [t, None]

def text(v, r):
    """driver text; same value through a random constructor"""
    t, x = v
    if t == "inv": return "x:"
    if t == "usr": return "U:" + enc(x)
    if t == "string": return r.choice("sSV") + ":" + enc(x)
    if t == "int": return r.choice("iIN" if -2**31 <= x < 2**31 else "iI") + ":%d" % x
    if t == "uint": return r.choice("uWM") + ":%d" % x
    if t == "double": return r.choice("dD") + ":" + repr(x)
    if t == "bool": return r.choice("bB") + ":%d" % x
    if t == "type": return r.choice("tT") + ":" + x
    if t == "addr": return "a:%x" % x

def order(v):
    t, x = v
    if t in ("string", "usr"): return x.encode("utf-8")
    if t == "type": return CODE[x]
    return x

def bad_double(v): return v[0] == "double" and (v[1] != v[1] or (v[1] == 0 and math.copysign(1, v[1]) < 0))

class C27(Check):
    id = "C27"
    rule = ("lists of 2-12 values of every type (extremes, near-equal strings, every power of two), each built through a random constructor: equality and order of all pairs and triples, conversions, printing, parsing "
            "and packing of each, sums, minima, maxima and quotients of all pairs, against exact arithmetic; texts parsed as every type; property and type names; non-trivial: at least one pair of equal values and one of "
            "the same type with different values")
    assumptions = ["NaN and negative zero are not compared", "pointers are not generated", "strings have no NUL characters", "numeric text beyond the 64-bit range saturates", "sums are only formed in range"]
    quick, thorough = 30000, 1000000

    def gen(self, r, i, tier):
        vs = [gen_val(r) for _ in range(r.randrange(2, 9))]
        for v in list(vs):
            if r.random() < 0.4: vs.append(list(v))
            if r.random() < 0.3 and v[0] == "string" and v[1]:
                k = r.randrange(len(v[1])); vs.append(["string", v[1][:k] + r.choice("abz") + v[1][k + 1:]])
            if r.random() < 0.3 and v[0] in ("int", "uint") and 0 < v[1] < 2**62: vs.append([v[0], v[1] + r.choice([1, -1])])
            if r.random() < 0.2 and v[0] in ("int", "uint", "addr") and 0 <= v[1] < 2**63: vs.append([r.choice(["int", "uint", "addr"]), v[1]])
        r.shuffle(vs)
        txt = [[r.choice(["int", "uint", "double", "bool", "addr", "type", "string"]), self.gen_text(r)] for _ in range(r.randrange(0, 6))]
        p = sum(r.sample(PROPS, r.randrange(0, 6))) + r.choice([0, 12, 20, 24])
        return {"v": vs[:12], "txt": txt, "prop": p, "level": r.randrange(8), "len": r.choice([0, 1, 3, 7, 8, 9, 20, 40, 41, 60, 100]), "fmt": r.randrange(1 << 30)}

    def gen_text(self, r):
        if r.random() < 0.4: return str(r.choice(INTS + UINTS))
        if r.random() < 0.3: return r.choice(["", "x", "abc", "-", "true", "TRUE", "False", "t", "f", "T", "F", "yes", "no", "int", "string", "ptr", "invalid", "uint64", "0", "1", "-1", "ff", "FF", "0x1f", "18446744073709551616", "99999999999999999999999", "ffffffffffffffff", "1ffffffffffffffff"])
        return repr(r.choice(DBLS))

    def run(self, ctx, case):
        vs = [tuple(v) for v in case["v"]]
        if any(bad_double(v) for v in vs) or not vs: raise Invalid("value")
        if any(v[0] == "string" and "\0" in v[1] for v in vs): raise Invalid("NUL")
        r = random.Random(case["fmt"])
        d = ctx.drv()
        o = d.req("variants", *[text(v, r) for v in vs])
        if o[0] != "ok": raise Fail(str(o))
        info, eq, cmp_, ar = [x.strip("\n").split("\n") for x in o[1:5]]
        for v, l in zip(vs, info): self.one(v, l)
        n = len(vs)
        E = [l.split() for l in eq]; C = [l.split() for l in cmp_]
        key = lambda v: (v[0], order(v) if v[0] != "inv" else 0)
        for i in range(n):
            for j in range(n):
                a, b = vs[i], vs[j]
                if E[i][j] != str(int(key(a) == key(b))): raise Fail("%s == %s is %s" % (a, b, E[i][j]))
                c = C[i][j]
                if "!" in c: raise Fail("%s <,> %s disagrees with compare" % (a, b))
                c = int(c)
                if c != -int(C[j][i]): raise Fail("order of %s and %s is not antisymmetric" % (a, b))
                if (c == 0) != (key(a) == key(b)): raise Fail("compare(%s, %s) is %d, equality disagrees" % (a, b, c))
                if a[0] == b[0] and a[0] != "inv":
                    x, y = order(a), order(b)
                    if c != (x > y) - (x < y): raise Fail("compare(%s, %s) is %d" % (a, b, c))
                for k in range(n):
                    if c <= 0 and int(C[j][k]) <= 0 and int(C[i][k]) > 0: raise Fail("order is not transitive: %s, %s, %s" % (a, b, vs[k]))
        for i, l in enumerate(ar):
            for j, f in enumerate(l.split()): self.arith(vs[i], vs[j], [parse_val(x) for x in f.split(";")])
        self.parse(d, case, vs)
        self.names(d, case, vs, r)
        same = any(key(vs[i]) == key(vs[j]) for i in range(n) for j in range(i))
        diff = any(vs[i][0] == vs[j][0] and key(vs[i]) != key(vs[j]) for i in range(n) for j in range(i))
        return dict(tags=sorted({v[0] for v in vs}) + ["texts%d" % min(2, len(case["txt"]))], nontrivial=same and diff, show=dict(values=[text(v, r) for v in vs], texts=case["txt"]))

    def one(self, v, l):
        f = l.split(" ")
        t, x = v
        got = parse_val(f[0])
        if got != (t, x): raise Fail("value %s reads as %s" % (v, got))
        if t != "usr":
            exp = "" if t == "inv" else show_text(t, x)
            if t == "double" and not math.isinf(x): exp = "%f" % x
            if dec(f[1]) != exp: raise Fail("%s prints as %r, expected %r" % (v, dec(f[1]), exp))
        def conv(k):
            ok, val = f[k].split(":")
            return ok == "1", val
        num = {"int": x, "uint": x, "addr": x, "bool": int(x) if t == "bool" else 0, "type": CODE.get(x) if t == "type" else 0}.get(t)
        if t == "double": num = int(x) if not math.isinf(x) else 2**200
        for k, name, lo, hi in ((2, "int", -2**31, 2**31 - 1), (3, "int64", -2**63, 2**63 - 1), (4, "uint", 0, 2**64 - 1)):
            ok, val = conv(k)
            e = num is not None and lo <= num <= hi
            if ok != e: raise Fail("%s to %s: success is %s" % (v, name, ok))
            if int(val) != (num if e else 0): raise Fail("%s to %s is %s" % (v, name, val))
        ok, val = conv(5)
        if ok != (num is not None) or (ok and float(val) != (x if t == "double" else float(num))): raise Fail("%s to double is %s %s" % (v, ok, val))
        ok, val = conv(6)
        e = t in ("int", "uint", "addr", "bool")
        if ok != e or (val == "1") != (e and num != 0): raise Fail("%s to bool is %s %s" % (v, ok, val))
        ok, val = conv(7)
        if ok != (t == "type") or val != (x if t == "type" else "inv"): raise Fail("%s to type is %s %s" % (v, ok, val))
        # pack
        n, inc, pok, same, tail, ty = f[9:15]
        if not (1 <= int(n) <= 20 and inc == n and pok == "1" and same == "1" and tail == "1" and ty == "1"): raise Fail("%s is not the same after packing: %s" % (v, l))
        if (f[15] == "1") != (t == "inv") or f[16] != (t if t != "inv" else "inv"): raise Fail("%s: empty/type is %s %s" % (v, f[15], f[16]))
        size = {"inv": 0, "int": 8, "uint": 8, "addr": 8, "double": 8, "bool": 1, "type": 4}.get(t)
        if size is None: size = len(x.encode("utf-8"))
        if int(f[17]) != size: raise Fail("%s has size %s" % (v, f[17]))

    def arith(self, a, b, res):
        s, mi, ma, umi, uma, us = res
        A, Bt = a[0], b[0]
        def eqv(g, e, what):
            if g[0] != e[0] or g[1] != e[1] and not (g[0] == "double" and g[1] != g[1] and e[1] != e[1]): raise Fail("%s of %s and %s is %s, expected %s" % (what, a, b, g, e))
        if A == "inv":
            for g, w in ((s, "sum"), (mi, "minimum"), (ma, "maximum"), (umi, "running minimum"), (uma, "running maximum"), (us, "running sum")): eqv(g, b, w)
            return
        if A not in ("int", "uint", "double"):
            for g, w in ((s, "sum"), (mi, "minimum"), (ma, "maximum")): eqv(g, a, w)
            return
        if A == Bt:
            x, y = a[1], b[1]
            if A == "double": sm = x + y
            else:
                sm = x + y
                lo, hi = (-2**63, 2**63 - 1) if A == "int" else (0, 2**64 - 1)
                if not lo <= sm <= hi: sm = None
            for g, w in ((mi, "minimum"), (umi, "running minimum")):
                if w == "minimum" or sm is not None: eqv(g, (A, min(x, y)), w)
            for g, w in ((ma, "maximum"), (uma, "running maximum")):
                if w == "maximum" or sm is not None: eqv(g, (A, max(x, y)), w)
            if sm is not None:
                eqv(s, (A, sm), "sum"); eqv(us, (A, sm), "running sum")
            return
        # mixed numeric types: in range only
        if Bt in ("int", "uint", "double", "addr") and not (Bt == "double" and (math.isinf(b[1]) or b[1] != int(b[1]) or A != "double")):
            y = b[1]
            if A == "double": y = float(y)
            elif not ((-2**63 <= y < 2**63) if A == "int" else (0 <= y < 2**64)): return
            eqv(mi, (A, min(a[1], y)), "minimum"); eqv(ma, (A, max(a[1], y)), "maximum")

    def parse(self, d, case, vs):
        # printed values parse back
        byt = {}
        for v in vs:
            if v[0] in ("int", "uint", "bool", "type", "string", "addr"): byt.setdefault(v[0], []).append((show_text(*v), v))
            if v[0] == "double": byt.setdefault("double", []).append((repr(v[1]), v))
        for t, x in case["txt"]:
            if "\0" in x: raise Invalid("NUL")
            e = self.expect(t, x)
            if e is not None: byt.setdefault(t, []).append((x, e))
        for t, l in byt.items():
            o = d.req("fromstr", t, *[x for x, _ in l])
            for g, (x, e) in zip(o[1:], l):
                g = parse_val(g)
                if g != tuple(e): raise Fail("%r parsed as %s is %s, expected %s" % (x, t, g, e))

    def expect(self, t, x):
        inv = ("inv", None)
        if t == "string": return ("string", x)
        if t == "type": return ("type", x) if x in TNAMES else inv
        if t == "bool":
            if x.lower() in ("true", "t"): return ("bool", True)
            if x.lower() in ("false", "f"): return ("bool", False)
            if re.fullmatch(r"\d{1,18}", x): return ("bool", int(x) != 0)
            return inv if x == "" or x[0].isalpha() else None
        if t == "int":
            if re.fullmatch(r"-?\d+", x): return ("int", max(-2**63, min(2**63 - 1, int(x))))
            return inv if x in ("", "-") or x[0].isalpha() else None
        if t == "uint":
            if re.fullmatch(r"\d+", x): return ("uint", min(2**64 - 1, int(x)))
            return inv if x == "" or not x[0].isdigit() else None
        if t == "addr":
            if re.fullmatch(r"(0x)?[0-9a-fA-F]+", x): return ("addr", int(x, 16)) if int(x, 16) < 2**64 else inv
            return inv if x in ("", "-", "x", "yes", "no", "true", "t", "T", "string", "ptr", "int", "uint64", "invalid") else None
        if t == "double":
            try: y = float(x)
            except ValueError: return inv if x == "" or x[0] in "xtTyspu" else None
            return None if y != y or y == 0 and x.startswith("-") else ("double", y)

    def names(self, d, case, vs, r):
        p = case["prop"] | case["level"] << 16
        cnt = r.choice([1, 2, 3, 10, 1000])
        div = [v for v in vs if v[0] in ("int", "uint", "double", "string")]
        reqs = ["p%d" % p] + ["t" + t for t in TNAMES] + ["tnosuch"] + ["q%d:%d" % (p, case["len"])] + ["d%s/%d" % (text(v, random.Random(0)) if v[0] != "string" else "s:" + enc(v[1]), cnt) for v in div]
        o = d.req("names", *reqs)[1:]
        l, name, back = o[0].split(" ")
        if int(back) != p or int(l) != len(name): raise Fail("properties %d print as %r and read as %s" % (p, name, back))
        for t, g in zip(TNAMES, o[1:]):
            if g != t: raise Fail("type name %s reads as %s" % (t, g))
        if o[10] != "inv": raise Fail("unknown type name reads as %s" % o[10])
        fit = len(name) + 1 <= case["len"]
        if (int(o[11]) < 0) == fit or fit and int(o[11]) != len(name): raise Fail("cali_prop2string(%d) into %d bytes is %s" % (p, case["len"], o[11]))
        for v, g in zip(div, o[12:]):
            g = parse_val(g)
            t, x = v
            if t == "string": e = ("inv", None)
            elif t == "double": e = (t, x / cnt)
            elif t == "int": e = (t, abs(x) // cnt * (1 if x >= 0 else -1))
            else: e = (t, x // cnt)
            if g != e: raise Fail("%s / %d is %s" % (v, cnt, g))
import re
CHECK = C27

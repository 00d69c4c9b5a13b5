"""C42: the Python and Fortran bindings record what the C and C++ interfaces record."""
import json, os, re, shutil, subprocess, tempfile
from vf import build
from vf.engine import Check, Fail, Invalid
from vf.driver import Crash, Inconclusive, enc, dec, base_env, san_tail
from vf.model import parse_cali, parse_attr, drv_val, ASVALUE

TID = {"usr": 1, "int": 2, "uint": 3, "string": 4, "addr": 5, "double": 6, "bool": 7, "type": 8}
NAMES = ["a", "b", "foo", "bar", "loop", "x y", "with=eq", "co,mma", "back\\slash", "quo\"te", "ünï", "日本", "n#1", "iteration", "step", "Zeta", "per%cent", "d(e)f", "long name " + "z" * 70]
STRS = NAMES + ["", "0", "-1", "1.5", "true", "main", "  lead", " x", "a/b", "{\"j\":1}", "'q'", "tail\\", "new\nline", "tab\there", "😀"]
PROPS = [0, 0, 0, 256, 1024, 1025, 1, 2, 12, 20, 64, 128, 256 + 64, 2048 + 1, 512 + 64, 13, 1024 + 256, 3 << 16 | 256]
INTS = [0, 1, -1, 2, 7, 42, 1337, 2**31 - 1, -2**31, 100000]
DBLS = [0.0, 1.5, -2.25, 1e300, -1e-300, 3.0, 0.1, 1e15, 123456.789, float("inf")]

def lit(v): return drv_val(*v)

class G:
    """generator of binding-neutral operations"""
    def __init__(self, r, lang):
        self.r, self.lang, self.open, self.attrs, self.anns = r, lang, [], {}, {}
        self.names = r.sample(NAMES, r.choice([3, 5, 8]))
        self.nsc = self.nlp = 0
    def name(self):
        r = self.r
        n = r.choice(self.names)
        return n
    def string(self):
        s = self.r.choice(STRS)
        if self.lang == "f":
            s = s.replace("\n", " ")
            if self.r.random() < 0.2: s = "  " + s
            if self.r.random() < 0.1: s = s + "   "
        return s
    def value(self, t=None, fort=("int", "string")):
        r = self.r
        t = t or r.choice(["int", "string"] if self.lang == "f" else ["int", "double", "string", "int", "string"])
        if t in ("uint", "addr"): t = "int"
        if self.lang == "f" and t not in ("int", "string"): t = "int"
        if t == "int": return ["int", r.choice(INTS + [r.randrange(-2**31, 2**31)])]
        if t == "double": return ["double", r.choice(DBLS + [r.uniform(-1e6, 1e6)])]
        return ["string", self.string()]
    def step(self, out, depth=0):
        r, py = self.r, self.lang == "py"
        k = r.choice(["attr", "ann", "b", "b", "b", "nb", "nb", "ab", "ab", "rb", "rb", "pb", "cb", "s", "ns", "as", "as", "ann", "end", "end", "end", "end", "end", "glob", "find", "loop", "call", "sc", "thr", "mistake"])
        if k == "attr" and len(self.attrs) < 12:
            h = r.randrange(12); t = r.choice(["int", "string", "string", "double", "int", "bool"] if py else ["int", "string"]); n = self.name() + "." + t[0]; p = r.choice(PROPS)
            if t == "string": p &= ~ASVALUE
            self.attrs[h] = (n, t); out.append(["attr", h, n, t, p])
        elif k == "ann":
            h = r.randrange(8); p = r.choice(PROPS) & ~ASVALUE
            if any(o[0] == "ae" and o[1] == h for o in self.open): return
            t = r.choice(["int", "string", "double", "bool", "usr"] if py else ["int", "string"])
            self.anns[h] = t; out.append(["ann", h, self.name() + "." + t[0], p])
        elif k in ("b", "s") and self.attrs:
            h = r.choice(sorted(self.attrs)); t = self.attrs[h][1]
            if k == "s" and not py: return
            v = self.value(t if t != 'bool' else 'int')
            if t == "bool":
                if k == "s": return
                v = None
            out.append([k, h, v])
            if k == "b": self.open.append(["e", h])
        elif k in ("nb", "ns"):
            if k == "ns" and not py: return
            n = self.name(); v = self.value()
            if k == "nb" and py and r.random() < 0.25: v = None
            n += "." + (v[0][0] if v else "b")
            out.append([k, n, v])
            if k == "nb": self.open.append(["ne", n])
        elif k in ("ab", "as") and self.anns:
            h = r.choice(sorted(self.anns)); t = self.anns[h]
            if t == "bool":
                if k == "as": return
                v = None
            elif t == "usr": v = ["typed", ["usr", "bytes" + self.string()]]
            elif t == "string" and py and r.random() < 0.3: v = ["typed", ["string", self.string()]]
            else: v = self.value(t)
            out.append([k, h, v])
            if k == "ab": self.open.append(["ae", h])
        elif k in ("rb", "pb", "cb"):
            if k == "cb" and not py: k = "rb"
            n = self.name(); out.append([k, n]); self.open.append([k[0] + "e", n])
        elif k == "end" and self.open:
            if r.random() < 0.12: i = r.randrange(len(self.open))
            else: i = len(self.open) - 1
            if self.open[i][0] in ("sce", "lpe") : i = len(self.open) - 1
            e = self.open.pop(i); out.append(e)
        elif k == "glob":
            v = self.value()
            if py and r.random() < 0.3: v = ["uint", r.choice([2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1])]
            if not py and r.random() < 0.3: v = ["double", r.choice([0.5, -2.25, 1e10, 3.0])]
            out.append(["glob", "g." + r.choice("abcdefg") + v[0], v])
        elif k == "find":
            out.append(["find", None, r.choice([self.name(), self.name() + ".i", "no.such.attribute", "region", "annotation", "loop", "cali.attribute.name"])])
        elif k == "loop" and depth < 3:
            n = self.name(); h = self.nlp; self.nlp += 1
            if self.nlp > 12: return
            o0 = self.open; self.open = []
            out.append(["lp", h, n])
            for i in range(r.choice([0, 1, 2, 3])):
                out.append(["it", h, r.choice([i, i, -1, 10 * i])])
                for _ in range(r.choice([0, 0, 1, 3])): self.step(out, depth + 1)
                while self.open: out.append(self.open.pop())
                out.append(["ite", h])
            out.append(["lpe", h]); self.open = o0
        elif k == "call" and py and depth < 3:
            body = []; o0 = self.open; self.open = []
            for _ in range(r.choice([0, 1, 2, 4])): self.step(body, depth + 1)
            while self.open: body.append(self.open.pop())
            self.open = o0
            out.append(["call", r.choice(["region", "region", "phase", "comm_region"]), self.name(), body, int(r.random() < 0.35), int(depth == 0 or r.random() < 0.4), int(r.random() < 0.4)])
            if r.random() < 0.05: out.append(["baddeco"])
        elif k == "sc" and not py and depth < 3 and self.nsc < 60:
            h = self.nsc; self.nsc += 1
            out.append(["sc", h, self.name()]); body = []; o0 = self.open; self.open = []
            for _ in range(r.choice([0, 1, 3])): self.step(out, depth + 1)
            while self.open: out.append(self.open.pop())
            self.open = o0; out.append(["sce", h])
        elif k == "thr" and py and depth == 0 and r.random() < 0.5:
            body = []; o0 = self.open; self.open = []
            for _ in range(r.choice([1, 3, 6])): self.step(body, 1)
            while self.open: body.append(self.open.pop())
            self.open = o0; out.append(["thr", body])
        elif k == "mistake" and r.random() < 0.15:
            out.append(r.choice([["re", "nosuch"], ["ne", self.name() + ".i"], ["pe", "nosuch"]]))

def gen_spec(r, lang):
    opts = []
    for i in range(r.choice([0, 1, 2])):
        o = {"name": "opt%d" % i, "description": "option %d" % i, "type": r.choice(["string", "bool"])}
        if o["type"] == "string": o["config"] = {"CALI_EVENT_TRIGGER": "{}"}
        else: o["services"] = ["timestamp"] if False else ["event"]
        if r.random() < 0.5: o["category"] = "output"
        opts.append(o)
    return {"name": "vfspec", "description": r.choice(["a test spec", "quo\"te", "ünï"]), "categories": ["output"] if r.random() < 0.8 else ["output", "event"], "services": ["event", "trace", "recorder"],
            "config": {"CALI_CHANNEL_FLUSH_ON_EXIT": "false"}, "options": opts}

class C42(Check):
    id = "C42"
    rule = ("generated annotation programs (attributes with random types and properties, typed and untyped begin/set/end by handle and by name, Annotation objects, regions, phases, communication regions, loops, globals, attribute lookup, "
            "nested decorated functions that return, raise and catch, scope annotations, threads, mismatched ends) are run by an interpreter using pycaliper or the Fortran module, with the measurement set up through config_preset or through a ConfigManager "
            "(specs as text or dict, options, default parameters, wrong configurations, start/stop in between); the recorded .cali data, the query results and the error messages must equal those of the same program on the C and C++ interfaces; "
            "Fortran region profiles are compared with the time spent; non-trivial: at least 4 records compared, or a region profile with at least two regions")
    assumptions = ["integers are in the 32-bit range of the bindings (globals in Python: 64-bit unsigned)", "by-value string attributes are left out (the runtime borrows their strings)", "Fortran strings are blank-trimmed at the end",
                   "the C and C++ interfaces themselves are the subject of C01-C12"]
    quick, thorough = 1500, 8000
    quick_wall = 300
    flavors = ("plain",)

    def gen(self, r, i, tier):
        lang = r.choice(["py", "py", "f"])
        if lang == "f" and r.random() < 0.2: return {"lang": "f", "mode": "rp", "ops": self.gen_rp(r)}
        g = G(r, lang); ops = []
        for _ in range(r.choice([5, 12, 25, 50])): g.step(ops)
        if r.random() < 0.85:
            while g.open: ops.append(g.open.pop())
        c = {"lang": lang, "mode": r.choice(["preset", "mgr", "mgr"]), "ops": ops}
        if c["mode"] == "preset":
            pre = [["CALI_SERVICES_ENABLE", "event,trace,recorder"], ["CALI_RECORDER_FILENAME", "out.cali"]]
            if r.random() < 0.4: pre.append(["CALI_EVENT_TRIGGER", ",".join(r.sample(["region", "phase", "loop", "foo", "a"], 2))])
            if r.random() < 0.4: pre.append(["CALI_EVENT_ENABLE_SNAPSHOT_INFO", r.choice(["false", "true"])])
            if r.random() < 0.3: pre.append(["CALI_RECORDER_DIRECTORY", "."])
            if r.random() < 0.3: pre.append(["CALI_CHANNEL_SNAPSHOT_SCOPES", r.choice(["process", "thread", "process,thread"])])
            r.shuffle(pre); c["pre"] = pre; c["split"] = r.choice([0, 0, 1])
        else:
            c["spec"] = gen_spec(r, lang); c["dict"] = int(r.random() < 0.5); c["twice"] = int(r.random() < 0.15)
            args = ["output=out.cali"] if r.random() < 0.9 else ["output=out.cali", "nosuch=1"]
            for o in c["spec"]["options"]:
                if r.random() < 0.6: args.append(o["name"] + "=" + (r.choice(["region", "foo", "a"]) if o["type"] == "string" else r.choice(["true", "false"])))
            c["ospec"] = {"name": "xopt", "category": "output", "type": "string", "description": "extra", "config": {"CALI_EVENT_TRIGGER": "{}"}} if r.random() < 0.6 else None
            if r.random() < (0.5 if c["ospec"] else 0.1): args.append("xopt=phase" if r.random() < 0.8 else "xopt")
            r.shuffle(args)
            c["cfg"] = ("vfspec(" + ",".join(args) + ")") if r.random() < 0.9 else r.choice(["vfspec(output=out.cali", "nosuch", "vfspec(output=out.cali),nosuch(", "vfspec(output=out.cali,opt0)", ""])
            c["dflt"] = [["output", "out.cali"]] if r.random() < 0.2 else []
            c["dfltc"] = [["vfspec", "opt0", r.choice(["foo", "true"])]] if r.random() < 0.2 else []
            c["ctor"] = int(r.random() < 0.1)
            c["marks"] = sorted(r.randrange(len(ops) + 1) for _ in range(r.choice([0, 0, 2, 4])))
            c["del"] = int(r.random() < 0.4)
            c["q"] = r.sample(["mcheck", "mspecs", "mdoc", "mdocs", "merr", "mload"], r.choice([0, 1, 2])) if lang == "py" else []
        return c

    def gen_rp(self, r):
        ops = []
        def regs(depth, n):
            for _ in range(n):
                nm = r.choice(["foo", "bar", "baz", "x y"]); ops.append(["rb", nm]); ops.append(["busy", r.choice([0, 50, 300])])
                if depth < 2 and r.random() < 0.5: regs(depth + 1, r.choice([1, 2]))
                ops.append(["re", nm])
                if r.random() < 0.3: ops.append(["busy", 100])
        for _ in range(r.choice([1, 2, 3])):
            if r.random() < 0.5: regs(0, 1)
            ops.append(["rpstart"]); regs(0, r.choice([1, 2, 4])); ops.append(["rpstop"])
            if r.random() < 0.3: regs(0, 1)
            ops.append([r.choice(["rpex", "rpin"])])
            if r.random() < 0.5: ops.append([r.choice(["rpex", "rpin"])])
            if r.random() < 0.3: ops.append(["rpclear"])
        return ops

    # ---- program construction
    def full(self, c):
        """the operations with setup and teardown; every operation gets a unique number as its last field"""
        ops = [json.loads(json.dumps(o)) for o in c["ops"]]
        out = []
        if c["mode"] == "preset":
            pre = c["pre"]
            if c["split"] or c["lang"] == "f": out += [["preset", {k: v}] for k, v in pre]
            else: out.append(["preset", dict(pre)])
            out += [["isinit"]] if c["lang"] == "py" else []
            out.append(["init"])
            out += ops
        else:
            out.append(["init"])
            out.append(["mnew", 0, None])
            sp = json.dumps(c["spec"], ensure_ascii=False) if not (c["dict"] and c["lang"] == "py") else c["spec"]
            for _ in range(1 + c["twice"]): out.append(["mspec", 0, sp])
            if c["ospec"]: out.append(["mospec", 0, c["ospec"] if c["dict"] and c["lang"] == "py" else json.dumps(c["ospec"])])
            for k, v in c["dflt"]: out.append(["mdflt", 0, k, v])
            for a, k, v in c["dfltc"]: out.append(["mdfltc", 0, a, k, v])
            for q in c["q"]:
                if q == "mcheck": out.append(["mcheck", 0, c["cfg"]])
                elif q == "mdoc": out += [["mdoc", 0, "vfspec"], ["mdoc", 0, "runtime-report"], ["mdoc", 0, "nosuch"]]
                elif q in ("mdocs", "mspecs", "merr"): out.append([q, 0])
                elif q == "mload": out += [["mload", 0, "nosuch.json"], ["merr", 0]]
            out.append(["madd", 0, c["cfg"]]); out.append(["merr", 0])
            if c["ctor"] and c["lang"] == "py": out += [["mnew", 1, "nosuch-config(x)"], ["merr", 1], ["mdel", 1]]
            out.append(["mstart", 0])
            st = True; m = list(c["marks"])
            for j, o in enumerate(ops + [None]):
                while m and m[0] == j: m.pop(0); st = not st; out.append(["mstart" if st else "mstop", 0])
                if o is not None: out.append(o)
            out.append(["mflush", 0])
            if c["del"]: out.append(["mdel", 0])
        return self.valid(out, c["lang"])

    def valid(self, ops, lang):
        n = [0]; at, an, lp, sc = set(), set(), [], []
        def walk(ops, thr=False):
            out = []
            for o in ops:
                o = list(o); k = o[0]
                if k == "attr": at.add(o[1])
                elif k in ("b", "s", "e") and o[1] not in at: continue
                elif k == "ann": an.add(o[1])
                elif k in ("ab", "as", "ae") and o[1] not in an: continue
                elif k == "lp":
                    if o[1] in [x[0] for x in lp]: continue
                    lp.append([o[1], False])
                elif k in ("it", "ite", "lpe"):
                    if not lp or lp[-1][0] != o[1] or lp[-1][1] != (k == "ite"): continue
                    if k == "lpe": lp.pop()
                    else: lp[-1][1] = k == "it"
                elif k == "sc": sc.append(o[1])
                elif k == "sce":
                    if not sc or sc[-1] != o[1]: continue
                    sc.pop()
                elif k == "call":
                    nl = len(lp); o[3] = walk(o[3]); del lp[nl:]
                elif k == "thr": sl = lp[:]; lp[:] = []; o[1] = walk(o[1], True); lp[:] = sl
                n[0] += 1; o.append(n[0]); out.append(o)
            return out
        out = walk(ops)
        return out

    def drv_lines(self, c, ops):
        """-> (lines, {op number: (line, kind)})"""
        L, q = [], {}
        def emit(tid, *w):
            L.append("%d %s" % (tid, " ".join(str(x) for x in w))); return len(L) - 1
        class Raised(Exception): pass
        def v(x, f):
            if x is None: return "b:1"
            if x[0] == "typed": return lit(tuple(x[1]))
            return lit((x[0], f(x[1]) if x[0] == "string" else x[1]))
        f = (lambda s: s.rstrip(" ")) if c["lang"] == "f" else (lambda s: s)
        nthr = [0]; defd = set()
        def run(ops, t):
            for o in ops:
                k, num = o[0], o[-1]
                if k == "attr": defd.add(("A", o[1]))
                elif k == "ann": defd.add(("N", o[1]))
                elif k in ("b", "s", "e") and ("A", o[1]) not in defd or k in ("ab", "as", "ae") and ("N", o[1]) not in defd: continue # left out by an exception
                if k == "attr": emit(t, "cattr", "A%d" % o[1], enc(f(o[2])), o[3], o[4])
                elif k == "find": q[num] = (emit(t, "find", enc(f(o[2]))), "find")
                elif k in ("b", "s"): emit(t, "begin" if k == "b" else "set", "id", "A%d" % o[1], v(o[2], f))
                elif k == "e": emit(t, "end", "id", "A%d" % o[1])
                elif k in ("nb", "ns"): emit(t, "begin" if k == "nb" else "set", "nm", enc(f(o[1])), v(o[2], f))
                elif k == "ne": emit(t, "end", "nm", enc(f(o[1])))
                elif k == "ann": emit(t, "ann", "N%d" % o[1], enc(f(o[2])), o[3])
                elif k in ("ab", "as"): emit(t, "begin" if k == "ab" else "set", "an", "N%d" % o[1], v(o[2], f))
                elif k == "ae": emit(t, "end", "an", "N%d" % o[1])
                elif k in ("rb", "pb", "cb", "re", "pe", "ce"): emit(t, k, enc(f(o[1])))
                elif k == "lp":
                    emit(t, "begin", "nm", "loop", lit(("string", f(o[2])))); emit(t, "mli", "L%d" % o[1], enc(f(o[2])))
                elif k == "it": emit(t, "begin", "id", "L%d" % o[1], "i:%d" % o[2])
                elif k == "ite": emit(t, "end", "id", "L%d" % o[1])
                elif k == "lpe": emit(t, "end", "nm", "loop")
                elif k == "glob": emit(t, "glob", enc(f(o[1])), v(o[2], f))
                elif k == "sc": emit(t, "sc", enc(f(o[2])))
                elif k == "sce": emit(t, "pop")
                elif k == "thr":
                    nthr[0] += 1; tt = nthr[0]
                    try: run(o[1], tt)
                    except Raised: pass
                    L.append("T %d" % tt)
                elif k == "call":
                    p = {"region": "r", "phase": "p", "comm_region": "c"}[o[1]]
                    emit(t, p + "b", enc(o[2])); up = False; r = "returned"
                    try:
                        run(o[3], t)
                        if o[4]: raise Raised
                    except Raised: up = True
                    emit(t, p + "e", enc(o[2]))
                    if up:
                        if not o[5]: raise Raised
                        r = "caught"
                    q.setdefault(num, (None, r))
                elif k == "baddeco": q[num] = (None, "rejected")
                elif k == "init": emit(t, "init"); chan()
                elif k == "isinit": q[num] = (None, False)
                elif k == "preset": pass
                elif k == "mnew": emit(t, "cm", "new", o[1]) if o[2] is None else emit(t, "cm", "ctor", o[1], enc(o[2]))
                elif k == "mdel": emit(t, "cm", "del", o[1])
                elif k == "madd": emit(t, "cm", "add", o[1], enc(f(o[2])) or "%")
                elif k in ("mspec", "mospec"): emit(t, "cm", k[1:], o[1], enc(o[2] if isinstance(o[2], str) else json.dumps(o[2], ensure_ascii=False)))
                elif k == "mdflt": emit(t, "cm", "dflt", o[1], enc(o[2]), enc(o[3]))
                elif k == "mdfltc": emit(t, "cm", "dfltc", o[1], enc(o[2]), enc(o[3]), enc(o[4]))
                elif k == "mload": emit(t, "cm", "load", o[1], enc(o[2]))
                elif k in ("merr", "mspecs", "mdocs"): q[num] = (emit(t, "cm", {"merr": "err", "mspecs": "specs", "mdocs": "docs"}[k], o[1]), k)
                elif k in ("mcheck", "mdoc"): q[num] = (emit(t, "cm", k[1:], o[1], enc(o[2]) or "%"), k)
                elif k in ("mstart", "mstop", "mflush"): emit(t, "cm", k[1:], o[1])
                else: raise Invalid("op " + k)
        def chan():
            if c["mode"] != "preset": return
            w = []
            for k, x in c["pre"]: w += [enc(k), enc(x)]
            emit(0, "chnew", "default", 0, *w)
        try: run(ops, 0)
        except Raised: pass
        if c["mode"] == "preset": emit(0, "chflush", 0)
        return L, q

    def f_lines(self, ops):
        L, nums = [], {}
        n = 0
        def w(num, *f):
            nums[len(starts) + 1] = num; starts.append(1)
            for x in f: L.append(str(x))
        starts = []
        for o in ops:
            k, num = o[0], o[-1]
            if k == "attr": w(num, "attr", o[1], o[2], TID[o[3]], o[4])
            elif k == "find": w(num, "find", -1, o[2])
            elif k == "b": w(num, "bi" if o[2][0] == "int" else "bs", o[1], o[2][1])
            elif k == "e": w(num, "e", o[1])
            elif k == "nb": w(num, "nbi" if o[2][0] == "int" else "nbs", o[1], o[2][1])
            elif k in ("ne", "rb", "re", "pb", "pe"): w(num, k, o[1])
            elif k == "ann": w(num, "an", o[1], o[2]) if o[3] == 0 else w(num, "anp", o[1], o[2], o[3])
            elif k in ("ab", "as"): w(num, "an" + k[1] + ("" if o[2][0] == "int" else "s"), o[1], o[2][1])
            elif k == "ae": w(num, "ane", o[1])
            elif k == "lp": w(num, "nbs", "loop", o[2]); w(num, "li", o[1], o[2])
            elif k == "it": w(num, "lb", o[1], o[2])
            elif k == "ite": w(num, "le", o[1])
            elif k == "lpe": w(num, "ne", "loop")
            elif k == "glob": w(num, "g" + o[2][0][0], o[1], repr(o[2][1]) if o[2][0] == "double" else o[2][1])
            elif k in ("sc", "sce"): w(num, k, *o[1:-1])
            elif k == "preset":
                for a, b in o[1].items(): w(num, "preset", a, b)
            elif k == "mnew": w(num, k, o[1])
            elif k in ("init", "mdel", "madd", "mspec", "mospec", "mdflt", "mdfltc", "merr", "mstart", "mstop", "mflush"): w(num, k, *o[1:-1])
            else: raise Invalid("op " + k)
        return L, nums

    # ---- running
    def spawn(self, argv, d, env):
        e = base_env(); e.update(env); e["OMPI_MCA_btl"] = "self"
        try: p = subprocess.run(argv, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        except subprocess.TimeoutExpired: raise Inconclusive("program timeout")
        err = p.stderr.decode("utf-8", "surrogateescape")
        if p.returncode: raise Crash("the program ended with status %d: %s" % (p.returncode, san_tail(err)))
        return p.stdout.decode("utf-8", "surrogateescape"), err

    def run(self, ctx, c):
        if c["mode"] == "rp": return self.run_rp(ctx, c)
        drv = ctx.drv("plain")
        ops = self.full(c)
        lines, q = self.drv_lines(c, ops)
        ref = drv.run(lines)
        want = {n: self.refval(ref, c, *x) for n, x in q.items()}
        d = tempfile.mkdtemp(prefix="b", dir=drv.dir)
        try:
            if c["lang"] == "py":
                with open(os.path.join(d, "prog.json"), "w") as fo: json.dump(ops, fo)
                py = os.path.join(build.BUILD, "plain", "caliper", "src", "interface", "python")
                self.spawn(["/usr/bin/python3", "-B", os.path.join(build.VERIF, "harness", "vpy.py"), "prog.json", "res.json"], d, {"PYTHONPATH": py, "PYTHONIOENCODING": "utf-8"})
                try: got = {int(k): x for k, x in json.load(open(os.path.join(d, "res.json"))).items() if k != "boom"}
                except (OSError, ValueError): raise Fail("no results: the Python program did not finish")
            else:
                L, nums = self.f_lines(ops)
                with open(os.path.join(d, "prog.txt"), "wb") as fo: fo.write(("\n".join(L) + "\n").encode())
                self.spawn([build.tool("vfort", "plain"), "prog.txt", "res.txt"], d, {})
                try: rl = open(os.path.join(d, "res.txt"), "rb").read().decode("utf-8", "surrogateescape").split("\n")
                except OSError: rl = []
                if "DONE" not in rl: raise Fail("no results: the Fortran program did not finish: %r" % rl[-3:])
                got = {}
                for l in rl:
                    m = re.match(r"(\d+) (\S+) ?(.*)$", l)
                    if m: got[nums[int(m.group(1))]] = [m.group(2), m.group(3).rstrip()]
            try: text = open(os.path.join(d, "out.cali"), encoding="utf-8", errors="surrogateescape").read()
            except OSError: text = None
        finally: shutil.rmtree(d, ignore_errors=True)
        self.compare_q(c, ops, want, got)
        rtext = ref.files.get("out.cali")
        if (text is None) != (rtext is None): raise Fail("output: the %s program %s a profile, the C++ one %s" % (c["lang"], "wrote" if text is not None else "did not write", "did" if rtext is not None else "did not"))
        n = 0
        if text is not None: n = self.compare(c, text, rtext, any(o[0] == "thr" for o in ops))
        kinds = sorted(set(o[0] for o in ops))
        return {"tags": [c["lang"], c["mode"]] + (["profile"] if text is not None else ["no profile"]) + ["op." + k for k in kinds if not k.startswith("m")] + (["dict spec"] if c["mode"] == "mgr" and c["dict"] and c["lang"] == "py" else []),
                "nontrivial": n >= 4, "show": {"lang": c["lang"], "ops": c["ops"][:12], "records": n}}

    def refval(self, ref, c, line, kind):
        if line is None: return kind
        s = ref.res.get(line, "").strip()
        if kind == "find":
            if s == "none": return None
            if "MISMATCH" in s: raise Fail("find: the C interfaces disagree: " + s)
            return s
        if kind == "merr": a, _, m = s.partition(" "); return [a == "E", dec(m) if m != "%" else ""]
        if kind in ("mspecs",): return sorted(x for x in dec(s).split("\n") if x)
        if kind == "mdocs": return [dec(x) for x in dec(s).split("\n") if x]
        return "" if s == "%" else dec(s)

    def compare_q(self, c, ops, want, got):
        flat = {}
        def walk(ops):
            for o in ops:
                flat[o[-1]] = o
                if o[0] == "call": walk(o[3])
                elif o[0] == "thr": walk(o[1])
        walk(ops)
        for n, g in sorted(got.items()):
            o = flat[n]
            if isinstance(g, str) and g.startswith("exception") and not (o[0] == "find" and "RuntimeError" in g and want.get(n, 0) is None): raise Fail("exception: %r raised %s" % (o[:-1], g))
            if n not in want: raise Fail("result: unexpected result %r of %r" % (g, o[:-1]))
        for n, x in sorted(want.items()):
            o = flat[n]; g = got.get(n)
            if o[0] == "find":
                if c["lang"] == "f": ok = g == ["none" if x is None else "found", ""]
                elif x is None: ok = isinstance(g, str)
                else:
                    if not isinstance(g, list): ok = False
                    else:
                        name, t, p = parse_attr(x.split(" ", 1)[1])[:3]
                        ok = g[0] == name and g[1] == "CALI_TYPE_" + t.upper() and g[2] == p
            elif c["lang"] == "f": ok = o[0] != "merr" or g == ["E" if x[0] else "-", x[1].rstrip()]
            elif o[0] == "merr": ok = g == x
            else: ok = g == x
            if not ok: raise Fail("result: %r gave %r, expected %r" % (o[:-1], g, x))

    def compare(self, c, text, rtext, multi):
        def norm(t):
            at, recs, gl, prob = parse_cali(t)
            if prob: raise Fail("profile: " + prob[0])
            key = lambda e: repr(e)
            rs = [tuple(sorted((key(e) for e in r if not (e[0] == "R" and not e[1])))) for r in recs]
            skip = ("cali.channel", "starttime.sec", "starttime.nsec")
            at = {n: (a[0], a[1], repr(sorted(a[2].items(), key=repr))) for n, a in at.items() if n not in skip}
            g = sorted(x for e in gl for x in ([repr(y) for y in e[1] if y[0] not in skip] if e[0] == "R" else [repr(e[1:])]) if not (e[0] == "I" and e[1] in skip))
            return at, (sorted(rs) if multi else rs), g
        (a1, r1, g1), (a2, r2, g2) = norm(text), norm(rtext)
        if len(r1) != len(r2): raise Fail("records: %d recorded, %d with the C++ interface" % (len(r1), len(r2)))
        for i, (x, y) in enumerate(zip(r1, r2)):
            if x != y: raise Fail("record: number %d is %s, with the C++ interface %s" % (i, " ".join(x), " ".join(y)))
        if a1 != a2:
            d = sorted(n for n in set(a1) | set(a2) if a1.get(n) != a2.get(n))
            raise Fail("attribute: %s is %r, with the C++ interface %r" % (d[0], a1.get(d[0]), a2.get(d[0])))
        if g1 != g2: raise Fail("globals: %r, with the C++ interface %r" % ([x for x in g1 if x not in g2], [x for x in g2 if x not in g1]))
        return len(r1)

    # ---- region profiles in Fortran
    def run_rp(self, ctx, c):
        L, chk = [], []
        n = [0]
        def w(*f): n[0] += 1; L.extend(str(x) for x in f); return n[0]
        names = ["foo", "bar", "baz", "x y", "never"]
        def dump(what): chk.append((what, w("rptot", 0), [(x, w("rpt", 0, x)) for x in names]))
        w("rpnew", 0); dump("new")
        stack = []; on = False; excl, incl = {}, {}; total = 0
        for o in c["ops"]:
            k = o[0]
            if k == "rb": w("rb", o[1]); stack.append((o[1], on))
            elif k == "re":
                if not stack or stack[-1][0] != o[1]: continue
                w("re", o[1]); stack.pop()
            elif k == "busy":
                w("busy", o[1])
                if on:
                    if stack:
                        excl[stack[-1][0]] = excl.get(stack[-1][0], 0) + o[1]; total += o[1]
                        for x in set(s[0] for s in stack): incl[x] = incl.get(x, 0) + o[1]
            elif k == "rpstart":
                if stack: continue
                if not on: w(k, 0); on = True
            elif k == "rpstop":
                if stack: continue
                if on: w(k, 0); on = False
            elif k == "rpclear":
                if on: continue
                w(k, 0); excl, incl, total = {}, {}, 0; dump("clear")
            elif k in ("rpex", "rpin"):
                if on or stack: continue
                w(k, 0); dump((k, dict(excl), dict(incl), total))
        w("rpdel", 0)
        drv = ctx.drv("plain"); d = tempfile.mkdtemp(prefix="b", dir=drv.dir)
        try:
            with open(os.path.join(d, "prog.txt"), "wb") as fo: fo.write(("\n".join(L) + "\n").encode())
            self.spawn([build.tool("vfort", "plain"), "prog.txt", "res.txt"], d, {})
            res = {}
            for l in open(os.path.join(d, "res.txt")).read().split("\n"):
                m = re.match(r"(\d+) (.*)$", l)
                if m: res[int(m.group(1))] = [float(x) for x in m.group(2).split()]
        finally: shutil.rmtree(d, ignore_errors=True)
        reg = 0
        for what, tot, rt in chk:
            tp, tr = res[tot]; t = {x: res[i][0] for x, i in rt}
            if what in ("new", "clear"):
                if tp or tr or any(t.values()): raise Fail("region profile: times are not zero after %s: %r %r" % (what, res[tot], t))
                continue
            k, ex, inc, total = what; m = ex if k == "rpex" else inc; reg = max(reg, len(m))
            s = "%s, total %g, regions %g, times %r" % (k, tp, tr, t)
            for x in t:
                if t[x] < (m.get(x, 0) * 1e-6) * 0.999: raise Fail("region profile: %d us were spent in %s: %s" % (m.get(x, 0), x, s))
                if x not in m and t[x]: raise Fail("region profile: no time was spent in %s: %s" % (x, s))
                if t[x] > tp * 1.000001 + 1e-9: raise Fail("region profile: %s takes longer than the profile: %s" % (x, s))
            if tr > tp * 1.000001 + 1e-9 or tr < total * 1e-6 * 0.999 : raise Fail("region profile: totals do not fit %d us in regions: %s" % (total, s))
            if k == "rpex" and abs(sum(t.values()) - tr) > 1e-6 * max(tr, 1e-3): raise Fail("region profile: exclusive times do not add up to the total: %s" % s)
        return {"tags": ["f", "region profile"], "nontrivial": reg >= 2, "show": {"ops": c["ops"][:10], "checks": len(chk)}}

CHECK = C42

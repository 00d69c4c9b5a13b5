"""C29: all annotation interfaces record the same thing."""
from vf.engine import Check, Fail
from vf.driver import enc
from vf.model import *
from vf.rt import World
from checks import rtgen

NAMED = {"R": ["c", "mac", "id", "nm", "lo", "ann", "anncopy", "guard", "scope", "wrap"], "P": ["c", "mac", "id", "nm", "lo", "ann", "guard"], "M": ["c", "mac", "id", "nm", "lo", "ann", "guard"]}
ATTR_IF = ["id", "nm", "lo", "ann", "anncopy", "guard", "annint"]
SET_IF = ["id", "nm", "lo", "ann", "annint"]
LOOP_IF = ["c", "cxx", "obj", "objcopy", "nm"]
TY = {"a.int": "int", "a.dbl": "double", "a.str": "string", "a.flag": "bool", "s.int": "int", "s.dbl": "double", "s.str": "string"}

def tree(r, depth, infn, inloop, intry, budget):
    """[kind, interface, name, arg, children]"""
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        if budget[0] <= 0: break
        budget[0] -= 1
        k = r.random()
        kids = lambda f=infn, l=inloop, t=intry: tree(r, depth - 1, f, l, t, budget) if depth else []
        s = r.choice(rtgen.STR[:8] + ["f_one"])
        if k < 0.34:
            kind = r.choice("RRRPM")
            out.append([kind, r.choice(NAMED[kind]), s, 0, kids()])
        elif k < 0.46: out.append(["F", *r.choice([("cxx", "f_one"), ("c", "f_one"), ("cxx", "f_two"), ("c", "f_two"), ("obj", s)]), 0, kids(True, False)])
        elif k < 0.6: out.append(["L", r.choice(LOOP_IF), r.choice(rtgen.STR[:4]), [r.choice([0, 1, 2, 3]), r.choice([0, 1, -2])], kids(infn, True)])
        elif k < 0.75:
            n = r.choice(["a.int", "a.dbl", "a.str", "a.flag"])
            out.append(["A", r.choice(ATTR_IF), n, ["bool", True] if n == "a.flag" else small(rtgen.value(r, TY[n])), kids()])
        elif k < 0.83:
            n = r.choice(["s.int", "s.dbl", "s.str"])
            out.append(["S", r.choice(SET_IF), n, small(rtgen.value(r, TY[n])), []])
        elif k < 0.91: out.append(["T", "-", "-", 0, kids(infn, inloop, True)])
        else:
            c = (["return"] if infn else []) + (["break", "continue"] if inloop else []) + (["throw"] if intry else [])
            if c and depth < 5: out.append(["X", "-", r.choice(c), 0, []])
    return out

def small(v):
    if v[0] == "int" and not -2**31 <= v[1] < 2**31: return ["int", v[1] % 1000]
    return v

class Thrown(Exception): pass

def ok(n): return isinstance(n, list) and len(n) == 5 and isinstance(n[4], list)

class C29(Check):
    id = "C29"
    rule = ("random nestings of regions, functions, phases, communication regions, loops with iterations, attribute scopes and set attributes (depth up to 6), each written with one of its interfaces - C calls by name or id, C and C++ macros, scope and guard objects "
            "(also copied and assigned), low-level calls - and left normally or by return, break, continue or an exception, run on 1-3 threads; the complete trace is compared with the one model of the program that does not depend on the interface, "
            "and the program is run again with every interface replaced by another one; non-trivial: at least three different interfaces and 6 records")
    quick, thorough = 4000, 200000

    def gen(self, r, i, tier):
        progs = []
        for _ in range(r.choice([1, 2, 3, 5])):
            b = [r.choice([4, 8, 16, 30])]
            progs.append([r.choice([0, 0, 0, 1, 2]), tree(r, 5, False, False, False, b)])
        return {"progs": progs, "swap": r.randrange(1 << 30), "info": r.random() < 0.8}

    def emit(self, n, swap):
        k, f, name, arg, kids = n
        if swap is not None:
            c = NAMED.get(k) or {"A": ATTR_IF, "L": LOOP_IF, "S": SET_IF, "F": ["cxx", "c", "obj"] if name in ("f_one", "f_two") else ["obj"]}.get(k, [f])
            f = swap.choice(c)
        if k == "F" and name not in ("f_one", "f_two"): f = "obj"
        if f == "annint" and (arg[0] != "double" or arg[1] != int(arg[1]) or abs(arg[1]) > 2**31 - 1): f = "ann"
        self.used.add((k, f))
        a = drv_val(*arg) if k in "AS" else "%d,%d" % tuple(arg) if k == "L" else "0"
        w = [k, f, enc(name) or "%", a, "("]
        for x in kids:
            if ok(x): w += self.emit(x, swap)
        return w + [")"]

    def model(self, w, t, n):
        k, f, name, arg, kids = n
        def body():
            for x in kids:
                if not ok(x): continue
                c = self.model(w, t, x)
                if c: return c
            return None
        def scope(attr, v):
            a = w.attrs[attr]
            w.begin(t, a, v); w.stats["scopes"] += 1
            try: return body()
            finally: w.end(t, a)
        if k == "X":
            w.stats[name] += 1
            if name == "throw": raise Thrown()
            return name
        if k == "B": return body()
        if k == "T":
            try: return body()
            except Thrown: return None
        if k == "S":
            w.mk(name, TY[name], UNALIGNED); w.set(t, w.attrs[name], tuple(arg)); return None
        if k == "F": scope("region", ("string", name)); return None
        if k == "L":
            it = "iteration#" + name
            w.mk(it, "int", ASVALUE)
            w.begin(t, w.attrs["loop"], ("string", name)); w.stats["scopes"] += 1
            try:
                for i in range(arg[1], arg[1] + arg[0]):
                    c = scope(it, ("int", i))
                    if c == "return": return c
                    if c == "break": break
            finally: w.end(t, w.attrs["loop"])
            return None
        if k == "A":
            w.mk(name, TY[name], 0)
            return scope(name, tuple(arg))
        return scope({"R": "region", "P": "phase", "M": "comm.region"}[k], ("string", name))

    def run(self, ctx, case):
        import random
        n, stats = 0, None
        for swap in (None, random.Random(case["swap"])):
            self.used = set()
            w = World(tag=True); w.start()
            w.op_chnew(0, "c0", True, {} if case["info"] else {"CALI_EVENT_ENABLE_SNAPSHOT_INFO": "false"})
            for p in case["progs"]:
                if not (isinstance(p, list) and len(p) == 2): continue
                t = w.thread(p[0])
                root = ["B", "-", "-", 0, p[1]]
                l = w.emit(p[0], "prog", *self.emit(root, swap))
                w.expect(l, lambda r: None if r in ("", "-", "ok") else "an exception left the program" )
                try: self.model(w, t, root)
                except Thrown: return dict(tags=[], nontrivial=False, show=[])     # only after shrinking
                w.op_ctx(p[0])
            w.finish()
            res = ctx.drv().run(w.lines)
            m = w.verify(res)
            if m: raise Fail(m.replace("differs:", "differs%s:" % (" (interfaces exchanged)" if swap else ""), 1))
            if swap is None: stats, used, lines = w.stats, set(self.used), w.lines
        tags = ["%s %s" % x for x in sorted(used) if x[1] != "-"] + [x for x in ("throw", "return", "break", "continue") if stats[x]]
        return dict(tags=tags, nontrivial=len(used) >= 3 and stats["records"] >= 6, show=[l[:400] for l in lines])
CHECK = C29

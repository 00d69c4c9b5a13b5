"""Generators of annotation histories (op lists of vf.rt)."""
from vf.model import *
from vf.rt import World

STR = ["a", "b", "foo", "bar", "main", "x y", "l=1,2", "", "a/b", "\u00e9", "very_long_region_name_0123456789_0123456789_0123456789"]
def value(r, t):
    if t == "int": return ["int", r.choice([0, 1, 2, 3, -1, 7, 42, 2**31 - 1, -2**31, 2**31, 2**62, -2**63]) if r.random() < 0.3 else r.randrange(4)]
    if t == "uint": return ["uint", r.choice([0, 1, 2**32, 2**64 - 1]) if r.random() < 0.3 else r.randrange(4)]
    if t == "double": return ["double", r.choice([0.5, 1.0, -2.25, 1e300, 1e-300, 3.0])]
    if t == "bool": return ["bool", r.random() < 0.7]
    if t == "addr": return ["addr", r.choice([0, 1, 0xdeadbeef, 2**64 - 1])]
    if t == "type": return ["type", r.choice(TYPES)]
    if t == "usr": return ["usr", r.choice(["", "x", "a b", "\0\1\2", "q" * 40])]
    return ["string", r.choice(STR) if r.random() < 0.7 else r.choice("abc")]

def props(r, proc=0.15, hidden=0.12, skip=0.1):
    p = r.choice([0, NESTED, NESTED, NESTED, ASVALUE, ASVALUE, UNALIGNED, NOMERGE])
    if p == 0 and r.random() < 0.2: p = NESTED | ASVALUE
    k = r.random()
    if k < proc: p |= PROCESS
    elif k < proc + 0.2: p |= THREAD
    elif k < proc + 0.24: p |= GLOBAL
    if r.random() < hidden: p |= HIDDEN
    if r.random() < skip: p |= SKIP_EVENTS
    if r.random() < 0.15: p |= r.randrange(1, 8) << 16
    return p

TYPES_RT = ["usr", "int", "int", "int", "string", "string", "string", "double", "uint", "bool", "addr", "type"]

def attrs_ops(r, n, tid=lambda: 0, collide=0.0, **kw):
    ops = []
    near = r.choice([["#1", "#2"], ["#1018", "#1019", "#1020", "#0"]])      # blackboard slots next to each other, also across its end
    for k in range(n):
        t, p = r.choice(TYPES_RT), props(r, **kw)
        name = "at.%d" % k if r.random() < 0.9 else r.choice(["x y", "q=1", "f,g", "\u00e4"]) + str(k)
        if collide and r.random() < 0.7: p = ASVALUE | (HIDDEN if r.random() < 0.4 else 0) | (PROCESS if r.random() < 0.2 else 0)
        if r.random() < collide: ops.append(["attrc", tid(), "H%d" % k, name, t, p, r.choice(near + ["H%d" % r.randrange(k)]) if k else r.choice(near)])
        else: ops.append(["attr", tid(), "H%d" % k, name, t, p, r.choice(["attr", "cattr"])])
        if r.random() < 0.25: ops.append(["ann", tid(), "A%d" % k, name, p])
    return ops

def history(r, big=False, nthreads=None, mistakes=0.0, channels=True, length=None, collide=None, nattr=None, query=0.25, ends=0.36, prefix=None, extra_op=None, flush=0.03, chcfg=None, xprob=0.15, usr=True, proc=0.15, world=None):
    """A properly nested history (apart from `mistakes`) on several threads; returns the op list."""
    nt = nthreads or r.choice([1, 1, 1, 2, 3, 4])
    tids = list(range(nt))
    ops = list(prefix or [])
    late = r.random() < 0.3      # some attributes are created after the channel
    col = collide if collide is not None else (0.6 if r.random() < 0.1 else 0.0)
    n = nattr or (r.choice([1, 2, 3, 5, 8, 12]) if r.random() < 0.95 else r.choice([40, 90]))
    if col: n = min(n, 8)
    decl = attrs_ops(r, n, lambda: r.choice(tids), col, proc=proc)
    if not usr:
        for o in decl:
            if len(o) > 4 and o[4] == "usr": o[4] = "string"
    chan = [["chnew", 0, "c0", True, chcfg or {}]] if channels else []
    if not late: ops += decl + chan
    else:
        k = r.randrange(len(decl) + 1)
        ops += decl[:k] + chan + decl[k:]
    w = world() if world else World(tag=True)
    if not world: w.start()
    for o in ops: w.do(o)
    L = length or (r.choice([5, 10, 20, 40, 80]) if r.random() < 0.97 else 300)
    if big: L *= r.choice([1, 1, 2, 5])
    names = [a.name for a in w.attrs.values()]
    def handles(): return [h for h in w.h if w.attrs[w.h[h]].name != "thr"]
    for _ in range(L):
        t = r.choice(tids)
        th = w.thread(t)
        k = r.random()
        if extra_op and r.random() < xprob:
            o = extra_op(r, w, t)
            if o: ops.append(o); w.do(o)
            continue
        if k < query:
            q = r.random()
            H = r.choice(handles())
            if q < 0.06: o = ["xch", t, H, value(r, w.attrs[w.h[H]].type)] if w.attrs[w.h[H]].type not in ("string", "usr") else ["get", t, H]
            elif q < 0.35: o = ["get", t, H]
            elif q < 0.45: o = ["getn", t, r.choice(list(w.attrs))]
            elif q < 0.65: o = ["ctx", t]
            elif q < 0.72: o = ["path", t]
            elif q < 0.8: o = ["regor", t]
            elif q < 0.9: o = ["pull", t, "c0"] if channels else ["ctx", t]
            else: o = ["push", t, [[h, value(r, w.attrs[w.h[h]].type)] for h in r.sample(handles(), min(len(handles()), r.randrange(4)))]]
        elif k < query + ends:
            o = end_op(r, w, t, mistakes)
            if not o: o = begin_op(r, w, t)
        elif k < 0.97 - flush: o = begin_op(r, w, t, col and 0.6)
        elif k < 0.985 - flush and t: o = ["join", t]
        elif flush and r.random() < 0.5: o = ["dump", t, "c0"] if channels else ["ctx", t]
        else: o = ["glob", t, r.choice(["g.a", "g.b"]), value(r, "string")]
        if not o: continue
        ops.append(o); w.do(o)
    # unwind some of the threads
    for t in tids:
        if r.random() < 0.6:
            for _ in range(60):
                o = end_op(r, w, t, 0)
                if not o: break
                ops.append(o); w.do(o)
            ops.append(["ctx", t]); w.do(ops[-1])
    return ops

def flavor(r, w, a, setop=False):
    """(flavor, handle or name) through which attribute a can be used"""
    c = [("lo", h) for h, n in w.h.items() if n == a.name] + [("id", h) for h, n in w.h.items() if n == a.name]
    c += [("an", h) for h, (n, p) in w.annh.items() if n == a.name]
    c += [("nm", a.name)]
    return r.choice(c)

def begin_op(r, w, t, plain=0.0):
    k = r.random()
    if plain and r.random() < plain: k = 1.0
    if k < 0.25:
        c = r.random()
        s = r.choice(STR[:7])
        return [r.choice(["rb", "rb", "rb", "pb", "cb"]), t, s]
    if k < 0.35:
        objs = w.thread(t).objs
        if any(o[0] == "loop" for o in objs) and r.random() < 0.5 and objs[-1][0] == "loop": return ["it", t, r.randrange(5)]
        return [r.choice(["fn", "sc", "lp"]), t, r.choice(STR[:5])]
    if k < 0.42: return [r.choice("bs"), t, "nm", r.choice(["nm.a", "nm.b", "nm.c"]) , value(r, r.choice(["int", "string"]))]
    if k < 0.47 and w.annh:
        H = r.choice(list(w.annh)); a = w.attrs.get(w.annh[H][0])
        return ["gd", t, H, value(r, a.type if a else "int")]
    a = w.attrs[r.choice([n for n in w.attrs if n != "thr" and not n.startswith("iteration#") and n not in w.reserved])]
    fl, x = flavor(r, w, a)
    v = value(r, a.type)
    if a.slot == "U" or a.slot == "I": op = r.choice("bsss")
    else: op = r.choice("bbbbs")
    if op == "b" and a.slot == "I" and w.get(w.thread(t), a) is not None: op = "s"
    return [op, t, fl, x, v]

def end_op(r, w, t, mistakes):
    th = w.thread(t)
    if mistakes and r.random() < mistakes:
        a = w.attrs[r.choice([n for n in w.attrs if n != "thr" and n not in w.reserved])]
        c = [h for h, n in w.h.items() if n == a.name]
        if r.random() < 0.3: return [r.choice(["re", "pe", "ce"]), t, r.choice(STR[:5])]
        if r.random() < 0.3 and c: return ["ev", t, r.choice(c), value(r, a.type)]
        if r.random() < 0.2 and th.objs: return ["pop", t]
        fl, x = flavor(r, w, a)
        return ["e", t, fl, x]
    # objects must close in LIFO order with respect to the region stack they opened
    c = []
    objn = [o[0] for o in th.objs]
    for bb in (th.bb, w.proc):
        p = bb.p["R"]
        if p: c.append(p[-1][0])
        c += [n for n, v in bb.p["U"] if not n.startswith("g.") and n not in w.reserved] + [n for n in bb.I if n != "thr" and n not in w.reserved]
    if th.objs:
        top = th.objs[-1]
        if top[0] == "loop" and not top[2]: return ["pop", t]
        if w.can_end(th, w.attrs[top[0]]) and r.random() < 0.5: return ["pop", t]
        c = [n for n in c if n not in objn]
    if not c: return None
    a = w.attrs[r.choice(c)]
    v = w.get(th, a)
    if a.name in ("region", "phase", "comm.region") and r.random() < 0.6: return [{"region": "re", "phase": "pe", "comm.region": "ce"}[a.name], t, v[1]]
    hs = [h for h, n in w.h.items() if n == a.name]
    if hs and r.random() < 0.3: return ["ev", t, r.choice(hs), list(v)]
    fl, x = flavor(r, w, a)
    return ["e", t, fl, x]

"""C28: packed snapshots and transfer buffers are lossless and bounded."""
from vf.engine import Check, Fail, Invalid
from vf.driver import enc, dec
from vf.model import *

BIG = [0, 1, 2, 8, 9, 12, 63, 64, 127, 128, 129, 255, 256, 16383, 16384, 2**21 - 1, 2**21, 2**31 - 1, 2**32 - 1, 2**32, 2**35, 2**49, 2**56, 2**62]
INV = 2**64 - 1

def val(r, strings=True):
    k = r.random()
    if k < 0.3: return "i:%d" % r.choice([0, 1, -1, 63, 64, 127, 128, -128, 2**31 - 1, -2**31, 2**63 - 1, -2**63, r.randrange(-10**6, 10**6), r.getrandbits(64) - 2**63])
    if k < 0.5: return "u:%d" % r.choice([0, 1, 127, 128, 2**32, 2**63, INV, r.getrandbits(r.randrange(1, 65))])
    if k < 0.65: return "d:%.17g" % r.choice([0.0, -0.0, 1.0, -1.5, 1e300, 5e-324, r.uniform(-1e6, 1e6)])
    if k < 0.72: return "b:%d" % r.randrange(2)
    if k < 0.8: return "a:%x" % r.choice([0, 1, 127, 2**40, INV, r.getrandbits(64)])
    if k < 0.85: return "t:" + r.choice(TYPES)
    if k < 0.9 or not strings: return "x:"
    s = r.choice(["", "a", "whee", "x y\n", "\0\1", "\u00e4" * 20, "s" * r.choice([1, 31, 127, 128, 300])])
    return ("U:" if r.random() < 0.3 else "s:") + enc(s)

def entries(r, n, pn=0.5, strings=True):
    """node ids are even, attribute ids odd; some of each repeat"""
    pool = [r.choice(BIG) if r.random() < 0.4 else r.getrandbits(r.choice([4, 7, 8, 14, 20, 33, 60])) for _ in range(r.choice([2, 5, 40, 300]))]
    out = []
    for _ in range(n):
        i = r.choice(pool)
        if r.random() < pn: out.append("N%d" % (i & ~1))
        else: out.append("I%d=%s" % (i | 1, val(r, strings)))
    return out

def groups(es):
    return [e for e in es if e[0] == "N"], [e for e in es if e[0] == "I"]

def subseq(a, b):
    it = iter(b)
    return all(x in it for x in a)

def check_view(text, want_n, want_i, what):
    """the four ways to read a view agree with the expected entries"""
    f = text.split(";")
    if "PARTIAL" in text: raise Fail("%s: unpacking fewer entries than there are gives other entries: %s" % (what, text[:600]))
    want = want_n + want_i
    if f[0] != "%d,%d" % (len(want_n), len(want_i)): raise Fail("%s: %s nodes and immediate values, expected %d and %d" % (what, f[0], len(want_n), len(want_i)))
    for k, w in ((1, want), (2, want), (3, want), (4, want[:len(want) // 2])):
        got = f[k].split()
        if got != w:
            j = next((j for j in range(max(len(got), len(w))) if got[j:j + 1] != w[j:j + 1]))
            raise Fail("%s: entry %d of %d is %s, expected %s (%s)" % (what, j, len(w), got[j:j + 1], w[j:j + 1], ["unpack", "entry list", "visit", "visit of one half"][k - 1]))

class C28(Check):
    id = "C28"
    rule = ("entry lists of 0-150 context nodes and immediate values of all types with ids of every encoded length, packed through sequences of append calls of all three kinds into buffers of 0-4000 bytes (also exactly the size reported as needed and one less), unpacked in four ways from an exact-size copy; node lists and record lists sent through node and snapshot buffers into fresh and used buffers; append/remove histories on snapshot builders of capacity 0-128; "
            "single integers, values and entries; compared with the input lists or a list model, with every buffer at its exact size under the address sanitizer; non-trivial: more than four entries or an overflow")
    assumptions = ["values with text keep a pointer (used inside one process), so only their reference is packed", "at most 127 nodes and 127 immediate values per record"]
    quick, thorough = 40000, 800000

    def gen(self, r, i, tier):
        kind = r.choice(["rec"] * 5 + ["nodes", "nodes", "snaps", "snaps", "build", "build", "vl", "var", "entry"])
        if kind == "rec":
            n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 12, 20, 40, 130, 150])
            pn = r.choice([0.0, 0.2, 0.5, 0.8, 1.0])
            es, seq = [], []
            while n > 0:
                k = min(n, r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 20, 200])); w = r.choice("enie")
                x = entries(r, k, pn if w == "e" else 1.0 if w == "n" else 0.0)
                if w == "e" and r.random() < 0.1: x = [e if r.random() < 0.8 else "E" for e in x]
                es += x; seq.append("%s%d" % (w, k)); n -= max(k, 1)
            return {"k": kind, "cap": r.choice(["-", "c", "-"] + [str(r.choice([0, 1, 2, 3, 4, 8, 16, 20, 40, 64, 100, 250, 512, 1000, 4000])) for _ in range(5)]), "fit": r.choice([None, None, 0, 0, 1, 2, 7]), "seq": seq, "es": es}
        if kind == "nodes":
            mode = r.choice(["info", "node"]); out, ids = [], []
            for k in range(r.choice([0, 1, 2, 5, 20, 100])):
                i = k * 3 + 1 if mode == "node" else r.choice(BIG) if r.random() < 0.5 else r.getrandbits(60)
                at = r.choice([8, 9, 10]) if r.random() < 0.3 else r.choice(BIG)
                v = val(r)
                if r.random() < 0.05: v = "s:" + "L" * r.choice([4000, 5000, 20000])
                par = "-" if r.random() < 0.4 or not ids else str(r.choice(ids))
                if mode == "info" and par != "-": par = str(r.choice(BIG))
                ids.append(i); out.append([i, at, par, v])
            return {"k": kind, "res": r.choice(["-", "0", "1", "10", "100", "5000"]), "mode": mode, "junk": r.choice([0, 0, 1, 5, 100]), "nodes": out}
        if kind == "snaps":
            return {"k": kind, "res": r.choice(["-", "0", "1", "10", "100", "5000"]), "junk": r.choice([0, 0, 1, 5, 100]), "recs": [entries(r, r.choice([0, 1, 2, 4, 5, 9, 30, 120]), r.choice([0.2, 0.5, 0.9])) for _ in range(r.choice([0, 1, 2, 5, 30]))]}
        if kind == "build":
            how = r.choice(["h", "h", "h", "f", "n"]); cap = 0 if how == "n" else r.choice([1, 5]) if how == "f" else r.choice([0, 1, 2, 3, 4, 8, 20, 128])
            pool = entries(r, r.choice([2, 4, 10]), 0.5)
            ops = []
            for _ in range(r.choice([1, 3, 8, 20, 60])):
                w = r.choice("aaimmvrr" + ("z" if how == "f" else ""))
                k = 1 if w in "ar" else 0 if w == "z" else r.choice([0, 1, 2, 4, 10])
                x = [r.choice(pool) if r.random() < 0.95 else "E" for _ in range(k)]
                if w == "i": x = [e for e in x if e[0] == "I"]
                ops.append([w] + x)
            return {"k": kind, "how": how, "cap": cap, "ops": ops}
        if kind == "vl": return {"k": kind, "vals": [r.choice(BIG + [INV, 2**63, 2**63 - 1]) if r.random() < 0.3 else r.getrandbits(r.randrange(1, 65)) for _ in range(30)]}
        if kind == "var": return {"k": kind, "vals": [val(r) for _ in range(20)]}
        return {"k": kind, "vals": entries(r, 20)}

    def run(self, ctx, case):
        d, k = ctx.drv(), case["k"]
        def req(*a):
            out = d.req("pack", *map(str, a))
            if out[0] != "ok": raise Fail("harness: %s" % out[:2])
            return out[1:]
        if k == "rec": return self.rec(req, case)
        if k == "nodes":
            N = case["nodes"]
            if case["mode"] == "node" and (len(set(n[0] for n in N)) < len(N) or any(n[2] != "-" and int(n[2]) not in [m[0] for m in N[:j]] for j, n in enumerate(N))): return None
            if any(not 0 <= n[0] < 2**63 or n[2] not in "-" and int(n[2]) >= 2**63 for n in N): return None
            L = ["/".join(map(str, n)) for n in N]
            out = req("nodes", case["res"], case["mode"], case["junk"], *L)
            for j, w in enumerate((L, L, L + ["77/8/5/s:tail"])):
                f = out[j].split(" ")
                what = ["node buffer", "imported node buffer", "imported node buffer with an appended node"][j]
                if int(f[0]) != len(w): raise Fail("%s: count is %s, expected %d" % (what, f[0], len(w)))
                if f[2:] != w:
                    x = next(x for x in range(max(len(w), len(f) - 2)) if f[2 + x:3 + x] != w[x:x + 1])
                    raise Fail("%s: node %d is %s, expected %s" % (what, x, str(f[2 + x:3 + x])[:300], str(w[x:x + 1])[:300]))
            if out[0] != out[1]: raise Fail("imported node buffer: size differs: %s, %s" % (out[0][:30], out[1][:30]))
            return dict(tags=["nodes", case["mode"]], nontrivial=len(N) > 4, show=L[:10])
        if k == "snaps":
            R = [x for x in case["recs"]]
            if any(len(groups(x)[0]) > 127 or len(groups(x)[1]) > 127 for x in R): return None
            out = req("snaps", case["res"], case["junk"], *[" ".join(x) for x in R])
            for j in (0, 2):
                what = "snapshot buffer" if j == 0 else "imported snapshot buffer"
                if out[j].split()[0] != str(len(R)): raise Fail("%s: count is %s, expected %d" % (what, out[j], len(R)))
                v = out[j + 1].split("\n")[:-1]
                if len(v) != len(R): raise Fail("%s: %d records visited, expected %d" % (what, len(v), len(R)))
                for t, x in zip(v, R): check_view(t, *groups(x), what)
            if out[0] != out[2]: raise Fail("imported snapshot buffer: size differs: %s, %s" % (out[0], out[2]))
            return dict(tags=["snaps", "records%d" % min(len(R), 5)], nontrivial=sum(map(len, R)) > 4, show=R[:3])
        if k == "build":
            cap = case["cap"]
            if case["how"] == "f" and cap not in (1, 5) or case["how"] == "n" and cap or any(o[0] == "i" and any(e[0] != "I" for e in o[1:]) or o[0] not in "aimvrz" or (o[0] == "z" and case["how"] != "f") for o in case["ops"]): return None
            out = req("build", case["how"], cap, *[" ".join(o) for o in case["ops"]])
            have, skip, over = [], 0, False
            for o, got in zip(case["ops"], out):
                if o[0] == "z": have, skip = [], 0
                elif o[0] == "r":
                    for e in o[1:]:
                        for j, h in enumerate(have):
                            if e == h: del have[j]; break
                else:
                    for e in o[1:]:
                        if e == "E" or len(have) >= cap: skip += 1; over = over or e != "E"
                        else: have.append(e)
                w = " ".join([str(len(have)), str(skip), str(cap)] + have)
                if got != w: raise Fail("snapshot builder: after %s it has %s, expected %s (size, skipped, capacity, entries)" % (" ".join(o)[:200], got[:600], w[:600]))
            return dict(tags=["build"] + (["overflow"] if over else []), nontrivial=over or len(case["ops"]) > 4, show=case["ops"][:10])
        if k == "vl":
            for v, got in zip(case["vals"], req("vl", *case["vals"])):
                f = got.split()
                if f[0] != f[1] or int(f[2]) != v or len(f) > 3 or int(f[0]) > 10: raise Fail("integer: %d is encoded in %s bytes and decoded from %s bytes as %s" % (v, f[0], f[1], f[2:]))
            return dict(tags=["integers"], nontrivial=len(case["vals"]) > 4, show=case["vals"][:10])
        bound = 20 if k == "var" else 30
        for v, got in zip(case["vals"], req(k, *case["vals"])):
            f = got.split()
            if f[0] != f[1] or f[2] != v or len(f) > 3 or int(f[0]) > bound: raise Fail("%s: %s is packed in %s bytes and unpacked from %s bytes as %s" % ({"var": "value", "entry": "entry"}[k], v, f[0], f[1], f[2:]))
        return dict(tags=[k], nontrivial=len(case["vals"]) > 4, show=case["vals"][:10])

    def rec(self, req, case):
        es, seq, cap = case["es"], case["seq"], case["cap"]
        p, calls = 0, []
        for s in seq:
            n = int(s[1:]); x = es[p:p + n]; p += n
            if s[0] not in "ein" or len(x) < n or s[0] in "in" and any(e[0] != {"i": "I", "n": "N"}[s[0]] for e in x): return None
            calls.append((s, x))
        if p != len(es): return None
        if cap == "c" and (not es): return None
        nodes, imm = groups(es)
        total = len(nodes) + len(imm)
        def pack(cap, seq, es):
            out = req("rec", cap, " ".join(seq), *es)
            return list(map(int, out[0].split())), out[1:]
        need = pack("1", seq, es)[0][5]
        if case["fit"] is not None and cap not in "c-": cap = str(max(0, need - case["fit"]))
        (ret, nn, ni, skip, size, needed), views = pack(cap, seq, es)
        n = 512 if cap in "c-" else int(cap)
        what = "record in %d bytes (%d needed)" % (n, needed)
        if needed != need: raise Fail("needed length: %d for a buffer of %d bytes, %d for a buffer of one byte" % (needed, n, need))
        if ret != skip: raise Fail("%s: append calls report %d dropped entries in all, the record %d" % (what, ret, skip))
        if nn + ni + skip != total: raise Fail("%s: %d nodes and %d values kept, %d dropped, of %d entries" % (what, nn, ni, skip, total))
        if size > n: raise Fail("%s: its size is %d" % (what, size))
        fits = needed <= n and len(nodes) <= 127 and len(imm) <= 127
        if fits and skip: raise Fail("%s: %d entries dropped although they fit" % (what, skip))
        if n < 2: return dict(tags=["rec", "tiny"], nontrivial=total > 0, show=es[:10])
        if size < 2: raise Fail("%s: its size is %d" % (what, size))
        if int(views[2]) != size: raise Fail("%s: a reader consumes %s bytes of %d" % (what, views[2], size))
        # what is kept: a part of the given entries, in their order
        kn, ki = groups(views[0].split(";")[1].split())
        if not fits:
            if not subseq(kn, nodes) or not subseq(ki, imm): raise Fail("%s: the kept entries %s are not a part of %s" % (what, (kn + ki)[:30], (nodes + imm)[:40]))
            # the first call's entries are kept if they fit
            if calls and cap != "c":
                s, x = calls[0]; fn, fi = groups(x)
                if len(fn) <= 127 and len(fi) <= 127 and pack("1", [s], x)[0][5] <= n and (kn[:len(fn)] != fn or ki[:len(fi)] != fi): raise Fail("%s: the entries of the first append call fit but are not kept: %s" % (what, (kn + ki)[:30]))
        else: kn, ki = nodes, imm
        for v in views[:2]: check_view(v, kn, ki, what)
        return dict(tags=["rec", "overflow" if not fits else "fits"] + (["over127"] if max(len(nodes), len(imm)) > 127 else []) + (["nodes>4"] if len(nodes) > 4 else []), nontrivial=total > 4 or skip > 0, show=dict(cap=cap, seq=seq, entries=es[:12]))
CHECK = C28

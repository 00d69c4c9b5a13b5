"""C12: attributes and the context tree are canonical and persistent."""
from vf.engine import Check, Fail
from vf.driver import enc, dec
from vf.model import *
from checks import rtgen

NAMES = ["a", "b", "foo", "foo.bar", "foo#bar", "x y", "a=b,c", "\u00e4\u00f6", "time.duration", "a.very.long.attribute.name." * 6, "A", "foo ", "0", "region2", "-"]
TY = ["int", "uint", "string", "double", "bool", "addr", "type", "usr"]
PROPN = {"asvalue": 1, "nomerge": 2, "process_scope": 12, "thread_scope": 20, "skip_events": 64, "hidden": 128, "nested": 256}

def val(r, t, big):
    if t in ("string", "usr") and r.random() < 0.35:
        n = r.choice([0, 1, 6, 7, 8, 9, 63, 64, 65, 255, 1000] + ([5000, 65535, 65536, 70000, 200000] if big else []))
        return [t, r.choice("abcxyz") * n + r.choice(["", "1", "2"])]
    v = rtgen.value(r, t)
    return v

class C12(Check):
    id = "C12"
    rule = ("random sequences, on 1-4 threads, of creating attributes (again, with the same or other types, properties and metadata, with property presets and default scopes), looking them up by name and id, creating context paths of 1-600 values "
            "of any type and size up to 200 kB in several ways, and re-reading every attribute and path made before, under varying tree block counts, block sizes and memory pool settings including full ones; "
            "non-trivial: at least one repeated creation and one repeated path, or a full table")
    assumptions = ["the table has room for Caliper's own attributes", "when the context table is full an entry may be missing, but what was created before stays intact"]
    quick, thorough = 3000, 120000

    def gen(self, r, i, tier):
        env = {}
        tight = None
        k = r.random()
        if k < 0.35:
            env["CALI_CONTEXTTREE_NODES_PER_BLOCK"] = str(r.choice([64, 65, 100, 128, 256, 1000, 64]))
            if r.random() < 0.5: env["CALI_CONTEXTTREE_NUM_BLOCKS"] = str(r.choice([2, 3, 5, 9])); tight = "blocks"
        if r.random() < 0.2:
            env["CALI_MEMORY_POOL_SIZE"] = str(r.choice([0, 1, 100, 65536, 100000, 1 << 21]))
            if r.random() < 0.5: env["CALI_MEMORY_CAN_EXPAND"] = "false"; tight = "memory"; env["CALI_MEMORY_POOL_SIZE"] = str(r.choice([4096, 65536, 100000]))
        presets = {}
        if r.random() < 0.2:
            for n in r.sample(["a", "b", "foo", "foo.bar", "time.duration"], 2): presets[n] = r.sample(sorted(PROPN), r.choice([1, 2]))
            env["CALI_CALIPER_ATTRIBUTE_PROPERTIES"] = ",".join("%s=%s" % (n, ":".join(p)) for n, p in presets.items())
        if r.random() < 0.15: env["CALI_CALIPER_ATTRIBUTE_DEFAULT_SCOPE"] = r.choice(["process", "thread"])
        if r.random() < (0.5 if tight else 0.15): env["CALI_SERVICES_ENABLE"] = r.choice(["event,trace", "event,aggregate,timer", "event,aggregate,trace,timer", "event"]); env["CALI_CHANNEL_FLUSH_ON_EXIT"] = "false"
        names = r.sample(NAMES, r.choice([2, 4, 8])) + ["n%d" % k for k in range(r.choice([0, 0, 3, 30, 120]))]
        ops, hs, paths = [], [], []
        nt = r.choice([1, 1, 2, 4])
        for _ in range(r.choice([6, 12, 25, 50] + ([150] if tier != "quick" else []))):
            t, k = r.randrange(nt), r.random()
            if k < 0.4 or not hs:
                h = "H%d" % len(hs)
                ty = r.choice(TY)
                meta = [[x, None] for x in r.sample(hs, min(len(hs), r.choice([0, 0, 0, 1, 2, 3])))]
                p = rtgen.props(r) if r.random() < 0.8 else r.choice([0, 1, 64])
                ops.append(["attr", t, h, r.choice(names), ty, p, meta, r.choice(["attr", "cattr"]), r.randrange(1 << 30)]); hs.append(h)
            elif k < 0.5: ops.append(["find", t, r.choice(names + ["none.such", "region", "cali.caliper.version"])])
            elif k < 0.7:
                n = r.choice([1, 1, 2, 3, 5, 20] + [70, 255, 256, 257, 300, 600] * (1 if r.random() < 0.4 else 0))
                p = ["tree", t, r.choice(hs), n, r.randrange(1 << 30), tier != "quick" or r.random() < 0.3]
                if paths and r.random() < 0.4: p = [p[0], t] + r.choice(paths)[2:]
                if p[0] == "tree": paths.append(p); ops.append(p)
            elif k < 0.85:
                p = ["child", t, [r.choice(hs) for _ in range(r.choice([1, 2, 3, 6, 40]))], r.randrange(1 << 30)]
                ops.append(p)
                if r.random() < 0.4: ops.append(["child", r.randrange(nt)] + p[2:])
            elif k < 0.9: ops.append(["recheck", t])
            elif k < 0.95: ops.append(["regions", t, r.choice([1, 5, 60]), r.randrange(3)])
            elif t: ops.append(["join", t])
        return {"env": env, "presets": presets, "tight": tight, "ops": ops}

    def run(self, ctx, case):
        import random
        env, tight = case["env"], case["tight"]
        L = ["ENV %s %s" % (enc(k), enc(v)) for k, v in env.items()]
        L.append("0 init")
        attrs, handles, checks, seqs, first = {}, {}, [], {}, {}
        default = {"process": 12, "thread": 20}.get(env.get("CALI_CALIPER_ATTRIBUTE_DEFAULT_SCOPE", "thread"), 20)
        stats = {"again": 0, "path_again": 0}
        idreg = {}        # line of the creating op per name
        plist = []        # (line, path) of every path created
        def fmt(seq): return "R=" + "/".join("%s=%s" % (enc(n), canonv(v)) for n, v in seq)
        known = ("region", "cali.caliper.version")
        for o in case["ops"]:
            t = o[1]
            if o[0] == "attr":
                _, _, h, name, ty, p, meta, how, ms = o
                if ty not in TY: continue
                if tight: ty, p, meta, how, ms = first.setdefault(name, (ty, p, meta, how, ms))   # an earlier creation may have failed
                rm = random.Random(ms)
                mv = [(m[0], tuple(val(rm, handles[m[0]][1], False))) for m in meta if m[0] in handles]
                words = []
                for m, v in mv: words += [m, drv_val(*v)]
                L.append("%d %s %s %s %s %d %s" % (t, how, h, enc(name), ty, p, " ".join(words)))
                if name in attrs: stats["again"] += 1
                else:
                    q = p
                    if name in case["presets"]:
                        q = 0
                        for x in case["presets"][name]: q |= PROPN[x]
                    if q & GLOBAL: q = (q & ~60) | PROCESS | UNALIGNED
                    if not q & 60: q |= default
                    attrs[name] = (ty, q, [(handles[m][0], v) for m, v in reversed(mv)])
                handles[h] = (name, attrs[name][0])
                checks.append(("attr", len(L) - 1, name))
            elif o[0] == "find":
                L.append("%d find %s" % (t, enc(o[2])))
                checks.append(("find", len(L) - 1, o[2], o[2] in attrs))
            elif o[0] == "tree":
                if o[2] not in handles: continue
                name, ty = handles[o[2]]
                rv = random.Random(o[4])
                n = min(max(o[3], 1), 2000)
                vs = [tuple(val(rv, ty, bool(o[5]) and k < 5)) for k in range(n)]
                if ty in ("bool", "type", "addr", "double", "uint"): pass
                L.append("%d mktree %s %s" % (t, o[2], " ".join(drv_val(*v) for v in vs)))
                seq = tuple((name, v) for v in vs)
                if seq in seqs: stats["path_again"] += 1
                seqs.setdefault(seq, None)
                checks.append(("path", len(L) - 1, seq))
            elif o[0] == "child":
                hl = [h for h in o[2] if h in handles]
                if not hl: continue
                rv = random.Random(o[3])
                seq = tuple((handles[h][0], tuple(val(rv, handles[h][1], False))) for h in hl)
                L.append("%d mkchild %s" % (t, " ".join("%s %s" % (h, drv_val(*v)) for h, (n, v) in zip(hl, seq))))
                if seq in seqs: stats["path_again"] += 1
                seqs.setdefault(seq, None)
                checks.append(("path", len(L) - 1, seq))
            elif o[0] == "recheck":
                for c in [c for c in checks if c[0] == "path"][-6:]: checks.append(("node", len(L), c[1], c[2])); L.append("%d noderef %d" % (t, c[1]))
            elif o[0] == "regions":
                for k in range(o[2]): L.append("%d rb rr%d" % (t, k))
                L.append("%d ctx" % t); checks.append(("regions", len(L) - 1, o[2], t))
                for k in range(o[2] - 1, -1, -1): L.append("%d re rr%d" % (t, k))
            elif o[0] == "join": L.append("T %d" % o[1]); checks.append(("join", len(L) - 1, o[1]))
        for c in [c for c in checks if c[0] == "path"]: checks.append(("node", len(L), c[1], c[2])); L.append("0 noderef %d" % c[1])
        for n in attrs: L.append("0 find %s" % enc(n)); checks.append(("find", len(L) - 1, n, True))
        L.append("0 allattrs"); checks.append(("all", len(L) - 1))
        res = ctx.drv().run(L)
        R = res.res
        ids, pid, lost, full, absent, frozen = {}, {}, set(), False, set(), {}   # frozen: region tracking has ceased on this thread because the table is full
        for c in checks:
            r = R.get(c[1], "")
            where = "program line %d (%s)" % (c[1], L[c[1]][:100])
            if c[0] == "join": frozen.pop(c[2], None)
            elif c[0] in ("attr", "find"):
                name = c[2]
                if c[0] == "find" and not c[3]:
                    if name in known: continue
                    if r != "none": raise Fail("lookup: %s: attribute %s was not created but was found: %s" % (where, name, r[:200]))
                    continue
                f = r.split(" ", 1)
                if tight and (name in lost or (name not in ids and (r == "none" or r.startswith("18446744073709551615 ")))):
                    lost.add(name); full = True
                    continue
                if len(f) < 2: raise Fail("attribute: %s: got %r for attribute %s" % (where, r, name))
                if r.endswith("MISMATCH"): raise Fail("attribute: %s: lookup by name, id and the C query functions disagree: %s" % (where, r[:300]))
                n, ty, p, meta = parse_attr(f[1])
                want = attrs[name]
                if (n, ty, p) != (name, want[0], want[1]): raise Fail("attribute: %s: attribute is %s, expected %s" % (where, (n, ty, p), (name,) + want[:2]))
                if repr([(a, nv(v)) for a, v in meta]) != repr([(a, nv(v)) for a, v in want[2]]) and not (tight and lost): raise Fail("metadata: %s: attribute metadata is %s, expected %s" % (where, str(meta)[:300], str(want[2])[:300]))
                if name in ids and ids[name] != f[0]: raise Fail("identity: %s: attribute %s has id %s, earlier it had %s" % (where, name, f[0], ids[name]))
                if name not in ids and f[0] in ids.values(): raise Fail("identity: %s: attributes share the id %s" % (where, f[0]))
                ids[name] = f[0]
            elif c[0] == "path":
                seq = c[2]
                if tight and (r == "null" or lost & {n for n, v in seq}): full = True; absent.add(c[1]); continue
                f = r.split(" ", 1)
                want = fmt(seq)
                if len(f) < 2 or canonp(f[1]) != canonp(want): raise Fail("path: %s: path is %s, expected %s" % (where, r[:300], want[:300]))
                if seq in pid and pid[seq] != f[0]: raise Fail("path identity: %s: the same path is node %s, earlier it was node %s" % (where, f[0], pid[seq]))
                if seq not in pid and f[0] in pid.values(): raise Fail("path identity: %s: different paths share node %s" % (where, f[0]))
                pid[seq] = f[0]
            elif c[0] == "node":
                seq = c[3]
                if seq not in pid or c[2] in absent: continue
                if canonp(r) != canonp(fmt(seq)): raise Fail("persistence: %s: path made in line %d now reads %s, expected %s" % (where, c[2], r[:300], fmt(seq)[:300]))
            elif c[0] == "regions":
                got = [v[1] for e in parse_rec(r) if e[0] == "R" for n, v in e[1] if n == "region"]
                want = frozen.get(c[3], ["rr%d" % k for k in range(c[2])])
                if got != want:
                    if tight and c[3] not in frozen and got == want[:len(got)]: full = True; frozen[c[3]] = got
                    elif frozen and default == 12: pass   # regions of a thread that has ceased tracking stay open for all threads
                    else: raise Fail("regions: %s: open regions are %s, expected %s" % (where, got, want))
            elif c[0] == "all":
                names = [l.split(" ")[0] for l in dec(r).split("\n") if l]
                if len(names) != len(set(names)): raise Fail("identity: an attribute name appears twice in the list of all attributes")
                for n in attrs:
                    if enc(n) not in names and n not in lost: raise Fail("lookup: attribute %s is missing from the list of all attributes" % n)
        tags = (["full"] if full else []) + (["tight " + tight] if tight else []) + (["presets"] if case["presets"] else []) + [k for k in env if "POOL" in k or "PER_BLOCK" in k or "SCOPE" in k]
        if stats["again"]: tags.append("repeated attribute")
        if stats["path_again"]: tags.append("repeated path")
        return dict(tags=tags, nontrivial=full or (stats["again"] > 0 and stats["path_again"] > 0), show=[l[:120] for l in L[:30]])

def nv(v): return v
def canonv(v): return drv_val(*v)
def canonp(s):
    """doubles are printed differently by the two sides"""
    if "=d:" not in s: return s
    import re
    return re.sub(r"=d:([^/ ]*)", lambda m: "=d:%r" % float(m.group(1)), s)
CHECK = C12

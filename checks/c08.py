"""C08: event and region filters select exactly the configured events."""
import re
from vf.engine import Check, Fail
from vf.model import *
from vf.rt import World
from checks import rtgen

NAMES = ["a", "b", "c", "foo", "bar", "main", "x y", "l=1,2", "a/b", "", "f", "fo", "ma", "very_long_region_name_0123456789_0123456789_0123456789", "\u00e9"]
REGEX = [("f.*", 0), (".*a.*", 0), ("[a-c]", 0), ("a|bar", 0), ("foo?", 0), (".", 0), ("(a|b)+", 1), (".*ma(in)?", 1), ("x .", 1), ("[^a]*", 0), ("very_.*9", 0), ("l=1,2", 1)]

def word(r, s):
    if s == "" or re.search(r'[\s,()"\\]', s) or r.random() < 0.3: return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return s
def ws(r): return r.choice(["", "", "", " ", "  "])

def spec(r, malformed=False):
    """-> (text, patterns or None when malformed)"""
    pats, parts = [], []
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.random()
        if k < 0.4:
            s = r.choice(NAMES[:9]); pats.append(("m", s)); parts.append(word(r, s))
        else:
            kind = r.choice("msr"); args = []
            for _ in range(r.choice([1, 1, 2])):
                if kind == "r": p, q = r.choice(REGEX); args.append('"%s"' % p if q or r.random() < 0.5 else p); pats.append(("r", p))
                else:
                    s = r.choice(NAMES[:9] + NAMES[10:]) if kind == "m" else r.choice(["a", "f", "fo", "ma", "x ", "very_long", "l=1", "\u00e9"])
                    pats.append((kind, s)); args.append(word(r, s))
            parts.append({"m": "match", "s": "startswith", "r": "regex"}[kind] + ws(r) + "(" + ws(r) + ("," + ws(r)).join(a + ws(r) for a in args) + ")")
    text = ws(r) + ("," + ws(r)).join(p + ws(r) for p in parts)
    if malformed:
        bad = r.choice(["match(a", "startswith(f,ma", "regex(.*", 'regex("[a")', 'regex("(a")', 'regex("*")', "match(a,b startswith(c)"])
        return (text + "," + bad if r.random() < 0.5 else bad), None
    return text, pats

def hit(pats, s):
    for k, p in pats:
        if k == "m" and s == p and p != "": return True
        if k == "s" and s.startswith(p): return True
        if k == "r" and re.fullmatch(p.encode(), s.encode("utf-8", "surrogateescape")): return True
    return False

class Filter:
    def __init__(self, inc, exc, br):
        self.inc, self.exc, self.br, self.depth = inc, exc, br, {}
    def passes(self, v):
        if v[0] != "string": return True
        if self.exc and hit(self.exc, v[1]): return False
        return hit(self.inc, v[1]) if self.inc else True
    def __call__(self, ch, inc, kind, a, v):
        if a.type == "string" and not self.passes(v): return False
        if not self.br: return True
        m = a.type == "string" and hit(self.br, v[1])
        d = self.depth.get(inc, 0)
        if kind == "set": return m or d > 0
        if kind == "begin":
            if m: self.depth[inc] = d + 1
            return m or d > 0
        if d == 0: return False
        if m: self.depth[inc] = d - 1
        return True

class C08(Check):
    id = "C08"
    rule = ("annotation histories on 1-4 threads with 1-4 channels whose trigger list, region level, include and exclude patterns (exact, match, startswith, regex, quoted) and branch filters are generated together with the region names; "
            "each channel's records are compared with those the configuration selects; malformed filters must be reported in the log and filter nothing; "
            "non-trivial: at least one event was selected and at least one rejected")
    assumptions = ["regular expressions are ones on which ECMAScript and Python agree", "set() with a matching value does not open a branch", "a region is inside a branch if a matching region was begun on the same thread while the channel was active"]
    quick, thorough = 5000, 250000

    def gen(self, r, i, tier):
        chans = []
        for k in range(r.choice([1, 1, 2, 3, 4])):
            c, f = {}, {}
            if r.random() < 0.35: c["CALI_EVENT_TRIGGER"] = r.choice(["region", "phase,loop", "region:phase", "at.0,region", "at.1:at.2,comm.region", "none.such", "loop", "nm.a", "iteration#foo,loop"])
            if r.random() < 0.3: c["CALI_EVENT_REGION_LEVEL"] = r.choice(["0", "1", "2", "3", "4", "5", "6", "7", "phase"])
            if r.random() < 0.25: c["CALI_EVENT_ENABLE_SNAPSHOT_INFO"] = r.choice(["false", "true"])
            bad = r.random() < 0.08
            which = r.choice([["inc"], ["exc"], ["br"], ["inc", "exc"], ["inc", "br"], ["exc", "br"], ["inc", "exc", "br"], []])
            for w in which:
                m = bad and r.random() < 0.6
                t, p = spec(r, m)
                c[{"inc": "CALI_EVENT_INCLUDE_REGIONS", "exc": "CALI_EVENT_EXCLUDE_REGIONS", "br": "CALI_EVENT_INCLUDE_BRANCHES"}[w]] = t
                f[w] = p
            chans.append({"cfg": c, "f": f})
        def extra(r, w, t):
            return ["chdeact" if r.random() < 0.5 else "chact", t, "k%d" % r.randrange(len(chans))]
        ops = rtgen.history(r, big=tier != "quick", channels=False, query=0.06, ends=0.42, extra_op=extra, xprob=r.choice([0, 0, 0.05]), proc=0.0)
        ops = [o for o in ops if o[0] != "glob"]
        # the channels are created at some point near the start
        at = r.choice([0, 0, len(ops) // 4, len(ops) // 2])
        return {"ops": ops, "chans": chans, "at": at}

    def run(self, ctx, case):
        w = World()
        w.start()
        nev = [0, 0]
        def mk():
            for k, c in enumerate(case["chans"]):
                ch = w.op_chnew(0, "k%d" % k, True, c["cfg"])
                if not ch: continue
                f = c["f"]
                rbad = any(x in f and f[x] is None for x in ("inc", "exc"))
                flt = Filter(None if rbad else f.get("inc"), None if rbad else f.get("exc"), f.get("br"))
                def fn(ch, inc, kind, a, v, flt=flt):
                    r = flt(ch, inc, kind, a, v)
                    nev[0 if r else 1] += 1
                    return r
                ch.filter = fn
        for i, o in enumerate(case["ops"]):
            if i == min(case["at"], len(case["ops"])): mk()
            w.do(o)
        if not w.channels: mk()
        w.finish()
        res = ctx.drv().run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        nbad = sum(1 for c in case["chans"] for g in (("inc", "exc"), ("br",)) if any(x in c["f"] and c["f"][x] is None for x in g))
        nlog = res.err.count("filter parse error")
        if nbad > nlog: raise Fail("not reported: %d malformed filters, %d messages in the log" % (nbad, nlog))
        if nlog > nbad: raise Fail("false report: %d malformed filters, %d messages in the log: %s" % (nbad, nlog, res.err[:300]))
        tags = sorted({x for c in case["chans"] for x in c["f"]}) + (["malformed"] if nbad else []) + ["channels%d" % len(case["chans"])]
        nr = sum(len(c.recs) for c in w.channels)
        return dict(tags=tags, nontrivial=nr > 0 and (nev[1] > 0 or any(c.trigger or c.level for c in w.channels)), show={"channels": [c["cfg"] for c in case["chans"]], "program": w.lines[:30]})
CHECK = C08

"""C26: runtime settings follow the documented precedence."""
import os, shutil, tempfile
from vf.engine import Check, Fail, Invalid
from vf.driver import enc, dec

SETS = [("vta", ["str", "num", "a_b"]), ("VTB", ["Flag", "list", "x"]), ("vta_a", ["b", "str"]), ("vtc.d", ["k1", "k2"])]
PROFS = ["default", "p1", "p2", "p3", "my profile", "p-4.x", "serial-trace", "runtime-report"]
FILES = ["caliper.config", "a.conf", "b.conf", "c d.conf", "e,f.conf"]

# variables of the pre-defined profiles (not used when the process itself is configured)
XSETS = [("services", ["enable"]), ("timer", ["inclusive_duration", "unit"]), ("recorder", ["filename", "k"])]
def _l(s): return ["l", s.replace(":", ","), s.replace(":", ",").split(",")]
BUILTIN = {
    "serial-trace": {"CALI_SERVICES_ENABLE": _l("event,recorder,timestamp,trace"), "CALI_TIMER_INCLUSIVE_DURATION": ["b", "true", True]},
    "event-trace": {"CALI_SERVICES_ENABLE": _l("event,recorder,timestamp,trace")},
    "thread-trace": {"CALI_SERVICES_ENABLE": ["L", "event:pthread:recorder:timestamp:trace", "event pthread recorder timestamp trace".split()]},
    "flat-function-profile": {"CALI_SERVICES_ENABLE": _l("aggregate,event,report,timestamp"), "CALI_TIMER_INCLUSIVE_DURATION": ["b", "true", True]},
    "runtime-report": {"CALI_SERVICES_ENABLE": _l("aggregate,event,report,timestamp"), "CALI_TIMER_INCLUSIVE_DURATION": ["b", "false", False], "CALI_TIMER_UNIT": ["n", "sec", None]},
    "mpi-msg-trace": {"CALI_SERVICES_ENABLE": _l("event,mpi,recorder,timestamp,trace"), "CALI_RECORDER_FILENAME": ["s", "%mpi.rank%.cali", None]},
}

def var(s, k): return ("CALI_%s_%s" % (s, k)).upper()
VARS = sorted(set(var(s, k) for s, ks in SETS for k in ks))
XVARS = sorted(set(var(s, k) for s, ks in XSETS for k in ks))

def quoted(r, s, seps=""):
    """a spelling of the word s for configuration files and lists"""
    bare = s != "" and not any(c in s for c in " \t\n\v\f\r\"\\" + seps)
    k = r.random()
    if bare and k < 0.6: return s
    if k < 0.85 or s == "": return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return "".join("\\" + c if c in " \t\n\v\f\r\"\\" + seps or r.random() < 0.1 else c for c in s)

def text(r):
    return "".join(r.choice("abcXYZ012_-./=#[]%'") if r.random() < 0.8 else r.choice([" ", ",", ":", '"', "\\", "\t", "\u00e4", "  "]) for _ in range(r.choice([1, 2, 5, 12, 60])))

def value(r):
    """[kind, text]: what the setting's text must read as"""
    k = r.random()
    if k < 0.25: return ["s", r.choice(["", "x", text(r), text(r), text(r), " lead", "trail ", "a=b", "#c"]), None]
    if k < 0.5:
        n = r.choice([0, 1, -1, 42, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**63 - 1, -2**63, 2**63, 2**64 - 1, 2**64, -2**63 - 1, 10**30, r.randrange(-10**6, 10**6), r.getrandbits(r.randrange(1, 70))])
        return ["i", str(n), n]
    if k < 0.65:
        b = r.random() < 0.5
        return ["b", r.choice(["true", "TRUE", "True", "t", "T", "1"] if b else ["false", "FALSE", "False", "f", "F", "0"]), b]
    if k < 0.72: return ["n", r.choice(["yes", "no", "abc", "-", "", "tru", "falsey", "x1", "on", "."]), None]
    if k < 0.8:
        d = r.choice([0.5, -2.25, 1e100, 1e-7, 3.0, r.uniform(-1e3, 1e3)])
        return ["d", "%.17g" % d, d]
    items = [r.choice(["a", "b.c", "loop", "x y", 'q"t', "back\\slash", "p,q", "r:s", text(r).strip() or "z"]) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
    items = [x for x in items if x]
    colon = r.random() < 0.3
    out = []
    for x in items:
        w = quoted(r, x, ",:")
        out.append(r.choice(["", "", " ", "  "]) + w)
    seps = [r.choice([",", ", ", " ,", ":" if colon else ","]) for _ in items]
    s = "".join(w + (seps[j] if j + 1 < len(out) else "") for j, w in enumerate(out)) + r.choice(["", "", " ", ","] if out else ["", " ", ",", ",,"])
    return ["l" if not colon else "L", s, items]

def expected(v, got, what):
    """compares a displayed setting with the value"""
    f = got.split(" ")
    kind, s, x = v
    def bad(how, a, b): raise Fail("%s: %s: read as %s, expected %r" % (how, what, a, b))
    if dec(f[0]) != s: bad("value", repr(dec(f[0])), s)
    d = {t[0]: t[1:] for t in f[1:6]}
    if kind == "i":
        for t, lo, hi in (("i", -2**31, 2**31 - 1), ("l", -2**63, 2**63 - 1), ("u", 0, 2**64 - 1)):
            if t == "u" and x < 0: continue
            w = "1:%d" % x if lo <= x <= hi else "0"
            if d[t] != w: bad("integer", t + d[t], w)
        if 0 <= x < 2**64 and d["b"] != "1:%d" % (x != 0): bad("boolean", d["b"], x != 0)
        if d["d"][:2] != "1:" or float(d["d"][2:]) != float(x): bad("number", d["d"], float(x))
    elif kind == "b":
        if d["b"] != "1:%d" % x: bad("boolean", d["b"], x)
    elif kind == "n":
        for t in "bilud":
            if d[t] != "0": bad("invalid text", t + d[t], "an error")
    elif kind == "d":
        if d["d"][:2] != "1:" or float(d["d"][2:]) != x: bad("number", d["d"], x)
    elif kind in "lL":
        for j in ((0, 1) if kind == "l" else (1,)):
            g = [dec(y) for y in f[6 + j][1:].split(",") if y]
            if g != x: bad("list", repr(g), x)

class C26(Check):
    id = "C26"
    rule = ("random settings of the same few variables in built-in defaults, pre-defined profiles, pre-sets, up to five configuration files (existing or not, several profiles, profiles declared in several places and files, repeated definitions, comments, quoting), profile selection at each level, environment, set and import calls, with environment reads on or off, for 1-3 interleaved configuration objects or for the process and its channels; texts, integers, booleans, floating point numbers and lists of any content; "
            "the value read for every variable is compared with the documented precedence; non-trivial: a variable is defined by at least two sources")
    assumptions = ["calls that change settings precede the first read of the settings they affect", "numbers are followed by no other text"]
    quick, thorough = 16000, 500000

    def gen(self, r, i, tier):
        prog = r.random() < 0.15
        x = not prog and r.random() < 0.3
        live = r.sample(VARS, r.choice([1, 2, 4])) + (r.sample(XVARS, r.choice([1, 2, 3])) if x else [])
        PROFS = list(globals()["PROFS"]) + (list(BUILTIN) if x else [])
        SETS = globals()["SETS"] + (XSETS if x else [])
        def v(): return value(r)
        files = []
        for n in r.sample(FILES, r.choice([0, 1, 1, 2, 3])):
            lines = []
            for _ in range(r.choice([0, 1, 4, 8, 20])):
                k = r.random()
                if k < 0.6: x = v(); lines.append(["v", r.choice(live), x, quoted(r, x[1])])
                elif k < 0.66: lines.append(["v", "CALI_CONFIG_PROFILE", *self.names(r, PROFS)])
                elif k < 0.86: lines.append(["p", r.choice(PROFS), r.choice(["# [%s]", "# [%s]", "#[%s]", "# [%s] "])])
                elif k < 0.93: lines.append(["c", r.choice(["# comment", "#", "#   %s=7" % r.choice(live), "# ]x[", "# a [ b", ""])])
                else: lines.append(["c", r.choice(["no assignment", "=x", " ", "%s" % r.choice(live), "%s =1" % r.choice(live), "x%s=1" % r.choice(live), "%s=1" % r.choice(live).lower()])])
            if any("\n" in l[3] or "\r" in l[3] for l in lines if l[0] == "v"): continue
            files.append([n, lines])
        def spec(kinds):
            out = {}
            for x in live:
                if r.random() < 0.6: out[x] = v()
            if r.random() < 0.3: out["CALI_CONFIG_PROFILE"] = self.names(r, PROFS)[0]
            if r.random() < 0.4: out["CALI_CONFIG_FILE"] = self.names(r, FILES)[0]
            return [[a, b] for a, b in out.items()]
        env = [[k, x] for k, x in spec(0) if "\0" not in x[1]] if r.random() < 0.7 else []
        objs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            sets = []
            of = [x for x in SETS if any(var(x[0], k) in live for k in x[1])]
            for s, ks in r.sample(of if r.random() < 0.8 else SETS, r.choice([1, 2, 3]) if len(of) > 2 else 1):
                sets.append([s, [[k, v()] for k in sorted(ks, key=lambda k: (var(s, k) not in live, r.random()))[:r.randrange(1, len(ks) + 1)]], r.choice(["init", "inite"])])
            objs.append({"env": r.choice([None, True, False]), "pre": spec(0) if r.random() < 0.6 else [], "set": spec(0) if r.random() < 0.6 else [], "late": [[k, x] for k, x in spec(0) if not k.startswith("CALI_CONFIG")] if r.random() < 0.3 else [], "sets": sets})
        return {"prog": prog, "files": files, "env": env, "objs": objs, "imp": r.random() < 0.5, "mix": r.getrandbits(30)}

    def names(self, r, pool):
        l = [r.choice(pool + ["nofile"]) if r.random() < 0.95 else "x y" for _ in range(r.choice([1, 1, 1, 2, 3]))]
        s = r.choice([",", ", "]).join(quoted(r, x, ",") for x in l)
        return ["l", s, l], quoted(r, s)

    # ---- model
    def resolve(self, case, o, default_env):
        readenv = o["env"] if o["env"] is not None else default_env
        env = dict((k, v) for k, v in case["env"]) if readenv else {}
        top, pre = dict(map(tuple, o["set"])), dict(map(tuple, o["pre"]))
        files = {f[0]: f[1] for f in case["files"]}
        def pick(k, *maps):
            for m in maps:
                if k in m: return m[k]
        v = pick("CALI_CONFIG_FILE", top, env, pre)
        prof = {k: dict(m) for k, m in BUILTIN.items()}
        for n in (v[2] if v else ["caliper.config"]):
            cur = "default"
            for l in files.get(n, []):
                if l[0] == "p": cur = l[1]
                elif l[0] == "v": prof.setdefault(cur, {})[l[1]] = l[2]
        base = dict(pre); base.update(prof.get("default", {}))
        sel = pick("CALI_CONFIG_PROFILE", top, env, base)
        for p in (sel[2] if sel else ["default"]): base.update(prof.get(p, {}))
        nsrc = lambda k: sum(k in m for m in (top, env, prof.get("default", {}), pre)) + sum(k in m for n, m in prof.items() if n != "default")
        return top, env, base, nsrc

    def run(self, ctx, case):
        if any(l[0] == "v" and len(l) < 4 or len(l) < 2 for f in case["files"] for l in f[1]): return None
        if not all(isinstance(x, list) and len(x) == 3 for f in case["files"] for l in f[1] if l[0] == "v" for x in [l[2]]): return None
        d = ctx.drv()
        if case["prog"]: # a channel's settings are one map
            case = dict(case, objs=[o if j == 0 else dict(o, set=[x for x in o["pre"] if x[0] not in [y[0] for y in o["set"]]] + o["set"], pre=[], late=[], env=bool(o["env"])) for j, o in enumerate(case["objs"])])
        import random as _r
        r = _r.Random(case["mix"])
        files = {n: "".join((l[1] + "=" + l[3] if l[0] == "v" else l[2] % l[1] if l[0] == "p" else l[1]) + "\n" for l in ls) for n, ls in case["files"]}
        # command lists per object: before, late settings, reads
        per = []
        for j, o in enumerate(case["objs"]):
            cmds, late = [], dict(map(tuple, o["late"]))
            pre = [["pre", k, v[1]] for k, v in o["pre"]]; st = [["set", k, v[1]] for k, v in o["set"]]
            if case["imp"] and st: st = [["imp"] + [y for x in st for y in x[1:]]]
            head = pre + st
            if o["env"] is not None: head.insert(r.randrange(len(head) + 1), ["env", "01"[o["env"]]])
            reads = []
            seen = set()
            for s, ks, how in o["sets"]:
                if len(set(k for k, _ in ks)) < len(ks) or not ks or s in seen or any(len(k) != 2 or len(k[1]) != 3 for k in ks): return None
                seen.add(s)
                reads.append([how, s] + [y for k, v in ks for y in (k, v[1])])
            per.append((head, late, reads))
        # expected values: late settings apply to sets read after them
        seqs = []
        for j, (head, late, reads) in enumerate(per):
            o = case["objs"][j]
            chan = case["prog"] and j > 0
            if case["prog"] and not chan: late = {}
            top, env, base, nsrc = self.resolve(case, o, not chan)
            seq = [(c, None) for c in head]
            at = r.randrange(1, len(reads) + 1) if late and reads and not chan else None
            for k, (s, ks, how) in enumerate(o["sets"]):
                if at == k:
                    seq += [(["set", a, b[1]], None) for a, b in late.items()]; top = {**top, **late}
                want = []
                for key, dv in ks:
                    x = var(s, key)
                    want.append((x, top.get(x) or env.get(x) or base.get(x) or dv))
                seq.append((reads[k], want))
                if r.random() < 0.3: seq.append((["get", s, ks[0][0]], [want[0]]))
                if r.random() < 0.1: seq.append((["get", "nosuchset", "x"], []))
            if r.random() < 0.2: seq.append((["print"], [w for _, ws in seq if ws and _[0].startswith("init") for w in ws]))
            seqs.append(seq)
        if case["prog"]: out, order = self.program(d, case, seqs, files)
        else:
            order = []
            idx = [0] * len(seqs)
            while any(idx[j] < len(seqs[j]) for j in range(len(seqs))):
                j = r.choice([j for j in range(len(seqs)) if idx[j] < len(seqs[j])]); order.append((j, idx[j])); idx[j] += 1
            tmp = tempfile.mkdtemp(prefix="cf", dir=d.dir)
            try:
                for n, t in files.items():
                    with open(os.path.join(tmp, n), "wb") as f: f.write(t.encode("utf-8", "surrogateescape"))
                e = [y for k, v in case["env"] for y in (k, v[1])]
                rr = d.req("conf", tmp, str(len(e) // 2), *e, *["%d %s" % (j, " ".join(enc(x) or "%" for x in seqs[j][k][0])) for j, k in order])
            finally: shutil.rmtree(tmp, ignore_errors=True)
            if rr[0] != "ok": raise Fail("harness: %s" % rr[:1])
            out = rr[1:]
        two = 0
        for (j, k), got in zip(order, out):
            c, want = seqs[j][k]
            if want is None: continue
            who = "object %d" % j if not case["prog"] else "process" if j == 0 else "channel %d" % j
            if c[0] == "print":
                t = dec(got)
                for x, v in want:
                    if x + "=" + v[1] + "\n" not in t: raise Fail("print: %s: the settings list does not have %s=%s: %s" % (who, x, v[1], t[:500]))
                continue
            g = got.split(";")
            if c[0] == "get" and not want: want = [("no such setting", ["n", "", None])]
            elif c[0] != "get": want = want + [("no_such_key", ["n", "", None])]
            if len(g) != len(want): raise Fail("harness: %s %s" % (c, got))
            for (x, v), y in zip(want, g): expected(v, y, "%s: %s" % (who, x))
        ns = set()
        for j, o in enumerate(case["objs"]):
            _, env, _, nsrc = self.resolve(case, o, True)
            for s, ks, how in o["sets"]:
                for k, _ in ks: ns.add(min(nsrc(var(s, k)), 4))
        tags = ["sources%d" % max(ns | {0}), "prog" if case["prog"] else "objects%d" % len(seqs)] + (["files"] if files else []) + (["env"] if case["env"] else [])
        return dict(tags=tags, nontrivial=max(ns | {0}) >= 2, show=dict(files={n: t[:300] for n, t in files.items()}, env=case["env"], objects=case["objs"][:2]))

    def program(self, d, case, seqs, files):
        lines, order, pos = [], [], {}
        def emit(tok, jk=None):
            lines.append(" ".join(tok))
            if jk: order.append(jk); pos[jk] = len(lines) - 1
        for k, v in case["env"]: emit(["ENV", enc(k)] + ([enc(v[1])] if v[1] else []))
        for k, (c, want) in enumerate(seqs[0]):
            if want is None:
                if c[0] == "imp":
                    for a, b in zip(c[1::2], c[2::2]): emit(["0", "cfgset", enc(a), enc(b) or "%"])
                elif c[0] == "env": emit(["0", "readenv", c[1]])
                else: emit(["0", {"pre": "cfgpreset", "set": "cfgset"}[c[0]], enc(c[1]), enc(c[2]) or "%"])
            else: emit(["0", "rtcfg", "default"] + [enc(x) or "%" for x in c], (0, k))
        for j in range(1, len(seqs)):
            o = case["objs"][j]
            emit(["0", "chnew", "c%d" % j, "2" if o["env"] else "0"] + [y for k, v in o["set"] for y in (enc(k), enc(v[1]) or "%")])
        live = [(j, k) for j in range(1, len(seqs)) for k in range(len(seqs[j])) if seqs[j][k][1] is not None]
        for j, k in live: emit(["0", "rtcfg", str(j - 1)] + [enc(x) or "%" for x in seqs[j][k][0]], (j, k))
        res = d.run(lines, files=files)
        return [res.res.get(pos[jk], "") for jk in order], order
CHECK = C26

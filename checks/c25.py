"""C25: configuration strings are parsed or rejected exactly."""
import json, random
from vf.engine import Check, Fail, Invalid
from vf.driver import enc, dec

SERV = ["event", "trace", "timer", "aggregate"]
TRUE, FALSE = ["true", "TRUE", "t", "T", "1", "True"], ["false", "f", "F", "0", "FALSE"]
CATS = ["output", "vcat1", "vcat2"]
CFGN = ["vcfg", "v-report.x", "my cfg", "valias", "Vc2"]
OPTN = ["vo1", "vo.2", "v_o-3", "opt four", "bopt", "level.x", "iopt"]
BUILTIN = ["runtime-report", "event-trace", "runtime-profile", "hatchet-region-profile", "loop-report"]

def word(r, s, force=False):
    """a spelling of a word of a configuration string"""
    special = s == "" or any(c in s for c in ' \t\n,=()"\\')
    k = r.random()
    if not special and (k < 0.85 or force): return s
    if k < 0.7 or s == "": return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return "".join("\\" + c if c in ' \t\n,=()"\\' or r.random() < 0.05 else c for c in s)

def text(r, nested=False):
    a = "abcXY019_-./:%+*[]{}"
    return "".join(r.choice(a) if r.random() < 0.85 else r.choice(" ,=" if nested else " ,=()\"\\\t\u00e4") for _ in range(r.choice([1, 1, 3, 8, 25]))).strip() or "w"

def js(r, x, lvl=0):
    """JSON text with arbitrary layout"""
    def sp(): return r.choice(["", "", " ", "\n  ", "\t"])
    if isinstance(x, dict): return "{" + sp() + ("," ).join(sp() + js(r, k) + sp() + ":" + sp() + js(r, v) + sp() for k, v in x.items()) + "}"
    if isinstance(x, list): return "[" + sp() + ",".join(sp() + js(r, v) + sp() for v in x) + "]"
    if isinstance(x, str): return '"' + x.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return json.dumps(x)

class C25(Check):
    id = "C25"
    rule = ("random configuration and option specifications (services, settings, option categories, types, inheritance, defaults, aliases) given as specs or files, and histories of add, check, default-parameter and load calls with random derivations of the configuration string grammar (random spelling and white space, options at every level, metadata, files, extra pairs), also through CALI_CONFIG and with one error of a known kind injected or random characters changed; "
            "created channels, their settings, options and metadata, extra pairs and error states are compared with a model; non-trivial: at least one channel with options, or an injected error")
    assumptions = ["option inheritance is acyclic", "no argument is given twice in one list"]
    quick, thorough = 5000, 150000

    def gen(self, r, i, tier):
        nopt = r.sample(OPTN, r.choice([0, 2, 4, 6]))
        def opt(n, pool):
            k = r.random()
            o = {"name": n, "type": "bool" if n.startswith("bopt") or k < 0.5 else r.choice(["string", "int"]), "description": "d"}
            if r.random() < 0.4: o["services"] = r.sample(SERV, r.choice([0, 1, 2]))
            if r.random() < 0.6: o["config"] = {"VC_%s" % "".join(c if c.isalnum() else "_" for c in n): r.choice(["x", "{}", "a{}b", "{}{}", "{ y", "}", "c,d"]) for _ in range(1)}
            if pool and r.random() < 0.3: o["inherit"] = r.sample(pool, r.choice([1, 1, min(2, len(pool))])) if r.random() < 0.7 or " " in pool[0] else pool[0]
            if r.random() < 0.2: o["query"] = r.choice([{"local": "select sum(x)"}, {}])
            return o
        glob, prev = [], []
        for n in nopt[:len(nopt) // 2]: glob.append(dict(opt(n, prev), category=r.choice(CATS))); prev.append(n)
        cfgs = []
        for n in r.sample(CFGN[:3] + CFGN[4:], r.choice([1, 1, 2, 3])):
            c = {"name": n, "services": r.sample(SERV, r.choice([0, 1, 2, 3]))}
            if r.random() < 0.3: c["alias"] = [CFGN[3] + str(len(cfgs))]
            if r.random() < 0.7: c["categories"] = r.sample(CATS, r.choice([1, 2, 3]))
            if r.random() < 0.5: c["config"] = {k: text(r) for k in r.sample(["VC_a", "VC_b", "VC_vo1"], r.choice([0, 1, 2]))}
            own, p = [], []
            for m in nopt[len(nopt) // 2:]:
                if r.random() < 0.7: own.append(opt(m, p)); p.append(m)
            if own or r.random() < 0.3: c["options"] = own
            if r.random() < 0.4 and nopt: c["defaults"] = {m: self.oval(r, m, cfgs, own, glob) for m in r.sample(nopt, 1)}
            cfgs.append(c)
        how = r.choice(["spec", "spec", "file1", "list", "object", "loadcmd"])
        nm = [0]
        def metas():
            out = []
            for _ in range(r.choice([1, 2])): nm[0] += 1; out.append(["md%d" % nm[0], text(r, True)])
            return out
        def meta():
            if r.random() < 0.3:
                nm[0] += 1
                d = {"mf%d" % nm[0]: r.choice([text(r, True), 42, 1.5, True, {"a": "x", "b": {"c": 7}}, [1, 2]]), "mg%d" % nm[0]: "v"}
                return {"t": "meta", "file": "m%d.json" % nm[0], "json": d, "keys": r.choice([None, list(d)[:1], ["nokey%d" % nm[0], list(d)[1]]] + ([[list(d)[0] + ".b"]] if isinstance(list(d.values())[0], dict) else []))}
            return {"t": "meta", "kv": metas()}
        calls = []
        allopt = glob + [o for c in cfgs for o in c.get("options", [])]
        usedpar = set()
        for _ in range(r.choice([1, 1, 2, 3])):
            if r.random() < 0.25 and nopt:
                m = r.choice(nopt + ["output"])
                k = r.choice(["dflt", "dfltc"])
                if (k, m) not in usedpar:
                    usedpar.add((k, m)); usedpar.add(("par", m))
                    v = self.oval(r, m, cfgs, allopt, [])
                    calls.append({"op": k, "key": m, "val": v, "cfg": r.choice(cfgs)["name"]})
                continue
            items = []
            extra = r.random() < 0.2
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                k = r.random()
                if k < 0.08:
                    n = r.choice(BUILTIN)
                    items.append({"t": "cfg", "name": n, "args": [["output", text(r)]] if n in BUILTIN[:2] and r.random() < 0.5 else []})
                elif k < 0.6:
                    c = r.choice(cfgs)
                    vis = [o["name"] for o in c.get("options", [])] + [o["name"] for o in glob if o["category"] in c.get("categories", [])] + (["output"] if "output" in c.get("categories", []) else [])
                    args = []
                    for m in r.sample(sorted(set(vis)), min(len(set(vis)), r.choice([0, 1, 2, 4]))):
                        v = self.oval(r, m, [c], c.get("options", []), glob)
                        args.append([m, None if v == "true" and r.random() < 0.6 else v])
                    if r.random() < 0.15: args.append(meta())
                    items.append({"t": "cfg", "name": r.choice(c["alias"]) if "alias" in c and r.random() < 0.4 else c["name"], "args": args})
                elif k < 0.7: items.append(meta())
                elif k < 0.85 and nopt:
                    m = r.choice(nopt + ["output"])
                    if ("par", m) in usedpar or not (m == "output" or any(o["name"] == m for o in allopt)): continue
                    usedpar.add(("par", m)); usedpar.add(("dflt", m))
                    v = self.oval(r, m, cfgs, allopt, [])
                    items.append({"t": "par", "key": m, "val": None if v == "true" and r.random() < 0.6 else v})
                elif k < 0.92 and extra: items.append({"t": "extra", "key": r.choice(["foo", "x.y", "some key", "zz"]), "val": r.choice([None, text(r)])})
            calls.append({"op": "addx" if extra else "add", "items": items})
        err = r.choice(["unknowncfg", "unknownopt", "badbool", "novalue", "noclose", "extraclose", "junk", "trailing", "eqfirst", "loadmissing", "loaddir", "loadbad", "unavailable", "unavailcfg", "emptyquoted"]) if r.random() < 0.35 else None
        mut = None
        if err is None and r.random() < 0.2: mut = [[r.randrange(0, 200), r.choice(["del", "ins", "rep"]), r.choice("(),=\"\\ a\n{}[]\t-")] for _ in range(r.choice([1, 1, 2, 5]))]
        return {"glob": glob, "cfgs": cfgs, "how": how, "calls": calls, "err": err, "mut": mut, "env": r.random() < 0.12, "mix": r.getrandbits(30)}

    def oval(self, r, m, cfgs, own, glob):
        t = [o["type"] for o in list(own) + list(glob) + [x for c in cfgs for x in c.get("options", [])] if o["name"] == m]
        if "bool" in t: return r.choice(TRUE + FALSE + ["true"] * 3)
        return r.choice([text(r), text(r), "42", "true", "a b", "x=y,z", "(p)"])

    # ---- rendering
    def render(self, r, items):
        def sp(): return r.choice(["", "", "", " ", "  ", "\t", "\n"])
        def kv(k, v):
            if v is None: return word(r, k) + sp()
            if r.random() < 0.25 and v and v == v.strip() and not any(c in v for c in '"\\()'): return word(r, k) + sp() + "(" + v + ")" + sp()
            return word(r, k) + sp() + "=" + sp() + word(r, v) + sp()
        def meta(m):
            if "file" in m: body = "file" + sp() + "=" + m["file"] + ("," + sp() + "keys=" + word(r, ",".join(m["keys"])) if m["keys"] else "")
            else: body = ("," + sp()).join(sp() + k + sp() + "=" + sp() + '"' + v + '"' + sp() for k, v in m["kv"])
            return "metadata" + sp() + "(" + sp() + body + sp() + ")" + sp()
        out = []
        for it in items:
            if it["t"] == "cfg":
                s = word(r, it["name"]) + sp()
                if it["args"] or r.random() < 0.2: s += "(" + sp() + ("," + sp()).join(sp() + (meta(a) if isinstance(a, dict) else kv(a[0], a[1])) for a in it["args"]) + ")" + sp()
            elif it["t"] == "meta": s = meta(it)
            elif it["t"] == "load": s = "load" + sp() + "(" + sp() + ("," + sp()).join(word(r, f) + sp() for f in it["files"]) + ")" + sp()
            elif it["t"] == "raw": s = it["s"]
            else: s = kv(it["key"], it["val"])
            out.append(sp() + s)
        return ",".join(out)

    # ---- model
    def metadata(self, m):
        if "kv" in m: return dict(map(tuple, m["kv"]))
        def flat(k, v):
            if isinstance(v, dict):
                o = {}
                for a, b in v.items(): o.update(flat(k + "." + a, b))
                return o
            return {k: v if isinstance(v, str) else json.dumps(v)}
        out = {}
        for k in m["keys"] or list(m["json"]):
            v = m["json"]
            for p in k.split("."):
                if not isinstance(v, dict) or p not in v: v = None; break
                v = v[p]
            if v is not None: out.update(flat(k, v))
        return out

    def channel(self, case, c, args, state):
        """-> (config, options, metadata, error)"""
        vis = {o["name"]: o for o in case["glob"] if o["category"] in c.get("categories", [])}
        if "output" in c.get("categories", []): vis["output"] = {"name": "output", "type": "string"}
        vis.update({o["name"]: o for o in c.get("options", [])})
        md, lst = {}, []
        for a in args:
            if isinstance(a, dict): md.update(self.metadata(a))
            else: lst.append((a[0], "true" if a[1] is None else a[1]))
        for m in state["md"]: md.update(m)
        for more in (state["dfltc"].get(c["name"], []), state["par"], list(c.get("defaults", {}).items())):
            for k, v in more:
                if k not in [x[0] for x in lst]: lst.append((k, v))
        vals = dict(lst)
        for k, v in lst:
            if k in vis and vis[k]["type"] == "bool" and v.lower() not in ("true", "t", "false", "f") and not v.isdigit(): return None, None, None, "bad value"
        def inh(n):
            out = []
            x = vis.get(n, {}).get("inherit", [])
            for y in [x] if isinstance(x, str) else x:
                out += inh(y) + [y]
            return out
        on = []
        for k, v in lst:
            if k not in vis: continue
            if vis[k]["type"] == "bool" and (v.lower() in ("false", "f") or v.isdigit() and int(v) == 0): continue
            on += [k] + inh(k)
        on = [k for j, k in enumerate(on) if k not in on[:j] and k in vis]
        cfg = dict(c.get("config", {}))
        serv = set(c["services"])
        if "output" in vals:
            for x in ("RECORDER", "REPORT", "MPIREPORT"): cfg["CALI_%s_FILENAME" % x] = vals["output"]
        for k in on:
            serv |= set(vis[k].get("services", []))
            for a, b in vis[k].get("config", {}).items(): cfg[a] = b.replace("{}", vals[k]) if k in vals else b
        if any(s not in SERV for s in serv): return None, None, None, "unavailable"
        return (cfg, sorted(serv)), {k: vals[k] for k in vals if k in vis}, md, None

    def run(self, ctx, case):
        r = random.Random(case["mix"])
        cfgs, glob = case["cfgs"], case["glob"]
        names = [c["name"] for c in cfgs] + [a for c in cfgs for a in c.get("alias", [])]
        if len(set(names)) < len(names) or not all(n and n == n.strip() for n in names) or len(set(o["name"] for o in glob)) < len(glob): return None
        if any(n not in CFGN and n[:6] != "valias" for n in names): return None
        for c in cfgs:
            on = [o["name"] for o in c.get("options", [])]
            if len(set(on)) < len(on) or any(n not in OPTN for n in on) or any(s not in SERV for s in c["services"]): return None
        allo = glob + [o for c in cfgs for o in c.get("options", [])]
        if any(o["name"] not in OPTN for o in glob) or any(s not in SERV for o in allo for s in o.get("services", [])): return None
        if any(o["category"] not in CATS for o in glob) or any(o["type"] not in ("bool", "string", "int") for o in allo): return None
        if any(k[:3] != "VC_" for x in allo + cfgs for k in x.get("config", {})): return None
        if any(len(set(x.get(k, []))) < len(x.get(k, [])) for x in cfgs for k in ("services", "categories")): return None
        optnames = set(o["name"] for o in allo) | {"output"}
        err, mut = case["err"], case["mut"]
        if case["how"] not in ("spec", "file1", "list", "object", "loadcmd"): return None
        for c in case["calls"]:
            if c["op"] not in ("add", "addx", "dflt", "dfltc"): return None
            for it in c.get("items", []) + [a for x in c.get("items", []) if x["t"] == "cfg" for a in x["args"] if isinstance(a, dict)]:
                if it["t"] not in ("cfg", "par", "meta", "extra"): return None
                if "kv" in it and any(len(x) != 2 or x[0][:2] != "md" for x in it["kv"]): return None
        files, prog, pre = {}, [], []
        extra_cfg, extra_glob = [], []
        if err == "unavailcfg": extra_cfg = [{"name": "unavail", "services": ["event", "nosuchservice"]}]
        if err == "unavailable": extra_glob = [{"name": "needsit", "type": "bool", "category": "vcat1", "services": ["nosuchservice"]}]; extra_cfg = [{"name": "needer", "services": [], "categories": ["vcat1"]}]
        specs, opts = cfgs + extra_cfg, glob + extra_glob
        how = case["how"]
        env = case["env"] and not mut
        if env: how = "loadcmd"
        load = None
        if how in ("spec", "file1"):
            for j, c in enumerate(specs):
                if how == "file1": files["cfg%d.json" % j] = js(r, c); pre.append(["load", "cfg%d.json" % j])
                else: pre.append(["spec", js(r, c)])
            if opts: pre += [["ospec", js(r, opts)]] if r.random() < 0.5 else [["ospec", js(r, o)] for o in opts]
        elif how == "list":
            files["cfgs.json"] = js(r, specs); pre.append(["load", "cfgs.json"])
            for o in opts: pre.append(["ospec", js(r, o)])
        else:
            files["all.json"] = js(r, {"options": opts, "configs": specs}); 
            if how == "object": pre.append(["load", "all.json"])
            else: load = {"t": "load", "files": ["all.json"]}
        # calls
        calls = [dict(c) for c in case["calls"]]
        if env:
            calls = [c for c in calls if c["op"] in ("add",)][:1]
        for c in calls:
            if "items" in c: c["items"] = [dict(x) for x in c["items"]]
        if not any("items" in c for c in calls): return None
        first = next(c for c in calls if "items" in c)
        if load: first["items"].insert(0, load)
        last = [c for c in calls if "items" in c][-1]
        if err:
            calls = calls[:calls.index(last) + 1]
            pos = r.randrange((1 if load and last is first else 0), len(last["items"]) + 1)
            c0 = cfgs[0]["name"]
            raw = {"unknowncfg": ["nosuchcfg", "nosuchcfg=3", "nosuchcfg(a=b)", word(r, c0) + "x"], "unknownopt": [word(r, c0) + "(nosuchopt)", word(r, c0) + "(nosuchopt=1)", word(r, c0) + " ( nosuchopt ( x ) )"], "novalue": [word(r, c0) + "(metadata=)", "output=", "metadata= ", "output = ,output2"],
                   "noclose": [word(r, c0) + "(", word(r, c0) + "(metadata(a=b)", "metadata(a=b", "load(all.json", word(r, c0) + "(metadata(a=(b)"], "extraclose": [word(r, c0) + ")", word(r, c0) + "())", "metadata(a=b))", "output=x)"], "junk": [word(r, c0) + " garbage", word(r, c0) + "() x", word(r, c0) + "=x", "output=x y", "output=x=y", "output=x(y)"],
                   "eqfirst": ["=x", "=", "(x)", "()"], "loadmissing": ["load(nosuchfile.json)"], "loaddir": ["load(.)", "load(sub/../.)"], "loadbad": ["load(bad.json)", "load"], "unavailable": ["needer(needsit)", "needer ( needsit = true )"], "unavailcfg": ["unavail", "unavail()"], "emptyquoted": ['output=""', "output = \"\" ", 'metadata=""'], "badbool": None}
            if err == "trailing": last["items"].append({"t": "raw", "s": r.choice(["", " "])}); last["items"] = last["items"] if len(last["items"]) > 1 else [{"t": "cfg", "name": c0, "args": []}] + last["items"]
            elif err == "badbool":
                cand = [(c, o["name"]) for c in cfgs for o in c.get("options", []) if o["type"] == "bool"]
                if not cand: return None
                c, o = cand[r.randrange(len(cand))]; bad = r.choice(["maybe", "yes", "on", "tru", "-", "x1"])
                last["items"].insert(pos, {"t": "raw", "s": "%s(%s=%s)" % (word(r, c["name"]), word(r, o), bad)})
            else:
                s = r.choice(raw[err])
                if err == "noclose": pos = len(last["items"])
                last["items"].insert(pos, {"t": "raw", "s": s})
                if err == "junk" and s.startswith("output"): pass
            bads = [["x"], {"options": [{"category": "a"}]}, {"configs": [{"description": "no name"}]}, [{"name": "q", "config": 5}], {"configs": [{"name": cfgs[0]["name"]}]}]
            files["bad.json"] = "garbage" if r.random() < 0.2 else json.dumps(r.choice(bads))
            if err in ("unknowncfg", "eqfirst", "trailing", "unavailcfg"): last["op"] = "add"
        for c in calls:
            for it in c.get("items", []) + [a for x in c.get("items", []) if x["t"] == "cfg" for a in x["args"] if isinstance(a, dict)]:
                if it["t"] == "meta" and "file" in it:
                    if any(k == "" for k in it["json"]): return None
                    files[it["file"]] = js(r, it["json"])
                    if it["keys"] is not None and not it["keys"]: return None
                if it["t"] == "meta" and "kv" in it and any(not v or v != v.strip() or '"' in v for k, v in it["kv"]): return None
                if it["t"] in ("par", "extra") and it["val"] == "": return None
                if it["t"] == "par" and it["key"] not in optnames or it["t"] == "extra" and (it["key"] in optnames or it["key"] in names + ["load", "metadata", ""]): return None
            for it in c.get("items", []):
                if it["t"] != "cfg": continue
                ks = [a[0] for a in it["args"] if isinstance(a, list)]
                if it["name"] in BUILTIN:
                    if it["args"] and (it["name"] not in BUILTIN[:2] or len(it["args"]) > 1 or it["args"][0][0] != "output" or not it["args"][0][1]): return None
                    continue
                if it["name"] not in names or len(set(ks)) < len(ks) or any(len(a) != 2 or a[1] == "" for a in it["args"] if isinstance(a, list)): return None
                cc = next(c for c in cfgs if it["name"] == c["name"] or it["name"] in c.get("alias", []))
                vis = [o["name"] for o in cc.get("options", [])] + [o["name"] for o in glob if o["category"] in cc.get("categories", [])] + (["output"] if "output" in cc.get("categories", []) else [])
                if any(k not in vis for k in ks): return None
        mdn = [k for c in calls for it in c.get("items", []) + [a for x in c.get("items", []) if x["t"] == "cfg" for a in x["args"] if isinstance(a, dict)] if it["t"] == "meta" for k in self.metadata(it)]
        if len(set(mdn)) < len(mdn): return None
        pars = [it["key"] for c in calls for it in c.get("items", []) if it["t"] == "par"] + [c["key"] for c in calls if c["op"] == "dflt"]
        if len(set(pars)) < len(pars): return None
        if any(c["op"].startswith("dflt") and (c["val"] == "" or c["key"] not in optnames) for c in calls): return None
        # model
        state = {"md": [], "par": [], "dfltc": {}}
        want, expect, bad = [], [], False
        for c in calls:
            if c["op"] == "dflt": state["par"].append((c["key"], c["val"])); continue
            if c["op"] == "dfltc": state["dfltc"].setdefault(c["cfg"], []).append((c["key"], c["val"])); continue
            ex = {}
            for it in c["items"]:
                if it["t"] == "meta": state["md"].append(self.metadata(it))
                elif it["t"] == "par": state["par"].append((it["key"], "true" if it["val"] is None else it["val"]))
                elif it["t"] == "extra": ex[it["key"]] = "" if it["val"] is None else it["val"]
            new = []
            for it in c["items"]:
                if it["t"] != "cfg": continue
                if it["name"] in BUILTIN: new.append(("runtime-profile" if it["name"] == "hatchet-region-profile" else it["name"], None, {}, {})); continue
                cc = next(x for x in cfgs if it["name"] == x["name"] or it["name"] in x.get("alias", []))
                ch = self.channel(case, cc, it["args"], state)
                if ch[3]: bad = True
                else: new.append((cc["name"],) + ch[:3])
            if ex and c["op"] == "add" or err and c is last: bad = True
            if not bad: want += new
            expect.append((c, dict(ex), bad, list(want)))
        # program
        strings = [self.render(r, c["items"]) for c, *_ in expect]
        if any("\0" in s for s in strings): return None
        if mut:
            s = strings[-1]
            for p, k, ch in mut:
                p %= len(s) + 1
                s = s[:p] + ("" if k == "del" else ch) + s[p + (k != "ins"):]
            strings[-1] = s
        show = dict(specs=[c["name"] for c in cfgs], strings=[s[:300] for s in strings], error=err)
        nontriv = bool(err) or any(len(w[2]) > 0 for w in want)
        tags = ["error " + err if err else "mutated" if mut else "channels%d" % min(len(want), 3)] + (["env"] if env else []) + ["how " + how]
        d = ctx.drv()
        def S(s): return enc(s) if s else "%"
        if env:
            s = strings[0]
            res = d.run(["ENV CALI_CONFIG " + enc(s) if s else "ENV CALI_CONFIG", "0 isinit", "0 bnd x s:a", "0 chall"] if False else ["ENV CALI_CONFIG " + enc(s) if s else "ENV CALI_CONFIG", "0 chall", "_EXIT 0"], files=files, check=False)
            if res.status != "exit 0": raise Fail("crash: a program with CALI_CONFIG=%r ended with %s: %s" % (s, res.status, res.err[-600:]))
            got = sorted(l.split()[0] for l in dec(res.res.get(1, "")).split("\n") if l)
            w = sorted(enc(x[0]) for x in want) if not bad else []
            if bad and ("CALI_CONFIG: error" not in res.err or got): raise Fail("rejected: CALI_CONFIG=%r should be an error (%s), channels: %s, output: %s" % (s, err, got, res.err[:300]))
            if not bad and got != sorted(w + ["builtin.configmgr"]): raise Fail("channels: CALI_CONFIG=%r gives channels %s, expected %s: %s" % (s, got, w, res.err[:300]))
            return dict(tags=tags, nontrivial=nontriv, show=show)
        lines = ["0 cm new m"] + ["0 cm %s m %s" % (a, S(b)) for a, b in pre] + ["0 cm err m"]
        spec_at = len(lines) - 1
        at, k = [], 0
        ctor = err and how == "loadcmd" and len(calls) == 1 and last["op"] == "add" and r.random() < 0.5
        for c in calls:
            if c["op"] == "dflt": lines.append("0 cm dflt m %s %s" % (S(c["key"]), S(c["val"])))
            elif c["op"] == "dfltc": lines.append("0 cm dfltc m %s %s %s" % (S(c["cfg"]), S(c["key"]), S(c["val"])))
            else:
                x = " x" if c["op"] == "addx" else ""
                s = S(strings[k]); k += 1
                if ctor: lines += ["0 cm new m", "0 cm check m %s" % s, "0 cm ctor m %s" % s, "0 cm chans m"]
                else: lines += ["0 cm check m %s%s" % (s, x)] + (["0 cm check m %s%s" % (enc("\n " + strings[k - 1] + " \n"), x)] if strings[k - 1].strip() and not (mut and k == len(strings)) else []) + ["0 cm %s m %s" % (c["op"], s), "0 cm chans m"]
                at.append(len(lines) - 3)
        lines += ["0 cm start m", "0 cm chans m", "0 cm glob m", "_EXIT 0"]
        res = d.run(lines, files=files, check=False)
        if res.status != "exit 0": raise Fail("crash: strings %r: the program ended with %s: %s" % (strings, res.status, res.err[-600:]))
        R = {k: res.res.get(k, "") for k in range(len(lines))}
        if R[spec_at][0] == "E": raise Fail("spec: the specifications are rejected: %s: %s" % (dec(R[spec_at][2:]), [b for a, b in pre] or files))
        def chans(t):
            out = []
            for l in dec(t).split("\n")[:-1]:
                f = l.split(" ")
                out.append((dec(f[0]), f[1:3], {dec(a.split("=", 1)[0]): dec(a.split("=", 1)[1]) if a.split("=", 1)[1] != "%" else "" for a in f[3:]}))
            return out
        def compare(got, want, what):
            if [g[0] for g in got] != [w[0] for w in want]: raise Fail("channels: %s: channels are %s, expected %s" % (what, [g[0] for g in got], [w[0] for w in want]))
            for (n, st, cfg), (_, wcs, _, _) in zip(got, want):
                if wcs is None: continue
                wc, ws = wcs
                sv = sorted(x for x in cfg.pop("CALI_SERVICES_ENABLE", "").split(",") if x)
                if sv != ws: raise Fail("services: %s: %s enables %s, expected %s" % (what, n, sv, ws))
                if cfg != wc: raise Fail("settings: %s: %s has settings %s, expected %s" % (what, n, cfg, wc))
        failed, before = False, []
        for j, ((c, ex, isbad, w), p) in enumerate(zip(expect, at)):
            what = "%s(%r)" % (c["op"], strings[j])
            chk, add, ch = dec(R[p]) if R[p] != "%" else "", R[p + 1].split(" "), chans(R[p + 2])
            ok, e = add[0] == "1", add[1] == "E"
            if ctor: ok = not e
            if lines[p - 1][:10] == "0 cm check" and bool(R[p - 1]) != bool(chk): raise Fail("white space: check(%r) gives %r, with added white space %r" % (strings[j], dec(R[p - 1]), chk))
            if (chk != "") == ok: raise Fail("check: %s: check gives %r, add returns %s" % (what, chk, ok))
            if ok == e: raise Fail("error state: %s: add returns %s, error() is %s" % (what, ok, e))
            if e and (add[2] == "%" or len(add) < 3 or not add[2]): raise Fail("error message: %s: no message" % what)
            if e and [x[0] for x in ch] != before: raise Fail("channels after error: %s: channels %s become %s" % (what, before, [x[0] for x in ch]))
            before = [x[0] for x in ch]
            if mut and j == len(expect) - 1:
                tags.append("mutation rejected" if e else "mutation accepted"); return dict(tags=tags, nontrivial=e, show=show)
            if isbad and not e: raise Fail("rejected: %s should be an error (%s), channels: %s" % (what, err or "value", before))
            if e and not isbad: raise Fail("accepted: %s gives the error %r" % (what, dec(add[2])))
            if isbad: break
            compare(ch, w, what)
            if c["op"] == "addx":
                got = {dec(a.split("=", 1)[0]): dec(a.split("=", 1)[1]) if a.split("=", 1)[1] != "%" else "" for a in add[3:]}
                if got != ex: raise Fail("extra: %s returns the extra pairs %s, expected %s" % (what, got, ex))
        n = len(lines)
        run_ = chans(R[n - 3])
        good = expect[-1][3]
        compare(run_, good, "after start")
        for x in run_:
            if x[1] != ["1", "1"]: raise Fail("start: channel %s is not active after start: %s" % (x[0], x[1]))
        for l, (name, _, opts, md) in zip(dec(R[n - 2]).split("\n"), good):
            if _ is None and not opts and name in BUILTIN: continue
            g = dict((dec(a.split("=", 1)[0]), dec(a.split("=", 1)[1])) for a in l.split(" ")[1:])
            for k, v in opts.items():
                if g.get("opts:" + k) != v: raise Fail("option value: %s: option %s is %r, expected %r" % (name, k, g.get("opts:" + k), v))
            m = {k: v for k, v in g.items() if k[:2] in ("md", "mf", "mg") or k in md}
            strip = lambda z: {k: v if v[:1] != "[" else "".join(v.split()) for k, v in z.items()}
            if strip(m) != strip(md): raise Fail("metadata: %s has %s, expected %s" % (name, m, md))
            allowed = set(opts) | set(k for k, _ in state["par"]) | set(k for k, _ in state["dfltc"].get(name, [])) | set(k for c in cfgs if c["name"] == name for k in c.get("defaults", {}))
            for k in g:
                if k.startswith("opts:") and k[5:] not in allowed: raise Fail("option value: %s has an option %s=%s that was not given" % (name, k, g[k]))
        return dict(tags=tags, nontrivial=nontriv, show=show)
CHECK = C25

"""C34: MPI message tracing and communication patterns report exactly the communication that took place."""
import os, shutil, subprocess, tempfile
from vf import build
from vf.engine import Check, Fail, Invalid
from vf.driver import Crash, Inconclusive, san_tail
from vf.model import parse_cali
from checks.c19 import MPIENV

TYPES = [4, 1, 8, 2, 1]
REQ = ["MPI_Irecv", "MPI_Recv_init", "MPI_Start", "MPI_Startall", "MPI_Wait", "MPI_Waitall", "MPI_Waitany", "MPI_Waitsome", "MPI_Test", "MPI_Testall", "MPI_Testany", "MPI_Testsome",
       "MPI_Request_free", "MPI_Send_init", "MPI_Bsend_init", "MPI_Rsend_init", "MPI_Ssend_init"]
P2P = ["MPI_Send", "MPI_Bsend", "MPI_Ssend", "MPI_Rsend", "MPI_Isend", "MPI_Ibsend", "MPI_Issend", "MPI_Irsend", "MPI_Recv", "MPI_Sendrecv", "MPI_Sendrecv_replace"]
COLL = ["Barrier", "Bcast", "Scatter", "Scatterv", "Gather", "Gatherv", "Allgather", "Allgatherv", "Alltoall", "Alltoallv", "Reduce", "Allreduce", "Scan", "Exscan", "Reduce_scatter"]
OTHER = ["Reduce_scatter_block", "Iallreduce", "Ibarrier", "Comm_rank", "Comm_size", "Iprobe"]
REST = ["MPI_" + c for c in COLL + OTHER] + ["MPI_Comm_split", "MPI_Comm_dup", "MPI_Comm_free", "MPI_Cancel", "MPI_Init", "MPI_Init_thread", "MPI_Finalize"]
ALL = REQ + P2P + REST
INTONLY = {"Reduce", "Allreduce", "Scan", "Exscan", "Reduce_scatter", "Reduce_scatter_block", "Iallreduce"}
MODES = ["wait", "waitall", "waitany", "waitsome", "test", "testall", "testany", "testsome"]

def gen_groups(r):
    return [[r.choice(MODES), int(r.random() < 0.5), r.choice([0, 0, 1, 2]), r.randrange(1 << 20)] for _ in range(r.choice([1, 1, 2, 3]))]

def gen_step(r, n):
    st = {"k": r.choice(["batch"] * 6 + ["coll"] * 6 + ["ring", "ring", "split", "split", "dup", "free", "pers", "pers", "cancel"]), "reg": [r.choice(["main", "foo", "bar"]) for _ in range(r.choice([0, 0, 1, 2]))],
          "comm": r.choice([0, 0, 0, r.randrange(12)]), "off": r.random() < 0.05}
    k = st["k"]
    if k in ("batch", "pers"):
        st["mode"] = [r.choice(["spec", "spec", "src", "any"]) for _ in range(n)]
        st["msgs"] = [[r.randrange(8), r.randrange(n), r.randrange(n), r.choice([0, 1, 1, 2, 3, 5, 40, 1000]), r.randrange(100)] for _ in range(r.choice([1, 2, 3, 4, 6, 10, 16]))]
        st["types"] = [r.randrange(12) for _ in range(n)]
        st["pre"] = r.random() < 0.6
        st["block"] = [r.random() < 0.3 for _ in range(n)]
        st["st"] = int(r.random() < 0.5)
        st["groups"] = [gen_groups(r) for _ in range(n)]
        st["shuffle"] = r.randrange(1 << 20)
        st["slack"] = r.choice([0, 0, 1, 7])
        st["rounds"] = r.choice([1, 2, 3])
        st["all"] = int(r.random() < 0.5)
        st["idle"] = [r.choice([None, None, [r.choice(MODES), int(r.random() < 0.5), 1]]) for _ in range(n)]
    elif k == "coll":
        st["name"] = r.choice(COLL * 3 + OTHER); st["type"] = r.randrange(12); st["cnt"] = r.choice([0, 1, 2, 3, 7, 100]); st["root"] = r.randrange(n); st["inpl"] = int(r.random() < 0.4); st["nul"] = int(r.random() < 0.5)
    elif k == "ring":
        st["shift"] = r.randrange(n); st["cnt"] = [r.choice([1, 2, 9, 100]) for _ in range(n)]; st["type"] = r.randrange(12); st["st"] = int(r.random() < 0.5); st["repl"] = int(r.random() < 0.5); st["wild"] = r.choice([0, 0, 1, 2])
    elif k == "split":
        st["color"] = [r.choice([0, 0, 1, -1, 2]) for _ in range(n)]; st["key"] = [r.choice([0, 1, r.randrange(10)]) for _ in range(n)]
    elif k == "cancel":
        st["who"] = [int(r.random() < 0.6) for _ in range(n)]; st["mode"] = r.choice(MODES); st["st"] = int(r.random() < 0.5)
    return st

class C34(Check):
    id = "C34"
    rule = ("generated MPI programs for 1-4 ranks (all send and receive variants with wildcards, unused or ignored statuses and oversized buffers, every Wait/Test completion function on mixed request lists, persistent and cancelled requests, "
            "Sendrecv(_replace), every traced collective with random roots, in-place and null non-significant arguments, derived datatypes, split/duplicated/freed communicators, channels created before and after MPI_Init, "
            "inactive phases, function filters, comm regions) run under mpirun; an interpreter logs each call and the message identities it received; the traced records of each rank are compared in full with that log; "
            "non-trivial: at least 5 message or collective records compared")
    assumptions = ["the functions that create and complete requests are not filtered out and a request is completed while the channel is in the same state as when it was posted", "comm regions are not nested",
                   "MPI_Scatter may report its volume per receiver or in total", "no messages to MPI_PROC_NULL, no intercommunicators, no threads"]
    quick, thorough = 140, 6000
    quick_wall = 400
    jobs = 4

    def gen(self, r, i, tier):
        n = r.choice([1, 2, 2, 3, 3, 4])
        chans = [{"name": "A", "when": r.choice(["pre", "pre", "post"]), "kind": "trace"}]
        if r.random() < 0.6: chans.append({"name": "B", "when": r.choice(["pre", "pre", "post"]), "kind": r.choice(["pattern", "pattern", "both", "plain", "trace"])})
        if r.random() < 0.2: r.shuffle(chans)
        for c in chans:
            f = r.choice(["all", "all", "all", "black", "allblack", "white", "both"])
            c["filter"] = f
            c["list"] = r.sample(REST + P2P, r.randrange(1, 12)) if f != "all" else []
        types = [[r.choice(["contig", "vector", "struct"]), r.randrange(1, 5)] for _ in range(r.choice([0, 1, 3]))]
        phases = [{"cr": r.choice([None, None, "halo", "x y", "coll"]), "steps": [gen_step(r, n) for _ in range(r.choice([1, 2, 4, 8]))]} for _ in range(r.choice([1, 2, 3, 5]))]
        return {"n": n, "init": r.choice(["init", "init", "thread"]), "chans": chans, "types": types, "phases": phases}

    # ---- compile the symbolic program

    def compile(self, case):
        n = case["n"]
        if not (isinstance(n, int) and 1 <= n <= 6) or case["init"] not in ("init", "thread"): raise Invalid("n")
        P = [[] for _ in range(n)]
        tsz = list(TYPES); contig = {}
        for k, m in case["types"]:
            if k not in ("contig", "vector", "struct") or not 1 <= m <= 16: raise Invalid("type")
            for p in P: p.append("type %s %d" % (k, m))
            if k == "contig": contig[len(tsz)] = m
            tsz.append(4 * m if k == "contig" else 8 * m if k == "vector" else 4 + 8 * m)
        NT = len(tsz)
        # communicators: list of {"alive", "inst": [world rank lists]}; instance of a rank: the list that contains it
        C = [{"inst": [list(range(n))], "alive": True}, {"inst": [[k] for k in range(n)], "alive": True}]
        msgs, tag, slot = [], 0, 0
        def emit(ranks, s):
            for q in ranks: P[q].append(s)
        everyone = range(n)
        kn = 0
        for ph in case["phases"]:
            if ph["cr"] is not None: emit(everyone, "cb " + ph["cr"].replace(" ", "_"))
            for st in ph["steps"]:
                kn += 1; k = st["k"]
                if st["off"]: emit(everyone, "off A")
                emit(everyone, "step %d" % kn)
                for g in st["reg"]: emit(everyone, "rb " + g)
                live = [j for j, c in enumerate(C) if c["alive"]]
                ci = live[st["comm"] % len(live)]; inst = C[ci]["inst"]
                if k == "split":
                    new = []
                    for ins in inst:
                        for col in sorted({st["color"][q] for q in ins}):
                            if col < 0: continue
                            new.append(sorted([q for q in ins if st["color"][q] == col], key=lambda q: (st["key"][q], ins.index(q))))
                    for ins in inst:
                        for q in ins: P[q].append("split %d %d %d" % (ci, st["color"][q], st["key"][q]))
                    rest = [q for q in everyone if not any(q in ins for ins in inst)]
                    if rest: emit(rest, "nocomm")
                    C.append({"inst": new, "alive": True})
                elif k == "dup":
                    for ins in inst: emit(ins, "dup %d" % ci)
                    rest = [q for q in everyone if not any(q in ins for ins in inst)]
                    if rest: emit(rest, "nocomm")
                    C.append({"inst": inst, "alive": True})
                elif k == "free":
                    if ci >= 2:
                        C[ci]["alive"] = False
                        for ins in inst: emit(ins, "cfree %d" % ci)
                elif k == "coll":
                    if st["name"] not in COLL + OTHER or not 0 <= st["cnt"] <= 1000: raise Invalid("coll")
                    for ins in inst: emit(ins, "coll %s %d %d %d %d %d %d" % (st["name"], ci, st["type"] % NT, st["cnt"], st["root"] % len(ins), st["inpl"], st["nul"]))
                elif k == "ring":
                    t = st["type"] % NT
                    if st["type"] >= 6 and contig: t = sorted(contig)[st["type"] % len(contig)]
                    for ins in inst:
                        m = len(ins); sh = st["shift"] % m; ids = []
                        wild = st["wild"] if t not in (1, 4) or st["repl"] == 0 else 0
                        for a, q in enumerate(ins):
                            cnt = st["cnt"][q % len(st["cnt"])]
                            if not 0 <= cnt <= 2000: raise Invalid("cnt")
                            if st["repl"]: cnt = st["cnt"][ins[0] % len(st["cnt"])]
                            ts = 0 if t in contig and not st["repl"] and st["shift"] % 2 and a % 2 else t     # odd ranks send another type
                            ids.append(len(msgs)); msgs.append(dict(src=a, dst=(a + sh) % m, tag=tag + a, bytes=cnt * tsz[ts], cnt=cnt, comm=ci, type=ts))
                        for a, q in enumerate(ins):
                            s, rr = msgs[ids[a]], msgs[ids[(a - sh) % m]]
                            wsrc = -1 if wild >= 1 else rr["src"]; wtag = -1 if wild == 2 else rr["tag"]
                            rt, rc = rr["type"], rr["cnt"] if st["repl"] else max(rr["cnt"], 1) + (3 if wild else 0)
                            if rt in contig and not st["repl"] and ids[a] % 2: rt, rc = 0, rc * contig[rt]
                            P[q].append("%s %d %d %d %d %d %d %d %d %d %d %d %d" % ("replace" if st["repl"] else "sendrecv", ci, s["type"], s["cnt"], s["dst"], s["tag"], ids[a], rc, wsrc, wtag, ids[(a - sh) % m], st["st"], rt))
                        tag += m
                elif k == "cancel":
                    tag += 1
                    for ins in inst:
                        for q in ins:
                            if st["who"][q % len(st["who"])]:
                                P[q].append("irecv %d %d 0 4 0 %d -2" % (slot + q, ci, tag)); P[q].append("cancel %d" % (slot + q)); P[q].append("complete %s %d 0 %d" % (st["mode"], st["st"], slot + q))
                    slot += n
                elif k in ("batch", "pers"):
                    import random
                    pers = k == "pers"
                    if not inst: inst = []
                    mine = {q: ([], []) for q in everyone}     # (sends, recvs)
                    for g, a, b, cnt, fn in st["msgs"]:
                        if not inst: break
                        ins = inst[g % len(inst)]; a %= len(ins); b %= len(ins); q = ins[b]
                        t = st["types"][q % len(st["types"])] % NT
                        md = st["mode"][q % len(st["mode"])]
                        if md not in ("spec", "src", "any") or not 0 <= cnt <= 5000: raise Invalid("mode")
                        if md != "spec": cnt = max(cnt, 4 if tsz[t] < 4 else 1)
                        i = len(msgs); msgs.append(dict(src=a, dst=b, tag=(i if md == "spec" else 500000 + kn), bytes=cnt * tsz[t], cnt=cnt, comm=ci, t=t, fn=fn, md=md, slot=None))
                        mine[ins[a]][0].append(i); mine[q][1].append(i)
                    rnd = random.Random(st["shuffle"])
                    pre = st["pre"] or pers
                    prog = {q: dict(post=[], send=[], fin=[]) for q in everyone}
                    for q in everyone:
                        ss, rs = mine[q]; rs = list(rs); ss = list(ss); rnd.shuffle(rs); rnd.shuffle(ss)
                        blk = st["block"][q % len(st["block"])] and not pre
                        slots, pslots, brecv = [], [], []
                        mx = max([msgs[i]["cnt"] for i in rs] or [0])
                        for i in rs:
                            m = msgs[i]; cnt = (m["cnt"] if m["md"] == "spec" else mx) + st["slack"]
                            src, tg, mid = (m["src"], m["tag"], i) if m["md"] == "spec" else (-1, m["tag"] if m["md"] == "src" else -1, -1)
                            if blk: brecv.append("recv %d %d %d %d %d %d %d" % (ci, m["t"], cnt, src, tg, mid, st["st"]))
                            else:
                                prog[q]["post"].append("%s %d %d %d %d %d %d %d" % ("rinit" if pers else "irecv", slot, ci, m["t"], cnt, src, tg, mid)); slots.append(slot); pslots.append(slot); slot += 1
                        for i in ss:
                            m = msgs[i]
                            if pers: fn = ["Send_init", "Ssend_init", "Rsend_init", "Bsend_init"][m["fn"] % (4 if m["md"] == "spec" else 3)]   # Open MPI loses the payload of a restarted Bsend_init
                            else:
                                fns = ["Isend", "Issend", "Ibsend", "Bsend"] + (["Send", "Ssend", "Rsend", "Irsend"] if pre else [])
                                fn = fns[m["fn"] % len(fns)]
                            t1, c1 = (0, m["cnt"] * contig[m["t"]]) if m["t"] in contig and m["fn"] >= 50 else (m["t"], m["cnt"])
                            line = "%s %s %d %d %d %d %d %d %d" % ("sinit" if pers else "send", fn, slot, ci, t1, c1, m["dst"], m["tag"], i)
                            prog[q]["post" if pers else "send"].append(line)
                            if fn[0] == "I" or pers: slots.append(slot)
                            slot += 1
                        prog[q]["slots"] = slots; prog[q]["pslots"] = pslots; prog[q]["brecv"] = brecv
                    # Rsend and blocking sends need the receives posted first
                    for q in everyone:
                        o = P[q]; pr = prog[q]
                        if pers:
                            o += pr["post"]
                            for rd in range(max(1, min(3, st["rounds"]))):
                                rs = pr["pslots"]; ss = [x for x in pr["slots"] if x not in rs]
                                for lst in (rs, ss):
                                    if lst: o.append("start%s %s" % ("all" if st["all"] else "", " ".join(map(str, lst))))
                                    o.append("bar")
                                self.completion(o, pr["slots"], st["groups"][q % len(st["groups"])], True)
                                idle = st["idle"][q % len(st["idle"])]
                                if idle and pr["slots"]: o.append("complete %s %d %d %s" % (idle[0], idle[1], idle[2], " ".join(map(str, pr["slots"]))))
                                o.append("bar")
                            for x in pr["slots"]: o.append("rfree %d" % x)
                        elif pre:
                            o += pr["post"] + ["bar"] + pr["send"]
                            self.completion(o, pr["slots"], st["groups"][q % len(st["groups"])], False)
                        else:
                            o += pr["send"] + pr["post"] + pr["brecv"]
                            self.completion(o, pr["slots"], st["groups"][q % len(st["groups"])], False)
                else: self.extra_step(st, P, inst, ci)
                for g in reversed(st["reg"]): emit(everyone, "re " + g)
                emit(everyone, "bar")
                if st["off"]: emit(everyone, "on A")
            if ph["cr"] is not None: emit(everyone, "ce " + ph["cr"].replace(" ", "_"))
        return P, msgs, C, tsz

    def extra_step(self, st, P, inst, ci): raise Invalid("kind")

    def completion(self, o, slots, groups, pers):
        import random
        if not slots: return
        sl = list(slots); gs = [g for g in groups] or [["waitall", 1, 0, 1]]
        if len(gs) > len(sl): gs = gs[:len(sl)]
        rnd = random.Random(gs[0][3]); rnd.shuffle(sl)
        cut = sorted(rnd.sample(range(1, len(sl)), len(gs) - 1)) if len(gs) > 1 else []
        parts = [sl[a:b] for a, b in zip([0] + cut, cut + [len(sl)])]
        seen = []
        for g, part in zip(gs, parts):
            if g[0] not in MODES: raise Invalid("mode")
            ks = part + ([x for x in seen if rnd.random() < 0.4])
            rnd.shuffle(ks)
            o.append("complete %s %d %d %s" % (g[0], g[1], max(0, min(3, g[2])), " ".join(map(str, ks))))
            seen += part

    # ---- run and compare

    def run(self, ctx, case):
        P, msgs, C, tsz = self.compile(case)
        n = case["n"]
        names = [c["name"] for c in case["chans"]]
        if not names or len(set(names)) != len(names) or "A" not in names: raise Invalid("channels")
        d = tempfile.mkdtemp(prefix="vfmpi")
        try:
            lines = []
            for c in case["chans"]:
                kv = {"CALI_SERVICES_ENABLE": "event,mpi,trace,recorder", "CALI_RECORDER_FILENAME": os.path.join(d, c["name"] + "-%mpi.rank%.cali"), "CALI_CHANNEL_FLUSH_ON_EXIT": "true"}
                if c["kind"] in ("trace", "both"): kv["CALI_MPI_MSG_TRACING"] = "true"
                if c["kind"] in ("pattern", "both"): kv["CALI_MPI_MSG_PATTERN"] = "true"
                f, l = c["filter"], [x for x in c["list"] if x in ALL]
                if f == "white": l = sorted(set(REQ + P2P) | set(l))
                if f in ("allblack", "both"): kv["CALI_MPI_WHITELIST"] = "all"
                if f == "all": kv["CALI_MPI_WHITELIST"] = "all"
                if f == "white": kv["CALI_MPI_WHITELIST"] = ",".join(l)
                if f in ("black", "allblack", "both") and l: kv["CALI_MPI_BLACKLIST"] = ",".join(l)
                if f == "black" and not l: kv["CALI_MPI_WHITELIST"] = "all"
                c["_on"] = set(l) if f == "white" else set(ALL) - (set(l) if f in ("black", "allblack", "both") else set())
                lines.append("%s %s %s" % (c["when"], c["name"], " ".join("%s=%s" % x for x in kv.items())))
            open(os.path.join(d, "chans"), "w").write("\n".join(lines) + "\n")
            for q in range(n):
                open(os.path.join(d, "prog.%d" % q), "w").write("".join(x + "\n" for x in P[q]))
            env = {k: v for k, v in os.environ.items() if not k.startswith("CALI")}
            env.update(MPIENV); env["CALI_LOG_VERBOSITY"] = "0"; env["OMPI_MCA_btl"] = "self,vader"; env["TMPDIR"] = d
            try:
                p = subprocess.run(["timeout", "-k", "5", "90", "mpirun", "--oversubscribe", "-n", str(n), build.tool("vmpi"), "prog", "log", "chans", case["init"]], cwd=d, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
            except subprocess.TimeoutExpired: raise Inconclusive("mpirun timeout")
            err = p.stderr.decode(errors="replace")
            if p.returncode in (124, 137): raise Inconclusive("mpirun timeout")
            if "vmpi: bad op" in err: raise Invalid("op")
            if p.returncode:
                ended = [os.path.exists(os.path.join(d, "log.%d" % q)) for q in range(n)]
                if not any(ended): raise Inconclusive("mpirun failed: " + err[-500:])
                raise Crash("MPI program failed under tracing: " + (san_tail(err) or err[-1500:]))
            count = 0; tags = set()
            for q in range(n):
                count += self.compare(case, d, q, P[q], msgs, C, tsz, tags)
        finally:
            for c in case["chans"]: c.pop("_on", None)
            shutil.rmtree(d, ignore_errors=True)
        tags |= {"ranks:%d" % n} | {c["kind"] + ":" + c["when"] for c in case["chans"]} | {st["k"] for ph in case["phases"] for st in ph["steps"]}
        return dict(tags=sorted(tags), nontrivial=count >= 5, show=dict(program=P[0][:12], records=count))

    def compare(self, case, d, q, prog, msgs, C, tsz, tags):
        log = [l.split() for l in open(os.path.join(d, "log.%d" % q)).read().split("\n") if l]
        if not log or log[-1] != ["END"]: raise Crash("rank %d did not finish its program" % q)
        by = {}
        for l in log[:-1]:
            if l[0] != "T": by.setdefault(int(l[1]), []).append((l[0], l[2]))
        init = "MPI_Init_thread" if case["init"] == "thread" else "MPI_Init"
        total = 0
        for c in case["chans"]:
            on = c["_on"]; active = True
            f = os.path.join(d, "%s-%d.cali" % (c["name"], q))
            if not os.path.exists(f): raise Fail("no output: channel %s wrote no file for rank %d" % (c["name"], q))
            attrs, recs, globs, prob = parse_cali(open(f, errors="replace").read())
            if prob: raise Fail("malformed output: " + prob[0])
            got = [self.item(x, q) for x in recs]
            anyon = lambda fn, pre=False: any(fn in k["_on"] for k in case["chans"] if not pre or k["when"] == "pre")
            trace, patt = c["kind"] in ("trace", "both"), c["kind"] in ("pattern", "both")
            exp = []; step = None; regs = []; tot = None
            def ev(k, a, v): 
                if active: exp.append((k, a, v, step))
            if c["when"] == "pre" and anyon(init, True): ev("b", "mpi.function", init); ev("e", "mpi.function", init)
            comms = {}      # our communicator number -> ranks
            nc = 2
            for oi, line in enumerate(prog + ["finalize"]):
                t = line.split(); o = t[0]
                if o in ("split", "dup", "nocomm"): nc += 1
                if o == "step": step = int(t[1])
                elif o == "rb": ev("b", "region", t[1])
                elif o == "re": ev("e", "region", t[1])
                elif o == "cb": ev("b", "comm.region", t[1]); tot = [0] * 8; dst, src = set(), set(); amb = False
                elif o == "ce":
                    if patt and active: exp.append(("T", (tot[0], tot[1], tot[2], len(dst), len(src), tot[3], tot[4], None if amb else tot[5]), t[1], step))
                    ev("e", "comm.region", t[1])
                elif o == "off" and t[1] == c["name"]: active = False
                elif o == "on" and t[1] == c["name"]: active = True
                cur = None
                def close():
                    nonlocal cur
                    if cur and anyon(cur): ev("e", "mpi.function", cur)
                    cur = None
                for kind, v in by.get(oi, []):
                    if kind == "C":
                        close(); cur = v
                        if anyon(cur): ev("b", "mpi.function", cur)
                        if o == "coll" and cur[4:] == t[1] and t[1] in COLL and cur in on and active:
                            x = self.coll(t, C, q, tsz)
                            if trace: exp.append(("K", cur) + x + (step,))
                            if patt and tot: tot[2] += 1; amb = amb or isinstance(x[1], tuple); tot[5] += (x[1] or 0) if not isinstance(x[1], tuple) else 0
                            total += 1
                    elif cur in on and active:
                        m = msgs[int(v)]
                        cr = next(i for i in C[m["comm"]]["inst"] if q in i)
                        if trace: exp.append((kind, cur, m["dst"] if kind == "S" else m["src"], m["tag"], m["bytes"], (m["comm"], tuple(cr)), step))
                        if patt and tot:
                            if kind == "S": tot[0] += 1; tot[4] += m["bytes"]; dst.add(m["dst"])
                            else: tot[1] += 1; tot[3] += m["bytes"]; src.add(m["src"])
                        total += 1; tags.add(cur[4:])
                close()
            self.match(c, q, exp, got, case, init, log)
            gl = {e[1]: e[2][1] for e in globs if e[0] == "I"}
            for e in globs:
                if e[0] == "R":
                    for k, v in e[1]: gl[k] = v[1]
            if gl.get("mpi.world.size") != case["n"]: raise Fail("world size: channel %s reports mpi.world.size %r on %d ranks" % (c["name"], gl.get("mpi.world.size"), case["n"]))
        return total

    def coll(self, t, C, q, tsz):
        name, ci, ty, cnt, root, inpl, nul = t[1], *map(int, t[2:8])
        ins = next(i for i in C[ci]["inst"] if q in i); rk, m = ins.index(q), len(ins)
        sz = 4 if name in INTONLY else tsz[ty]
        comm = (ci, tuple(ins)); cn = [cnt + j for j in range(m)]; isroot = rk == root
        if name == "Barrier": return ("1", None, None, comm)
        if name in ("Bcast", "Scatter", "Scatterv"):
            v = 0 if not isroot else cnt * sz if name == "Bcast" else (cnt * sz, cnt * sz * m) if name == "Scatter" and cnt * sz and m > 1 else cnt * sz if name == "Scatter" else sum(cn) * sz
            return ("3", v, root, comm)
        if name in ("Gather", "Gatherv", "Reduce"): return ("4", 0 if isroot else (cn[rk] if name == "Gatherv" else cnt) * sz, root, comm)
        v = {"Allgather": cnt, "Allgatherv": cn[rk], "Alltoall": m * cnt, "Alltoallv": m * cnt, "Reduce_scatter": cn[rk]}.get(name, cnt)
        return ("2", v * sz, None, comm)

    def item(self, rec, q):
        e = {}; path = []
        for x in rec:
            if x[0] == "R":
                for k, v in x[1]:
                    e[k] = v[1]
                    if k == "mpi.function": path.append(v[1])
            elif x[0] == "I": e[x[1]] = x[2][1]
        e["_fn"] = path[-1] if path else None
        return e

    def match(self, c, q, exp, got, case, init, log):
        comm_ids, used = {}, {}
        # the pattern record is written while the comm region is still open, before or after the event record
        totals = [x for x in exp if x[0] == "T"]; exp = [x for x in exp if x[0] != "T"]
        pat = [(i, e) for i, e in enumerate(got) if "total.send.count" in e]; got = [e for e in got if "total.send.count" not in e]
        if len(pat) != len(totals): raise Fail("pattern records: channel %s rank %d: %d, expected %d" % (c["name"], q, len(pat), len(totals)))
        for (i, e), x in zip(pat, totals):
            y = tuple(e.get(k) for k in ("total.send.count", "total.recv.count", "total.coll.count", "total.dest.ranks", "total.src.ranks", "mpi.recv.size", "mpi.send.size", "mpi.coll.size"))
            if any(a != b for a, b in zip(x[1], y) if a is not None): raise Fail("pattern totals: channel %s rank %d record %d: expected %r, got %r" % (c["name"], q, i, x[1], y))
            if e.get("comm.region") != x[2] or x[3] is not None and e.get("step") != x[3]: raise Fail("pattern place: channel %s rank %d record %d: expected %r, got %r" % (c["name"], q, i, x, e))
        def bad(kind, i, msg): raise Fail("%s: channel %s rank %d record %d: %s" % (kind, c["name"], q, i, msg))
        for i, e in enumerate(got):
            if i >= len(exp): bad("extra record", i, repr(e))
            x = exp[i]
            if e.get("mpi.rank") != q: bad("rank", i, "mpi.rank is %r" % e.get("mpi.rank"))
            if x[-1] is not None and e.get("step") != x[-1]: bad("wrong place", i, "step %r, expected %r: %r" % (e.get("step"), x, e))
            if x[0] in "be":
                if e.get("event.%s#%s" % ("begin" if x[0] == "b" else "end", x[1])) != x[2]: bad("event", i, "expected %r, got %r" % (x, e))
            elif x[0] in "SR":
                k = ("mpi.send.count", "mpi.msg.dst") if x[0] == "S" else ("mpi.recv.count", "mpi.msg.src")
                if e.get(k[0]) != 1: bad("message missing", i, "expected %r, got %r" % (x, e))
                y = (x[0], e["_fn"], e.get(k[1]), e.get("mpi.msg.tag"), e.get("mpi.msg.size"))
                if y != x[:5]: bad("message", i, "expected %r, got %r" % (x, y))
                self.comm(bad, i, e, x[5], comm_ids, used, case["n"])
            elif x[0] == "K":
                if e.get("mpi.coll.count") != 1: bad("collective missing", i, "expected %r, got %r" % (x, e))
                size, root = e.get("mpi.msg.size"), e.get("mpi.coll.root")
                if str(e.get("mpi.coll.type")) != x[2] or e["_fn"] != x[1]: bad("collective", i, "expected %r, got %r" % (x, e))
                if root != x[4]: bad("collective root", i, "expected %r, got %r" % (x, e))
                if (size not in x[3]) if isinstance(x[3], tuple) else size != x[3]: bad("collective size", i, "expected %r, got %r" % (x, e))
                self.comm(bad, i, e, x[5], comm_ids, used, case["n"])
        if len(got) < len(exp): bad("record missing", len(got), repr(exp[len(got)]))

    def comm(self, bad, i, e, cm, ids, used, n):
        cid, size = e.get("mpi.comm"), e.get("mpi.comm.size")
        if size != len(cm[1]): bad("communicator", i, "size %r for a communicator of ranks %r" % (size, cm[1]))
        if e.get("mpi.comm.is_world"): ranks = tuple(range(n))
        else:
            b = bytes(int(x, 16) for x in (e.get("mpi.comm.list") or "").split(":") if x)
            ranks = tuple(int.from_bytes(b[j:j + 4], "little", signed=True) for j in range(0, len(b), 4))
        if ranks != cm[1]: bad("communicator", i, "ranks %r for a communicator of ranks %r" % (ranks, cm[1]))
        if ids.setdefault(cm[0], cid) != cid or used.setdefault(cid, cm[0]) != cm[0]: bad("communicator id", i, "communicator %d has id %r, expected %r" % (cm[0], cid, ids[cm[0]]))

CHECK = C34

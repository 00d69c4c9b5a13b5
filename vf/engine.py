"""Property-based testing engine: generated cases, parallel search, shrinking, replay, evidence."""
import argparse, copy, hashlib, json, multiprocessing as mp, os, queue, random, signal, sys, time, traceback
from . import build
from .driver import Driver, Crash, Inconclusive

VERIF = build.VERIF
NWORK = int(os.environ.get("VF_JOBS", "0")) or min(8, os.cpu_count() or 8)

class Fail(Exception):
    """The property is violated by this case."""
class Invalid(Exception):
    """The (shrunk) case is outside the property's precondition."""

class Check:
    id = "?"
    flavors = ("asan",)
    rule = ""              # what makes a case non-trivial
    assumptions = []
    quick = 400            # number of generated cases
    thorough = 20000
    quick_wall = 150       # safety cap in seconds for the search itself
    thorough_wall = 3000
    jobs = None
    flaky = False          # failures may depend on the schedule: one confirmed observation is enough
    replays = 3

    def gen(self, rng, i, tier): raise NotImplementedError
    def run(self, ctx, case): raise NotImplementedError   # -> dict(tags=[..], nontrivial=bool, show=..) ; raises Fail/Crash
    def known(self, case, msg): return None               # -> id of a listed known finding
    def fixed_cases(self): return []                      # regression cases run first

class Ctx:
    def __init__(self, check):
        self.check = check
        self.drivers = {}
    def drv(self, flavor=None, exe="vdrv", **kw):
        flavor = flavor or self.check.flavors[0]
        k = (flavor, exe, tuple(sorted(kw.items())))
        if k not in self.drivers: self.drivers[k] = Driver(flavor, exe, dict(kw.get("env", ())))
        return self.drivers[k]
    def restart(self):
        for d in self.drivers.values(): d.restart()
    def close(self):
        for d in self.drivers.values(): d.close()
        self.drivers = {}

def seed_of(seed, check, i):
    return int.from_bytes(hashlib.sha256(("%s/%s/%d" % (seed, check, i)).encode()).digest()[:8], "big")

def make_case(check, seed, i, tier):
    return check.gen(random.Random(seed_of(seed, check.id, i)), i, tier)

def evaluate(check, ctx, case, retries=2):
    """-> (status, message, info); status: ok fail invalid inconclusive"""
    for k in range(retries + 1):
        try:
            return "ok", "", check.run(ctx, case) or {}
        except Fail as e:
            return "fail", str(e), {}
        except Crash as e:
            return "fail", "crash: " + str(e), {}
        except Invalid as e:
            return "invalid", str(e), {}
        except Inconclusive as e:
            ctx.restart()
            if k == retries: return "inconclusive", str(e), {}

def _worker(check, seed, tier, counter, total, stop, outq, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ctx = Ctx(check)
    try:
        while not stop.is_set() and time.time() < deadline:
            with counter.get_lock():
                i = counter.value; counter.value += 1
            if i >= total: break
            case = make_case(check, seed, i, tier)
            st, msg, info = evaluate(check, ctx, case)
            h = hashlib.md5(json.dumps(case, sort_keys=True, default=str).encode()).digest()[:8]
            outq.put((i, st, msg, sorted(info.get("tags", ())), bool(info.get("nontrivial")), h, info.get("show")))
    except BaseException:
        outq.put((-1, "harness", traceback.format_exc(), [], False, b"", None))
    finally:
        ctx.close()
        outq.put(None)

# ------------------------------------------------------------------ shrinking

def _paths(x, p=()):
    if isinstance(x, dict):
        for k in x: yield from _paths(x[k], p + (k,))
    elif isinstance(x, list):
        yield p
        for i, v in enumerate(x): yield from _paths(v, p + (i,))

def _leaves(x, p=()):
    if isinstance(x, dict):
        for k in x: yield from _leaves(x[k], p + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x): yield from _leaves(v, p + (i,))
    elif not isinstance(x, bool) and isinstance(x, (int, str)):
        yield p

def _get(x, p):
    for k in p: x = x[k]
    return x
def _set(x, p, v):
    if not p: return v
    x = copy.deepcopy(x); y = x
    for k in p[:-1]: y = y[k]
    y[p[-1]] = v
    return x

def shrink(check, ctx, case, msg, limit):
    t_end = time.time() + limit
    kind = msg.split(":", 1)[0]
    best, bmsg, n = case, msg, 0
    def attempt(c):
        nonlocal best, bmsg, n
        if time.time() > t_end: return False
        n += 1
        try:
            st, m, _ = evaluate(check, ctx, c, 0)
        except Exception:
            ctx.restart()
            return False
        if st == "fail" and m.split(":", 1)[0] == kind:
            best, bmsg = c, m
            return True
        return False
    changed = True
    while changed and time.time() < t_end:
        changed = False
        for p in sorted(set(_paths(best)), key=lambda q: (len(q), str(q))):
            try: l = _get(best, p)
            except (KeyError, IndexError, TypeError): continue
            if not isinstance(l, list): continue
            size = max(1, len(l) // 2)
            while size >= 1 and time.time() < t_end:
                i = 0
                while i < len(_get(best, p)):
                    cur = _get(best, p)
                    if attempt(_set(best, p, cur[:i] + cur[i + size:])): changed = True
                    else: i += size
                size //= 2
        for p in list(_leaves(best)):
            if time.time() > t_end: break
            try: v = _get(best, p)
            except (KeyError, IndexError, TypeError): continue
            if isinstance(v, int) and abs(v) > 1:
                for c in (0, 1, v // 2):
                    if attempt(_set(best, p, c)): changed = True; break
            elif isinstance(v, str) and len(v) > 1:
                for c in (v[:len(v) // 2], v[len(v) // 2:], v[1:], v[:-1]):
                    if attempt(_set(best, p, c)): changed = True; break
    return best, bmsg, n

# ------------------------------------------------------------------ entry

def known_findings(pid):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f)).get("findings", []) if k["property"] == pid]

EVID = os.environ.get("VF_EVIDENCE", os.path.join(VERIF, "evidence"))

def write_evidence(check, tier, seed, d):
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, check.id + ".json"), "w") as f:
        json.dump(d, f, indent=1, default=str)
        f.write("\n")

def confirm(check, case, always=False):
    """Runs the case on fresh drivers; -> message when it fails every time (any time for flaky checks)."""
    any_time = check.flaky and not always
    n = check.replays * (10 if any_time else 1)
    msgs = []
    for k in range(n):
        ctx = Ctx(check)
        try:
            st, m, _ = evaluate(check, ctx, case)
        finally:
            ctx.close()
        if st == "fail":
            msgs.append(m)
            if any_time: return m
        elif not any_time:
            return None
    return msgs[-1] if msgs else None

def main(check):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--index", type=int)
    ap.add_argument("--no-shrink", action="store_true")
    ap.add_argument("--all-failures", action="store_true", help="keep going and print a summary of failure messages")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    try:
        build.ensure(check.flavors)
    except build.BuildError as e:
        print("BUILD FAILED: %s" % e, file=sys.stderr)
        sys.exit(2)
    if hasattr(check, "setup"): check.setup()
    if a.replay or a.index is not None:
        case = json.load(open(a.replay))["case"] if a.replay else make_case(check, a.seed, a.index, tier)
        if a.index is not None: print(json.dumps(case, indent=1, default=str))
        ctx = Ctx(check)
        st, m, info = evaluate(check, ctx, case)
        ctx.close()
        print(st, m, info)
        sys.exit(1 if st == "fail" else 0)

    total = a.cases or (check.quick if tier == "quick" else check.thorough)
    wall = a.wall or (check.quick_wall if tier == "quick" else check.thorough_wall)
    known = known_findings(check.id)
    tags, nontrivial, seen, samples, evals, incon, inval = {}, set(), set(), [], 0, 0, 0
    failures, harness_err, known_hit = [], None, {}

    # listed findings: show whether they still fail
    for k in known:
        if "case" not in k: continue
        ctx = Ctx(check)
        st, m, _ = evaluate(check, ctx, k["case"])
        ctx.close()
        if st == "fail":
            known_hit[k["id"]] = m
    fixed = check.fixed_cases()
    ctx = Ctx(check)
    for c in fixed:
        st, m, info = evaluate(check, ctx, c)
        evals += 1
        for t in info.get("tags", ()): tags[t] = tags.get(t, 0) + 1
        if info.get("nontrivial"): nontrivial.add(hashlib.md5(json.dumps(c, sort_keys=True, default=str).encode()).digest()[:8])
        if st == "fail":
            kid = check.known(c, m)
            if kid and any(x["id"] == kid for x in known): known_hit.setdefault(kid, m)
            else: failures.append((-1, m, c))
    ctx.close()

    jobs = check.jobs or NWORK
    counter, stop, outq = mp.Value("l", 0), mp.Event(), mp.Queue()
    deadline = time.time() + wall
    ps = [mp.Process(target=_worker, args=(check, a.seed, tier, counter, total, stop, outq, deadline)) for _ in range(min(jobs, total))]
    for p in ps: p.start()
    live = len(ps)
    while live:
        try: r = outq.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in ps) and outq.empty():
                harness_err = harness_err or "worker process died"
                break
            continue
        if r is None: live -= 1; continue
        i, st, msg, tg, nt, h, show = r
        if st == "harness": harness_err = msg; stop.set(); continue
        evals += 1
        for t in tg: tags[t] = tags.get(t, 0) + 1
        if st == "inconclusive": incon += 1
        if st == "invalid": inval += 1
        seen.add(h)
        if nt: nontrivial.add(h)
        if nt and len(samples) < 6 and show is not None: samples.append({"index": i, "case": show, "tags": tg})
        if st == "fail":
            case = make_case(check, a.seed, i, tier)
            kid = check.known(case, msg)
            if kid and any(x["id"] == kid for x in known): known_hit.setdefault(kid, msg); tags["known:" + kid] = tags.get("known:" + kid, 0) + 1
            else:
                failures.append((i, msg, case))
                if not a.all_failures: stop.set()
    for p in ps: p.join(timeout=20)
    for p in ps:
        if p.is_alive(): p.kill()
    if harness_err:
        print("HARNESS ERROR:\n" + harness_err, file=sys.stderr)
        sys.exit(3)

    if a.all_failures:
        groups = {}
        for i, m, c in failures: groups.setdefault(m[:100], []).append((i, m))
        for g, l in sorted(groups.items(), key=lambda x: -len(x[1]))[:25]:
            print("%5d  #%d  %s" % (len(l), l[0][0], l[0][1][:int(os.environ.get("VF_MSG","500"))]))
    violation, unconfirmed = None, 0
    for i, m, c in sorted(failures, key=lambda f: f[0])[:6]:
        if a.all_failures: break
        cm = confirm(check, c)
        if cm is None:
            unconfirmed += 1
            print("unconfirmed failure of case %d (not reproducible): %s" % (i, m[:300]), file=sys.stderr)
            continue
        best, bmsg, steps = c, cm, 0
        if not a.no_shrink and (not check.flaky or confirm(check, c, always=True)):
            ctx = Ctx(check)
            best, bmsg, steps = shrink(check, ctx, c, cm, 45 if tier == "quick" else 120)
            ctx.close()
            if check.known(best, bmsg) and not check.known(c, cm): best, bmsg = c, cm
            sm = confirm(check, best)
            if sm is None: best, bmsg = c, cm
            else: bmsg = sm
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (check.id, a.seed, i))
        json.dump({"property": check.id, "seed": a.seed, "index": i, "tier": tier, "message": bmsg, "shrink_steps": steps, "case": best, "original": c},
                  open(path, "w"), indent=1, default=str)
        violation = (path, bmsg)
        break
    wall_s = time.time() - t0
    cov = dict(evaluations=evals, distinct_nontrivial=len(nontrivial), rule=check.rule,
               samples=samples or [{"note": "no non-trivial sample"}],
               distinct_cases=len(seen), classes=tags, inconclusive=incon, invalid=inval, unconfirmed=unconfirmed,
               planned=total, fixed_cases=len(fixed))
    write_evidence(check, tier, a.seed, dict(property=check.id, tier=tier, seed=int(a.seed) if str(a.seed).isdigit() else 0, level="exploration",
                   coverage=cov, assumptions=list(check.assumptions), wall_s=round(wall_s, 2), violations=1 if violation else 0))
    for k in known:
        if k["id"] in known_hit: print("KNOWN-FINDING: property=%s %s" % (check.id, k["what"]))
    print("%s: %d cases (%d planned), %d distinct non-trivial, %d inconclusive, %d invalid, %.1f s" % (check.id, evals, total, len(nontrivial), incon, inval, wall_s))
    if a.all_failures: print("classes:", json.dumps(tags)); sys.exit(1 if failures else 0)
    if violation:
        print(violation[1][:3000])
        print("VIOLATION property=%s replay=%s" % (check.id, violation[0]))
        sys.exit(1)
    if evals and incon > evals // 2:
        print("no answer: most cases were inconclusive", file=sys.stderr)
        sys.exit(3)
    sys.exit(0)

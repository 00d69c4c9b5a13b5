"""C41: the I/O wrappers see every call once, attribute it to the right mount and change nothing."""
import os
from vf.engine import Check, Fail
from vf.driver import enc, dec
from vf.model import *
from vf.rt import World, parse_rec, compare_records
from checks import rtgen

REG, FS, MP, RD, WR = "io.region", "io.filesystem", "io.mount.point", "io.bytes.read", "io.bytes.written"
FIXED = ["/dev/null", "/dev/zero", "/proc/sys/kernel/ostype", "/proc/version", "/", "/proc", "/dev", "/procx", "/dev/nullx", "/nonexist/x", "/de", "//dev//null", "/dev/shm/nonexist", "/dev/shm"]

def mounts():
    m = {}
    for l in open("/proc/mounts"):
        f = l.split(" ")
        m[tuple(x for x in f[1].split("/") if x)] = (f[1], f[2])
    return m
def mount_of(path, table=None):
    table = table or mounts()
    el = tuple(x for x in path.split("/") if x)
    for k in range(len(el), -1, -1):
        if el[:k] in table: return table[el[:k]]
    return None

SC = (("s", 0), ("s", 1))   # the scratch directory's mount

class IWorld(World):
    reserved = (REG, FS, MP, RD, WR)
    def __init__(self, ops, io=True):
        self.io = io
        self.nio, self.reg, self.slots, self.files, self.pair, self.mnt = 0, {}, {"in": ("fd", None)}, {"d": True}, {}, {}
        self.table = mounts(); self.iolines = []; self.wfile = set()   # streams on regular files of the scratch directory
        super().__init__(); self.start({"CALI_LOG_LOGFILE": "none"})   # Caliper's own messages are I/O calls of the thread, too
        self.cdline = self.emit(0, "io", "cd")
        for op in ops: self.do(op)
    def thread(self, tid):
        t = self.threads.get(tid)
        if not t:
            t = super().thread(tid); self.emit(tid, "regor")
        return t
    def svc(self, ch): return ch.cfg.get("CALI_SERVICES_ENABLE", "").split(",")
    def op_chnew(self, tid, c, active, cfg):
        if c in self.chname: return
        if not self.io: cfg = dict(cfg); cfg["CALI_SERVICES_ENABLE"] = ",".join(x for x in cfg["CALI_SERVICES_ENABLE"].split(",") if x != "io")
        super().op_chnew(tid, c, active, cfg)
        if "io" in self.svc(self.chname[c]):
            for n, t, p in ((REG, "string", THREAD), (FS, "string", THREAD | SKIP_EVENTS), (MP, "string", THREAD | SKIP_EVENTS), (RD, "uint", THREAD | ASVALUE | AGGREGATABLE), (WR, "uint", THREAD | ASVALUE | AGGREGATABLE)): self.mk(n, t, p)
            self.nio += 1
            if self.nio == 1: self.reg = {"in": mount_of("/dev/null", self.table)}
    def op_chdel(self, tid, c):
        ch = self.ch(c); was = ch and ch.alive and "io" in self.svc(ch)
        super().op_chdel(tid, c)
        if was:
            self.nio -= 1
            if self.nio == 0: self.reg = {}
    def event(self, kind, a, v, t):
        if a.name != REG: return super().event(kind, a, v, t)
        for ch in self.ios():   # only the io service's channels subscribe to it
            if ch.event: self.ch_event(ch, kind, a, v, t, t.bb)
    def ios(self): return [ch for ch in self.channels if ch.alive and ch.active and "io" in self.svc(ch)]

    def call(self, t, kind, at, *words, ret=None):
        """one I/O call: at = (mount point, filesystem) or None; ret: bytes attribute"""
        chs = self.ios(); at = at or ("unknown", "unknown")
        for ch in chs:
            for n, v in ((MP, at[0]), (FS, at[1]), (REG, kind)): self.begin(t, self.attrs[n], ("string", v))
        l = self.emit(t.tid, "io", *words) if words else 0
        if l: self.iolines.append(l); self.stats["io." + words[0]] += 1
        for ch in chs:
            if ret: self.record(ch, t, None, [("I", ret, ("n", l))]); self.stats["bytes"] += 1
            for n in (REG, FS, MP): self.end(t, self.attrs[n])
        return l
    def lookup(self, p):
        """mount of a path as the program gives it"""
        k, _, n = p.partition(":")
        if k == "r" and n not in self.files: return None
        return self.real(p)
    def spell(self, p):
        k, _, n = p.partition(":")
        return enc(n) if k in "fa" else enc("=" + n)
    def exists(self, p):
        k, _, n = p.partition(":")
        return n in self.files if k in "fr" else os.path.exists(n)
    def canopen(self, p, write, create):
        k, _, n = p.partition(":")
        if k in "fr":
            if n == "d": return not write
            return n in self.files or create
        if n.replace("//", "/") in ("/dev/null", "/dev/zero"): return True
        if n.startswith("/proc/sys/kernel/ostype") or n == "/proc/version": return None if write else True
        return not write and os.path.exists(n)
    def ok(self, p):
        k, _, n = p.partition(":")
        if k in "fr": return n in ("d", "f0", "f1", "f2", "f3", "no/x")
        return k == "a" and n in FIXED
    def real(self, p):
        k, _, n = p.partition(":")
        return SC if k in "fr" else mount_of(n, self.table)
    def opened(self, line, good, what):
        self.expect(line, lambda r: None if r.split(" ")[0] == ("ok" if good else "fail") else "%s: %s" % (what, r))
    def op_io(self, tid, what, *a):
        t = self.thread(tid); t.tid = tid
        f = getattr(self, "io_" + what, None)
        if f: f(t, *a)
    def creates(self, p):
        k, _, n = p.partition(":")
        if k in "fr" and n != "d": self.files[n] = True
    def io_open(self, t, slot, p, acc, cr):
        if slot in self.slots or not self.ok(p) or acc not in (0, 1, 2): return
        if p.endswith("no/x"): cr = False
        good = self.canopen(p, acc > 0, cr)
        if good is None: return
        if self.exists(p) and p[-1] == "d" and cr: return
        if not p.startswith(("f", "r")) and cr: return
        l = self.call(t, "metadata", self.lookup(p), "open", slot, self.spell(p), acc | (os.O_CREAT if cr else 0))
        self.opened(l, good, "open")
        if good:
            self.creates(p) if cr else None; self.slots[slot] = ("fd", acc)
            self.mnt[slot] = self.real(p)
            if self.nio: self.reg[slot] = self.mnt[slot]
    def io_fopen(self, t, slot, p, mode):
        if slot in self.slots or not self.ok(p) or mode not in ("r", "w", "a", "r+", "w+", "a+"): return
        cr = mode[0] != "r"
        if cr and p[0] == "a" and not p.endswith(("null", "zero")): return
        if p.endswith("no/x"): cr = False
        good = self.canopen(p, mode != "r", cr)
        if good is None: return
        l = self.call(t, "metadata", self.lookup(p), "fopen", slot, self.spell(p), mode)
        self.opened(l, good, "fopen")
        if good:
            if cr: self.creates(p)
            self.slots[slot] = ("F", mode); self.wfile.discard(slot)
            if p[0] in "fr" and p[2:] != "d": self.wfile.add(slot)
            self.mnt[slot] = self.real(p)
            if self.nio: self.reg[slot] = self.mnt[slot]
    def io_pipe(self, t, a, b):
        if a in self.slots or b in self.slots or a == b: return
        self.emit(t.tid, "io", "pipe", a, b); self.slots[a] = ("fd", "pr"); self.slots[b] = ("fd", "pw"); self.pair[b] = a
    def io_pfopen(self, t, slot, new):
        if self.slots.get(slot, (0, 0))[1] != "pw" or new in self.slots: return
        if self.slots.get(self.pair.get(slot), (0, 0))[1] != "pr": return   # a reader exists: the open does not block
        l = self.call(t, "metadata", mount_of("/proc", self.table), "pfopen", slot, new)
        self.opened(l, True, "fopen of a pipe"); self.slots[new] = ("F", "pw")
        if self.nio: self.reg[new] = (("pipe", l), "unknown")
    def io_fdopen(self, t, slot, new, mode):
        k, acc = self.slots.get(slot, (0, 0))
        if k != "fd" or slot == "in" or new in self.slots or {0: "r", 1: "w", 2: "r+", "pr": "r", "pw": "w"}.get(acc) != mode: return
        l = self.call(t, "metadata", self.reg.get(slot), "fdopen", slot, new, mode)
        self.opened(l, True, "fdopen"); del self.slots[slot]; self.slots[new] = ("F", "pw" if acc == "pw" else "pr" if acc == "pr" else mode)
        if slot in self.reg: self.reg[new] = self.reg.pop(slot)
        self.mnt[new] = self.mnt.get(slot)
    def io_freopen(self, t, slot, p, mode):
        if self.slots.get(slot, (0,))[0] != "F" or not self.ok(p) or mode not in ("r", "w", "a", "r+", "w+", "a+"): return
        cr = mode[0] != "r"
        if self.slots[slot][1] in ("pw", "pr"): return
        if cr and p[0] == "a" and not p.endswith(("null", "zero")): return
        if p.endswith("no/x"): cr = False
        good = self.canopen(p, mode != "r", cr)
        if good is None: return
        l = self.call(t, "metadata", self.lookup(p), "freopen", slot, self.spell(p), mode)
        self.opened(l, good, "freopen")
        self.reg.pop(slot, None)
        if good:
            if cr: self.creates(p)
            self.slots[slot] = ("F", mode); self.wfile.discard(slot)
            if p[0] in "fr" and p[2:] != "d": self.wfile.add(slot)
            self.mnt[slot] = self.real(p)
            if self.nio: self.reg[slot] = self.mnt[slot]
        else: del self.slots[slot]
    def io_remode(self, t, slot, mode):
        """freopen without a path: the same file in another mode"""
        if self.slots.get(slot, (0,))[0] != "F" or self.slots[slot][1] in ("pw", "pr") or mode not in ("r", "r+", "a"): return
        at = self.reg.get(slot)
        if self.slots[slot][1] != mode and mode != "r" and slot not in self.wfile: return
        l = self.call(t, "metadata", at, "freopen", slot, "-", mode)
        self.opened(l, True, "freopen"); self.slots[slot] = ("F", mode)
        if self.nio: self.reg[slot] = self.mnt[slot]
    def shut(self, t, slot, what, kind):
        if self.slots.get(slot, (0,))[0] != kind or slot == "in": return
        self.call(t, "metadata", self.reg.get(slot), what, slot); self.reg.pop(slot, None); del self.slots[slot]
    def io_close(self, t, slot): self.shut(t, slot, "close", "fd")
    def io_fclose(self, t, slot): self.shut(t, slot, "fclose", "F")
    def io_stat(self, t, p, l=False):
        if not self.ok(p): return
        self.call(t, "metadata", self.lookup(p), "lstat" if l else "stat", self.spell(p))
    def io_tok(self, t, p):
        if not self.ok(p): return
        at = self.lookup(p) # three stat calls between the tokens
        self.call(t, "metadata", at, "tok", self.spell(p)); self.call(t, "metadata", at); self.call(t, "metadata", at)
    def io_fstat(self, t, slot):
        if slot not in self.slots: return
        self.call(t, "metadata", self.reg.get(slot), "fstat", slot)
    def io_bad(self, t, what):
        if what not in ("badread", "badclose"): return
        self.call(t, "read" if what == "badread" else "metadata", None, what, ret=None)
    def io_seek(self, t, slot):
        if slot in self.slots: self.emit(t.tid, "io", "seek", slot)
    def io_rw(self, t, what, slot, n, es=1):
        k, m = self.slots.get(slot, (0, 0))
        if not k or k != ("fd" if what in ("read", "write") else "F"): return
        if what not in ("read", "write", "fread", "fwrite", "fgetc", "fgets", "fprintf", "fvprintf"): return
        rd = what in ("read", "fread", "fgetc", "fgets")
        if m == "pw":
            if rd: return
            n, es = n % 100, min(es, 2)
        if m == "pr" and k == "F" and not rd: return
        if what == "fgets": n = max(n, 1)
        self.call(t, "read" if rd else "write", self.reg.get(slot), what, slot, n, *([es] if what in ("fread", "fwrite") else []), ret=RD if rd else WR)

    # values known only after the run
    def fill(self, rec):
        r = self.res.res
        at = mount_of(r[self.cdline], self.table)
        out = []
        for e in rec:
            if e[0] == "I":
                v = e[2]
                if v[0] == "n":
                    n = int(r[v[1]].split(" ")[0])
                    if n <= 0: return None
                    v = ("uint", n)
                out.append(("I", e[1], v))
            elif e[0] == "R": out.append(("R", tuple((n, self.sub(n, v, at, r)) for n, v in e[1])))
            else: out.append(e)
        return out
    def sub(self, n, v, at, r):
        if v[0] == "string" and isinstance(v[1], tuple): return ("string", at[v[1][1]] if v[1][0] == "s" else r[v[1][1]].split(" ")[2])
        return v
    def check_records(self, text, want, c):
        got = [self.project(parse_rec(l)) for l in text.split("\n") if l]
        want = [(i, self.fill(rec)) for i, rec in want]
        return compare_records(got, [x for x in want if x[1] is not None], "channel " + c)
    def _reccheck(self, line, what, want):
        def chk(r):
            from vf.rt import canon, show
            got, w = self.project(parse_rec(r)), self.fill(want)
            if canon(got) != canon(w): return "%s shows\n  %s\nexpected\n  %s" % (what, show(got), show(w))
        self.expect(line, chk)
    def verify(self, res):
        self.res = res
        return super().verify(res)

class C41(Check):
    id = "C41"
    flavors = ("plain",)
    rule = ("generated programs on 1-4 threads that open, read, write, stat, reopen and close files in a scratch directory, devices, /proc files, pipes and missing paths through the POSIX and stdio functions (also failing calls, relative names, descriptors turned into streams, strtok loops around calls) and annotate regions, under 1-3 channels with event, trace and mostly io that are created, paused, cleared and deleted in between; "
            "every channel's trace must be the annotation model's with one region per call and io channel, its mount point and file system (longest mount prefix), and the bytes the call returned; results, errno and contents must be those of the same program without the io service; non-trivial: at least 4 I/O calls while an io channel is active")
    assumptions = ["one thread is in an I/O call at a time", "paths without '..' and symbolic links", "descriptors are not duplicated"]
    quick, thorough = 1500, 50000

    def gen(self, r, i, tier):
        def cfg(first):
            sv = ["event", "trace"]
            if r.random() < (0.95 if first else 0.7): sv.append("io")
            r.shuffle(sv)
            return {"CALI_SERVICES_ENABLE": ",".join(sv)}
        more = r.random() < 0.5
        st = {"n": 0}
        def path(rr):
            j = rr.random()
            if j < 0.45: return "f:" + rr.choice(["f0", "f1", "f2", "f3"])
            if j < 0.6: return "r:" + rr.choice(["f0", "f1", "f2", "no/x"])
            if j < 0.63: return "f:no/x"
            if j < 0.66: return rr.choice(["f:d", "r:d"])
            return "a:" + rr.choice(FIXED)
        def extra(rr, w, t):
            k = rr.random()
            fds = sorted(s for s, v in w.slots.items() if v[0] == "fd"); fs = sorted(s for s, v in w.slots.items() if v[0] == "F")
            st["n"] += 1; new = "s%d" % st["n"]
            size = lambda: rr.choice([0, 1, 10, 100, 4096, rr.randrange(1, 10000)])
            mode = lambda: rr.choice(["r", "r", "w", "a", "r+", "w+", "a+"])
            if k < 0.1 and len(w.slots) < 20: return ["io", t, "open", new, path(rr), rr.choice([0, 1, 2, 2]), rr.random() < 0.6]
            if k < 0.2 and len(w.slots) < 20: return ["io", t, "fopen", new, path(rr), mode()]
            if k < 0.23 and len(w.slots) < 20: return ["io", t, "pipe", new, new + "w"]
            if k < 0.25 and fds: return ["io", t, "pfopen", rr.choice(fds), new]
            if k < 0.28 and fds:
                s = rr.choice(fds); return ["io", t, "fdopen", s, new, {0: "r", 1: "w", 2: "r+", "pr": "r", "pw": "w"}.get(w.slots[s][1], "r")]
            if k < 0.32 and fs: return ["io", t, "freopen", rr.choice(fs), path(rr), mode()]
            if k < 0.33 and fs: return ["io", t, "remode", rr.choice(fs), rr.choice(["r", "r+", "a"])]
            if k < 0.38 and fds: return ["io", t, "close", rr.choice(fds)]
            if k < 0.43 and fs: return ["io", t, "fclose", rr.choice(fs)]
            if k < 0.48: return ["io", t, "stat", path(rr), rr.random() < 0.3]
            if k < 0.5: return ["io", t, "bad", rr.choice(["badread", "badclose"])]
            if k < 0.52: return ["io", t, "tok", path(rr)]
            if k < 0.55: return ["io", t, "fstat", rr.choice(sorted(w.slots))]
            if k < 0.58: return ["io", t, "seek", rr.choice(sorted(w.slots))]
            if k < 0.7 and fds: return ["io", t, "rw", rr.choice(["read", "write"]), rr.choice(fds), size()]
            if k < 0.85 and fs: return ["io", t, "rw", rr.choice(["fread", "fwrite", "fgetc", "fgets", "fprintf", "fvprintf"]), rr.choice(fs), size(), rr.choice([1, 2, 7])]
            if k < 0.88: return ["dump", t, rr.choice(["c0", "c1"])]
            if not more: return None
            j = rr.random()
            if j < 0.35: return ["chnew", t, rr.choice(["c1", "c2", "c3"]), rr.random() < 0.8, cfg(False)]
            if j < 0.55: return ["chdel", t, rr.choice(["c0", "c1", "c2"])]
            if j < 0.6: return ["chclear", t, rr.choice(["c0", "c1", "c2"])]
            return [rr.choice(["chact", "chdeact"]), t, rr.choice(["c0", "c1", "c2"])]
        return {"ops": rtgen.history(r, channels=True, chcfg=cfg(True), extra_op=extra, xprob=0.6, query=0.05, world=lambda: IWorld([]), big=tier != "quick")}

    def world(self, case): return IWorld(case["ops"])
    def run(self, ctx, case):
        w = self.world(case)
        if not w.channels: return None
        w.finish()
        res = ctx.drv("plain").run(w.lines)
        m = w.verify(res)
        if m: raise Fail(m)
        base = IWorld(case["ops"], io=False); base.finish()
        r0 = ctx.drv("plain").run(base.lines)
        for l in w.iolines:
            a, b = res.res.get(l), r0.res.get(l)
            if "pfopen" in w.lines[l]: a, b = a.split(" ")[:2], b.split(" ")[:2]
            if a != b: raise Fail("result differs from the program's without the io service: program line %d (%s): %s instead of %s" % (l, w.lines[l], a, b))
        return dict(tags=sorted(k for k in w.stats if k.startswith("io.")) + ["channels%d" % len(w.channels)], nontrivial=bool(w.nio) and w.stats["bytes"] >= 2 and len(w.iolines) >= 4, show=w.lines[:40])

CHECK = C41

"""Reference model of the annotation runtime and translation of op lists into driver programs.

An op list is plain JSON; World(ops) executes it on the model, drops ops that are not possible (so shrunk lists stay valid),
emits the driver program and remembers what every query and every record must show.

Records are compared as multisets of entries: ("R", path root first) and ("I", name, value); nodes of hidden attributes and of
Caliper's own cali.* globals are left out.
"""
import re
from collections import Counter
from .model import *
from .driver import enc, dec

BUILTIN = {"region": ("string", NESTED), "phase": ("string", NESTED | 0x40000), "comm.region": ("string", NESTED | 0x10000), "loop": ("string", NESTED),
           "thr": ("int", ASVALUE | SKIP_EVENTS)}

def level(p): return (p >> 16) & 7

class Attr:
    __slots__ = ("name", "type", "props", "meta")
    def __init__(self, name, type, props, meta=()):
        if props & GLOBAL: props = (props & ~60) | PROCESS | UNALIGNED
        if not props & 60: props |= THREAD
        self.name, self.type, self.props, self.meta = name, type, props, tuple(meta)
    @property
    def slot(self): return "I" if self.props & ASVALUE else "U" if self.props & UNALIGNED else "R"
    @property
    def scope(self): return self.props & 60

class BB:
    def __init__(self): self.p = {"R": [], "U": []}; self.I = {}
    def copy(self):
        b = BB(); b.p = {k: list(v) for k, v in self.p.items()}; b.I = dict(self.I); return b

class Thread:
    def __init__(self, inc): self.bb, self.err, self.inc, self.objs, self.tagged = BB(), False, inc, [], False

class Channel:
    def __init__(self, idx, name, active, cfg):
        self.idx, self.name, self.active, self.cfg, self.alive = idx, name, active, cfg, True
        self.recs = []          # (thread incarnation, entries)
        self.bb = BB()
        sv = re.split("[,:]", cfg.get("CALI_SERVICES_ENABLE", ""))
        self.event, self.trace = "event" in sv, "trace" in sv
        self.trigger = [x for x in re.split("[,:]", cfg.get("CALI_EVENT_TRIGGER", "")) if x]
        self.info = cfg.get("CALI_EVENT_ENABLE_SNAPSHOT_INFO", "true") == "true"
        lv = cfg.get("CALI_EVENT_REGION_LEVEL", "0")
        self.level = 4 if lv == "phase" else int(lv) if re.fullmatch("[0-7]", lv) else 0
        self.filter = None      # fn(channel, thread incarnation, kind, attr, value) -> bool
    def marked(self, a):
        return not (a.props & SKIP_EVENTS) and (not self.trigger or a.name in self.trigger) and level(a.props) >= self.level

def val_eq(a, b):
    if a == b: return True
    return a[0] == b[0] == "double" and a[1] == b[1]

def canon(entries):
    """multiset of entries -> comparable form"""
    return sorted(map(repr, entries))

INV_FORMS = ["b", "bi", "bd", "bs", "si", "sd", "ss", "sv", "e", "cb", "cs", "ce", "ev", "get", "name", "type"]
INV_IDS = ["-", "0", "3", "7", "4000000000", "123456789012"]

def hidden_name(world, n):
    if n.startswith("cali."): return True
    base = re.sub(r"^event\.(begin|set|end)#", "", n)
    a = world.attrs.get(base)
    return bool(a and a.props & HIDDEN)

class World:
    reserved = ()   # attributes that generated annotations leave alone
    SETUP_CH = dict(CALI_SERVICES_ENABLE="event,trace", CALI_CHANNEL_FLUSH_ON_EXIT="false")

    def __init__(self, ops=None, tag=True):
        self.attrs = {n: Attr(n, t, p) for n, (t, p) in BUILTIN.items()}
        self.h, self.annh, self.annused = {}, {}, set()
        self.proc, self.threads, self.ninc = BB(), {}, 0
        self.channels, self.lines, self.checks = [], [], []
        self.chname = {}
        self.tag = tag
        self.log = []            # expected log messages: (kind, incarnation)
        self.stats = Counter()
        self.par = False         # emit into parallel queues
        self.loops = {}          # thread -> loop names
        self.nows = []           # lines that read the clock
        if ops is not None:
            self.start()
            for op in ops: self.do(op)

    # --- emission
    def emit(self, tid, *words):
        self.lines.append(("P " if self.par else "") + "%d %s" % (tid, " ".join(str(w) for w in words)))
        return len(self.lines) - 1
    def raw(self, s): self.lines.append(s)
    def start(self, env=None):
        for k, v in (env or {}).items(): self.raw("ENV %s %s" % (enc(k), enc(v)))
        self.emit(0, "cattr", "thr", "thr", "int", ASVALUE | SKIP_EVENTS)
        for n in ("region", "phase", "comm.region", "loop"):
            self.emit(0, "cattr", "B." + n, enc(n), "string", 0)
            self.h["B." + n] = n
    def thread(self, tid):
        t = self.threads.get(tid)
        if not t:
            t = self.threads[tid] = Thread(self.ninc); self.ninc += 1
        if self.tag and not t.tagged:
            t.tagged = True
            self.emit(tid, "set", "id", "thr", "i:%d" % t.inc)
            t.bb.I["thr"] = ("int", t.inc)
        return t
    def expect(self, line, fn): self.checks.append((line, fn))

    # --- state
    def bbof(self, a, t): return t.bb if a.scope == THREAD else self.proc if a.scope == PROCESS else None

    def snapshot(self, t, repl=None, extra=()):
        """repl: (bb, slot, node) - the slot's path extended by the event node"""
        out = []
        for bb in (t.bb, self.proc):
            for s in ("R", "U"):
                p = list(bb.p[s])
                if repl and repl[0] is bb and repl[1] == s: p = p + [repl[2]]
                out.append(("R", tuple(p)))
            for n, v in bb.I.items(): out.append(("I", n, v))
        out += list(extra)
        return self.project(out)

    def project(self, entries):
        out = []
        for e in entries:
            if e[0] == "R":
                p = tuple((n, v) for n, v in e[1] if not hidden_name(self, n))
                if p: out.append(("R", p))
            elif e[0] == "I":
                if not hidden_name(self, e[1]): out.append(e)
            else: out.append(e)
        return out

    def event(self, kind, a, v, t):
        if a.props & SKIP_EVENTS: return
        for ch in self.channels:
            if ch.alive and ch.active and ch.event and ch.marked(a): self.ch_event(ch, kind, a, v, t, self.bbof(a, t))

    def ch_event(self, ch, kind, a, v, t, bb):
        if ch.filter and not ch.filter(ch, t.inc, kind, a, v): return
        extra = [("I", "region.count", ("uint", 1))] if kind == "end" else []
        repl = None
        if ch.info:
            n = "event.%s#%s" % (kind, a.name)
            if a.slot == "I": extra.append(("I", n, v))
            elif bb is None: extra.append(("R", ((n, v),)))
            else: repl = (bb, a.slot, (n, v))
        self.record(ch, t, repl, extra)

    def record(self, ch, t, repl=None, extra=()):
        if ch.trace: ch.recs.append((t.inc, self.snapshot(t, repl, extra)))

    def begin(self, t, a, v):
        if t.err: return
        self.event("begin", a, v, t)
        bb = self.bbof(a, t)
        if bb is None: return
        if a.slot == "I": bb.I[a.name] = v
        else: bb.p[a.slot].append((a.name, v))

    def set(self, t, a, v):
        if t.err: return
        self.event("set", a, v, t)
        bb = self.bbof(a, t)
        if bb is None: return
        self.bbset(bb, a, v)
    def bbset(self, bb, a, v):
        if a.slot == "I": bb.I[a.name] = v
        else:
            p = bb.p[a.slot]
            for i in range(len(p) - 1, -1, -1):
                if p[i][0] == a.name: del p[i]; break
            p.append((a.name, v))

    def current(self, bb, a):
        """value that end would close, or None on a nesting mistake"""
        if a.slot == "I": return bb.I.get(a.name)
        p = bb.p[a.slot]
        if a.slot == "R": return p[-1][1] if p and p[-1][0] == a.name else None
        for n, v in reversed(p):
            if n == a.name: return v
        return None

    def end(self, t, a, check=None):
        if t.err: return
        bb = self.bbof(a, t)
        if bb is None: return
        v = self.current(bb, a)
        if v is None:
            t.err = True; self.stats["stack_error"] += 1; self.log.append("Region stack mismatch")
            if check is not None: self.log.append("Stack value mismatch")
            return
        if check is not None and not val_eq(v, check):
            t.err = True; self.stats["value_error"] += 1; self.log.append("Stack value mismatch")
            return
        self.event("end", a, v, t)
        self.bbend(bb, a)
    def bbend(self, bb, a):
        if a.slot == "I": del bb.I[a.name]
        else:
            p = bb.p[a.slot]
            for i in range(len(p) - 1, -1, -1):
                if p[i][0] == a.name: del p[i]; break

    def get(self, t, a):
        bb = self.bbof(a, t)
        return self.bbget(bb, a) if bb else None
    def bbget(self, bb, a):
        if a.slot == "I": return bb.I.get(a.name)
        for n, v in reversed(bb.p[a.slot]):
            if n == a.name: return v
        return None

    def can_end(self, t, a):
        bb = self.bbof(a, t)
        return bb is not None and self.current(bb, a) is not None

    # --- attribute resolution
    def attr(self, fl, x):
        if fl not in ("lo", "id", "nm", "an"): return None
        n = x if fl == "nm" else self.annh.get(x, (None,))[0] if fl == "an" else self.h.get(x)
        return self.attrs.get(n) if n is not None else None
    def mk(self, name, type, props, meta=()):
        if name not in self.attrs: self.attrs[name] = Attr(name, type, props, meta)
        return self.attrs[name]

    def small(self, v): return v[0] != "int" or -2**31 <= v[1] < 2**31

    def resolve(self, fl, x, v, setop):
        """attribute an op acts on (created by name when needed); None when the op is not possible"""
        if fl not in ("lo", "id", "nm", "an"): return None
        if v[0] == "type" and v[1] not in TYPE_ID: return None
        if fl == "nm":
            if v[0] not in (("int", "double", "string") if setop else ("int", "double", "string", "bool")): return None
            if v[0] == "bool" and not v[1]: return None
            if not self.small(v): return None
            a = self.attrs.get(x)
            if a and a.type != v[0]: return None
            if v[0] == "string" and "\0" in v[1]: return None
            return a or self.mk(x, v[0], UNALIGNED if setop else 0)
        if fl == "an":
            if x not in self.annh: return None
            n, p = self.annh[x]
            a = self.attrs.get(n)
            if a and a.type != v[0]: return None
            if not self.small(v): return None
            if v[0] == "string" and "\0" in v[1]: return None
            self.annused.add(x)
            return a or self.mk(n, v[0], p)
        a = self.attr(fl, x)
        if not a or a.type != v[0]: return None
        if fl == "id" and (not self.small(v) or v[0] == "string" and "\0" in v[1]): return None
        if fl == "id" and not setop and v[0] == "bool" and not v[1]: return None
        return a

    # --- ops
    def do(self, op):
        f = getattr(self, "op_" + op[0])
        try: f(*op[1:])
        except (TypeError, IndexError, KeyError) as e:
            if "positional argument" in str(e): return   # a shrunk op
            raise

    def op_attr(self, tid, H, name, type, props, how="attr"):
        if type not in TYPE_ID or how not in ("attr", "cattr") or not H or H.startswith("B."): return
        self.thread(tid)
        self.mk(name, type, props); self.h[H] = name
        self.emit(tid, how, H, enc(name), type, props)
    def op_attrc(self, tid, H, name, type, props, H2):
        self.thread(tid)
        if name in self.attrs or type not in TYPE_ID: return
        if H2.startswith("#"): tgt = H2
        elif H2 in self.h: tgt = H2
        else: return
        self.mk(name, type, props); self.h[H] = name
        l = self.emit(tid, "attrc", H, enc(name), type, props, tgt)
        self.expect(l, lambda r: self.stats.update([r.split(" ")[1]]))
    def op_ann(self, tid, H, name, props):
        self.thread(tid)
        self.annh[H] = (name, props); self.annused.discard(H)
        self.emit(tid, "ann", H, enc(name), props)
    def op_b(self, tid, fl, x, v):
        v = tuple(v); t = self.thread(tid)
        a = self.resolve(fl, x, v, False)
        if not a: return
        self.emit(tid, "begin", fl, enc(x) if fl == "nm" else x, drv_val(*v))
        self.begin(t, a, v); self.stats["begin"] += 1
    def op_s(self, tid, fl, x, v):
        v = tuple(v); t = self.thread(tid)
        a = self.resolve(fl, x, v, True)
        if not a: return
        self.emit(tid, "set", fl, enc(x) if fl == "nm" else x, drv_val(*v))
        self.set(t, a, v); self.stats["set"] += 1
    def op_e(self, tid, fl, x):
        t = self.thread(tid)
        a = self.attr(fl, x)
        if not a: return
        if fl == "an" and x not in self.annused: return   # end() before the first begin()/set() does nothing
        self.emit(tid, "end", fl, enc(x) if fl == "nm" else x)
        self.end(t, a); self.stats["end"] += 1
    def op_ev(self, tid, H, v):
        v = tuple(v); t = self.thread(tid)
        a = self.attr("lo", H)
        if not a: return
        self.emit(tid, "endv", H, drv_val(*v))
        self.end(t, a, v); self.stats["end"] += 1
    def _named(self, tid, cmd, attr, s, end):
        t = self.thread(tid)
        if "\0" in s: return
        self.emit(tid, cmd, enc(s) or "%")
        if end: self.end(t, self.attrs[attr], ("string", s))
        else: self.begin(t, self.attrs[attr], ("string", s))
        self.stats["end" if end else "begin"] += 1
    def op_rb(self, tid, s): self._named(tid, "rb", "region", s, False)
    def op_re(self, tid, s): self._named(tid, "re", "region", s, True)
    def op_pb(self, tid, s): self._named(tid, "pb", "phase", s, False)
    def op_pe(self, tid, s): self._named(tid, "pe", "phase", s, True)
    def op_cb(self, tid, s): self._named(tid, "cb", "comm.region", s, False)
    def op_ce(self, tid, s): self._named(tid, "ce", "comm.region", s, True)
    def op_fn(self, tid, s): self._named(tid, "fn", "region", s, False); self.thread(tid).objs.append(("region", None))
    def op_sc(self, tid, s): self._named(tid, "sc", "region", s, False); self.thread(tid).objs.append(("region", None))
    def op_lp(self, tid, s):
        if "\0" in s: return
        t = self.thread(tid)
        self.mk("iteration#" + s, "int", ASVALUE)
        self._named(tid, "lp", "loop", s, False)
        t.objs.append(["loop", s, True])
    def op_it(self, tid, i):
        t = self.thread(tid)
        l = [o for o in t.objs if o[0] == "loop"]
        if not l or not -2**31 <= i < 2**31: return
        self.emit(tid, "it", i)
        n = "iteration#" + l[-1][1]
        self.begin(t, self.attrs[n], ("int", i)); self.stats["begin"] += 1
        t.objs.append((n, None))
    def op_lpend(self, tid):
        t = self.thread(tid)
        l = [o for o in t.objs if o[0] == "loop"]
        if not l: return
        self.emit(tid, "lpend")
        if l[-1][2]: self.end(t, self.attrs["loop"]); l[-1][2] = False
    def op_gd(self, tid, H, v):
        v = tuple(v); t = self.thread(tid)
        a = self.resolve("an", H, v, False)
        if not a: return
        self.emit(tid, "gd", H, drv_val(*v))
        self.begin(t, a, v); self.stats["begin"] += 1
        t.objs.append((a.name, None))
    def _popobj(self, t):
        o = t.objs.pop()
        if o[0] == "loop":
            if o[2]: self.end(t, self.attrs["loop"])
        else: self.end(t, self.attrs[o[0]])
        self.stats["end"] += 1
    def op_pop(self, tid):
        t = self.thread(tid)
        if not t.objs: return
        self.emit(tid, "pop"); self._popobj(t)
    def op_join(self, tid):
        if tid == 0 or tid not in self.threads: return
        t = self.threads[tid]
        self.raw("T %d" % tid)
        while t.objs: self._popobj(t)
        del self.threads[tid]
        self.stats["join"] += 1

    # --- queries
    def _valcheck(self, line, what, v):
        want = v if v is not None else ("inv", None)
        def chk(r):
            got = "?"
            try: got = parse_val(r)
            except Exception: pass
            if " " in r or not val_eq(got, want): return "%s returned %s, expected %s" % (what, r, drv_val(*want) if v else "nothing")
        self.expect(line, chk)
    def op_get(self, tid, H):
        t = self.thread(tid); a = self.attr("lo", H)
        if not a: return
        self._valcheck(self.emit(tid, "get", H), "get(%s)" % a.name, self.get(t, a)); self.stats["get"] += 1
    def op_xch(self, tid, H, v):
        """Caliper::exchange: replaces a by-value attribute's value and returns the old one (no events)"""
        t = self.thread(tid); a = self.attr("lo", H); v = tuple(v)
        if not a or a.slot != "I" or v[0] != a.type or v[0] in ("string", "usr"): return
        bb = self.bbof(a, t)
        self._valcheck(self.emit(tid, "xch", H, drv_val(*v)), "exchange(%s)" % a.name, bb.I.get(a.name) if bb else None)
        if bb: bb.I[a.name] = v
        self.stats["xch"] += 1
    def op_getn(self, tid, name):
        t = self.thread(tid); a = self.attrs.get(name)
        l = self.emit(tid, "getn", enc(name))
        if not a: self.expect(l, lambda r: None if r == "none" else "attribute %s exists" % name)
        else: self._valcheck(l, "get(%s)" % name, self.get(t, a)); self.stats["get"] += 1
    def _reccheck(self, line, what, want):
        def chk(r):
            got = self.project(parse_rec(r))
            if canon(got) != canon(want): return "%s shows\n  %s\nexpected\n  %s" % (what, show(got), show(want))
        self.expect(line, chk)
    def op_ctx(self, tid):
        t = self.thread(tid)
        self._reccheck(self.emit(tid, "ctx"), "the context of thread %d" % t.inc, self.snapshot(t)); self.stats["ctx"] += 1
    def op_pull(self, tid, c):
        t = self.thread(tid); ch = self.ch(c)
        if not ch or not ch.alive: return
        self._reccheck(self.emit(tid, "pull", ch.idx), "a pulled snapshot on thread %d" % t.inc, self.snapshot(t)); self.stats["ctx"] += 1
    def op_attrm(self, tid, H, name, type, props, metas):
        """attribute with metadata [[H2, value], ..]"""
        if type not in TYPE_ID or not H or H.startswith("B."): return
        self.thread(tid)
        words, meta = [], []
        for H2, v in metas:
            a = self.attr("lo", H2); v = tuple(v)
            if not a or a.type != v[0]: continue
            words += [H2, drv_val(*v)]; meta.append((a.name, v))
        self.mk(name, type, props, meta); self.h[H] = name
        self.emit(tid, "attr", H, enc(name), type, props, *words)
    def op_cpull(self, tid, c, lens, Hs):
        """snapshot pulled into user buffers, unpacked and searched"""
        t = self.thread(tid); ch = self.ch(c)
        if not ch or not ch.alive: return
        hs = [(H, self.attr("lo", H)) for H in Hs]; hs = [(H, a) for H, a in hs if a]
        l = self.emit(tid, "cpull", ch.idx, ",".join(map(str, lens)) or "16", *[H for H, a in hs])
        want = self.snapshot(t)
        paths = [e[1] for e in want if e[0] == "R"]
        flat = [(n, v) for p in paths for n, v in reversed(p)] + [(e[1], e[2]) for e in want if e[0] == "I"]
        def items(s):
            out = []
            for x in dec(s).split(" "):
                if not x: continue
                n, v = x.split("=", 1); n = dec(n)
                if not hidden_name(self, n): out.append((n, parse_val(v)))
            return out
        srt = lambda x: sorted(map(repr, x))
        def chk(r):
            f = r.split(" ")
            if "MISMATCH" in r: return "writes outside the buffer or reports different sizes: %s" % r[:200]
            need = int(f[0])
            if int(f[1]) != need: return "unpacking read %s bytes of a snapshot of %d bytes" % (f[1], need)
            got = items(f[2])
            if srt(got) != srt(flat): return "unpacked snapshot is %s, expected %s" % (got, flat)
            for p in paths:
                names = set(n for n, v in p)
                if repr([x for x in got if x[0] in names]) != repr(list(reversed(p))): return "order of the unpacked entries is %s, expected path %s from its end to its beginning" % (got, p)
            fi = 0
            for x in f[3:]:
                q = x.split(";")
                if q[0] == "stop":
                    if q[2] != q[4] or q[3] != "ok": return "unpacking stopped by the callback after %s entries called it %s times (expected %s, content %s)" % (q[1], q[2], q[4], q[3])
                elif q[0] == "len":
                    n, n2, part = int(q[2]), int(q[3]), items(q[4])
                    if n2 != need: return "size reported for a buffer of %d bytes is %d, for a sufficient one it is %d" % (n, n2, need)
                    if n >= need and srt(part) != srt(flat): return "a buffer of %d bytes (%d needed) unpacks to %s, expected %s" % (n, need, part, flat)
                    if Counter(map(repr, part)) - Counter(map(repr, flat)): return "a buffer of %d bytes (%d needed) unpacks to %s, which is not part of %s" % (n, need, part, flat)
                    self.stats["short" if n < need else "fits"] += 1
                else:
                    a = hs[fi][1]; fi += 1
                    if hidden_name(self, a.name): continue
                    vals = [(n, v) for n, v in flat if n == a.name]
                    if q[1] != "ok": return "searching %s read a different number of bytes than the snapshot has" % a.name
                    fv = parse_val(dec(q[2]))
                    if not val_eq(fv, vals[0][1] if vals else ("inv", None)): return "find_first(%s) is %s, expected %s" % (a.name, fv, vals[:1])
                    if repr(items(q[3])) != repr(vals): return "find_all(%s) is %s, expected %s" % (a.name, items(q[3]), vals)
                    if repr(items(q[4])) != repr(vals[:1]): return "find_all(%s) stopped after the first result is %s, expected %s" % (a.name, items(q[4]), vals[:1])
                    self.stats["found" if vals else "notfound"] += 1
        self.expect(l, chk); self.stats["cpull"] += 1
    def op_path(self, tid, how="path"):
        t = self.thread(tid)
        nest = lambda p: max([i + 1 for i, (n, v) in enumerate(p) if self.attrs[n].props & NESTED] or [0])
        r, pr = t.bb.p["R"], self.proc.p["R"]
        if nest(r): want = r[:nest(r)]
        elif not r and nest(pr): want = pr[:nest(pr)]
        elif not r and not pr: want = []
        else: return    # only non-nested entries are open: not specified
        l = self.emit(tid, how)
        if how == "path":
            exp = tuple(want)
            def chk(r):
                got = () if r == "none" else parse_rec(r)[0][1]
                if repr(got) != repr(exp): return "current region path is %s, expected %s" % (got, exp)
        else:
            e = want[-1][1][1] if want and want[-1][1][0] == "string" else "!alt"
            def chk(r):
                if dec(r) != e: return "current region is %r, expected %r" % (dec(r), e)
        self.expect(l, chk); self.stats["path"] += 1
    def op_regor(self, tid): self.op_path(tid, "regor")
    def _pushinfo(self, items):
        path, imm, words = [], [], []
        for H, v in items:
            a = self.attr("lo", H); v = tuple(v)
            if not a or a.type != v[0]: continue
            words += [H, drv_val(*v)]
            if a.slot == "I": imm.append(("I", a.name, v))
            else: path.append((a.name, v))
        return words, imm + ([("R", tuple(path))] if path else [])
    def op_push(self, tid, items):
        t = self.thread(tid)
        words, extra = self._pushinfo(items[:64])
        self.emit(tid, "push", len(words) // 2, *words)
        for ch in self.channels:
            if ch.alive and ch.active: self.record(ch, t, None, extra)
        self.stats["push"] += 1
    def op_inv(self, tid, f, id):
        """an annotation call with something that is not an attribute"""
        if f not in INV_FORMS or id not in INV_IDS: return
        self.thread(tid); self.stats["inv"] += 1
        want = {"get": "x:", "name": "null", "type": "0 0"}.get(f)
        l = self.emit(tid, "inv", f, id)
        if want: self.expect(l, lambda r: None if r == want else "cali_%s with an invalid attribute id: %s" % (f, r))
    def op_chpush(self, tid, c, items):
        t = self.thread(tid); ch = self.ch(c)
        if not ch: return
        words, extra = self._pushinfo(items[:64])
        self.emit(tid, "chpush", ch.idx, len(words) // 2, *words)
        if ch.alive and ch.active: self.record(ch, t, None, extra)
        self.stats["push"] += 1
    def op_pushn(self, tid, n, v0, Hs):
        t = self.thread(tid)
        Hs = [H for H in Hs if self.attr("lo", H) and self.attr("lo", H).type == "int"][:64]
        if not Hs: return
        self.emit(tid, "pushn", n, v0, *Hs)
        for k in range(n):
            _, extra = self._pushinfo([[H, ["int", v0 + k]] for H in Hs])
            for ch in self.channels:
                if ch.alive and ch.active: self.record(ch, t, None, extra)
        self.stats["push"] += n
    def op_glob(self, tid, name, v):
        v = tuple(v); t = self.thread(tid)
        if v[0] not in ("int", "uint", "double", "string") or not self.small(v): return
        a = self.attrs.get(name)
        if a and a.type != v[0]: return
        a = a or self.mk(name, v[0], GLOBAL | UNALIGNED | SKIP_EVENTS)
        self.emit(tid, "glob", enc(name), drv_val(*v))
        self.set(t, a, v); self.stats["set"] += 1

    # --- channels
    def ch(self, c): return self.chname.get(c)
    def op_chnew(self, tid, c, active, cfg):
        self.thread(tid)
        if c in self.chname: return
        full = dict(self.SETUP_CH); full.update(cfg)
        ch = Channel(len(self.channels), c, bool(active), full)
        self.channels.append(ch); self.chname[c] = ch
        words = []
        for k, v in full.items(): words += [enc(k), enc(v) or "%"]
        self.emit(tid, "chnew", enc(c), 0 if active else 1, *words)
        return ch
    def op_chact(self, tid, c):
        self.thread(tid); ch = self.ch(c)
        if not ch: return
        self.emit(tid, "chact", ch.idx); ch.active = ch.alive
    def op_chdeact(self, tid, c):
        self.thread(tid); ch = self.ch(c)
        if not ch: return
        self.emit(tid, "chdeact", ch.idx); ch.active = False
    def op_chisact(self, tid, c):
        self.thread(tid); ch = self.ch(c)
        if not ch: return
        w = "1" if ch.alive and ch.active else "0"
        self.expect(self.emit(tid, "chisact", ch.idx), lambda r: None if r == w else "channel %s is_active is %s, expected %s" % (c, r, w))
    def op_chclear(self, tid, c):
        self.thread(tid); ch = self.ch(c)
        if not ch or not ch.alive: return
        self.emit(tid, "chclear", ch.idx); ch.recs = []
    def op_chdel(self, tid, c):
        self.thread(tid); ch = self.ch(c)
        if not ch or not ch.alive: return
        self.emit(tid, "chdel", ch.idx); ch.alive = ch.active = False
    def op_chset(self, tid, c, H, v):
        v = tuple(v); self.thread(tid); ch = self.ch(c); a = self.attr("lo", H)
        if not ch or not ch.alive or not a or a.type != v[0]: return
        self.emit(tid, "chset", ch.idx, H, drv_val(*v))
        if not a.props & SKIP_EVENTS and ch.active and ch.event and ch.marked(a): self.ch_event(ch, "set", a, v, self.thread(tid), self.bbof(a, self.thread(tid)))
        self.bbset(ch.bb, a, v)
    def op_chget(self, tid, c, H):
        self.thread(tid); ch = self.ch(c); a = self.attr("lo", H)
        if not ch or not ch.alive or not a: return
        self._valcheck(self.emit(tid, "chget", ch.idx, H), "channel get(%s)" % a.name, self.bbget(ch.bb, a)); self.stats["get"] += 1
    def op_chbegin(self, tid, c, H, v):
        v = tuple(v); t = self.thread(tid); ch = self.ch(c); a = self.attr("lo", H)
        if not ch or not ch.alive or not a or a.type != v[0]: return
        self.emit(tid, "chbegin", ch.idx, H, drv_val(*v))
        if not a.props & SKIP_EVENTS and ch.active and ch.event and ch.marked(a): self.ch_event(ch, "begin", a, v, t, self.bbof(a, t))
        if a.slot == "I": ch.bb.I[a.name] = v
        else: ch.bb.p[a.slot].append((a.name, v))
    def op_chend(self, tid, c, H):
        t = self.thread(tid); ch = self.ch(c); a = self.attr("lo", H)
        if not ch or not ch.alive or not a: return
        v = self.current(ch.bb, a)
        if v is None: return
        self.emit(tid, "chend", ch.idx, H)
        if not a.props & SKIP_EVENTS and ch.active and ch.event and ch.marked(a): self.ch_event(ch, "end", a, v, t, self.bbof(a, t))
        self.bbend(ch.bb, a)
    def op_globs(self, tid, c=None):
        self.thread(tid)
        bbs = [self.proc]
        if c is not None:
            ch = self.ch(c)
            if not ch or not ch.alive: return
            bbs = [self.proc, ch.bb]
        want = []
        for bb in bbs:
            want += [(n, v) for s in ("R", "U") for n, v in bb.p[s] if self.attrs[n].props & GLOBAL] + [(n, v) for n, v in bb.I.items() if self.attrs[n].props & GLOBAL]
        want = [x for x in want if not hidden_name(self, x[0])]
        l = self.emit(tid, "globs", *([ch.idx] if c is not None else []))
        def chk(r):
            got = []
            for e in parse_rec(r):
                if e[0] == "I": got.append((e[1], e[2]))
                elif e[0] == "R": got += list(e[1])
            got = [x for x in got if not hidden_name(self, x[0]) and not x[0].startswith("starttime.")]
            if sorted(map(repr, got)) != sorted(map(repr, want)): return "the run's global values are %s, expected %s" % (got, want)
        self.expect(l, chk); self.stats["get"] += 1
    # operations on a channel that was deleted must have no effect
    def op_dead(self, tid, c, what):
        self.thread(tid); ch = self.ch(c)
        if not ch or ch.alive or what not in ("chact", "chdeact", "chflush", "chdel", "chisact"): return
        l = self.emit(tid, what, ch.idx)
        if what == "chisact": self.expect(l, lambda r: None if r == "0" else "deleted channel is reported active")
        self.stats["dead"] += 1
    def op_rp(self, *a): pass
    def op_cm(self, *a): pass
    def op_now(self, tid):
        self.thread(tid); self.nows.append(self.emit(tid, "now"))
    def op_busy(self, tid, us):
        self.thread(tid); self.emit(tid, "busy", min(int(us), 5000))
    def op_mwork(self, tid, us):
        self.thread(tid); self.emit(tid, "mwork", min(int(us), 5000))
    def op_dump(self, tid, c):
        self.thread(tid); ch = self.ch(c)
        if not ch or not ch.alive: return
        want = list(ch.recs)
        l = self.emit(tid, "dump", ch.idx)
        self.stats["records"] += len(want); self.stats["dumps"] += 1
        self.expect(l, lambda r: self.check_records(dec(r), want, c))

    def check_records(self, text, want, c):
        got = [self.project(parse_rec(l)) for l in text.split("\n") if l]
        return compare_records(got, want, "channel " + c)

    # --- run
    def finish(self):
        """dump every channel at the end"""
        for c in list(self.chname): self.op_dump(0, c)
    def run(self, drv, **kw):
        return drv.run(self.lines, **kw)
    def verify(self, res):
        for line, fn in self.checks:
            m = fn(res.res.get(line, ""))
            if m: return "%s: program line %d (%s): %s" % (self.lines[line].split(" ")[2 if self.lines[line][0] == "P" else 1] + " differs", line, self.lines[line][:120], m)
        return None

def thr_of(rec):
    for e in rec:
        if e[0] == "I" and e[1] == "thr": return e[2][1]
    return None

def show(rec): return " ".join(("%s=%s" % (e[1], drv_val(*e[2])) if e[0] == "I" else "/".join("%s=%s" % (n, drv_val(*v)) for n, v in e[1]) if e[0] == "R" else "E") for e in rec) or "(empty)"

def compare_records(got, want, what):
    """got: records in delivery order; want: (thread, record) in program order. Order is compared per thread."""
    g, w = {}, {}
    for r in got: g.setdefault(thr_of(r), []).append(canon(r))
    for t, r in want: w.setdefault(t, []).append(canon(r))
    gs = {}
    for r in got: gs.setdefault(thr_of(r), []).append(r)
    ws = {}
    for t, r in want: ws.setdefault(t, []).append(r)
    for t in sorted(set(g) | set(w), key=str):
        a, b = g.get(t, []), w.get(t, [])
        if a == b: continue
        for i in range(max(len(a), len(b))):
            x, y = a[i] if i < len(a) else None, b[i] if i < len(b) else None
            if x != y:
                return "%s, thread %s: %d records, expected %d; record %d is\n  %s\nexpected\n  %s" % (
                    what, t, len(a), len(b), i, show(gs[t][i]) if x is not None else "missing", show(ws[t][i]) if y is not None else "no such record")
    return None

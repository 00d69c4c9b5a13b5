"""Client of the vdrv request server (one per worker process)."""
import os, select, shutil, signal, struct, subprocess, tempfile, time
from . import build

SCRATCH_ROOT = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:detect_odr_violation=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=1:log_path=stderr",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:report_signal_unsafe=0:second_deadlock_stack=1",
}

class Crash(Exception):
    """The code under test crashed or hung (not the harness)."""
class Inconclusive(Exception):
    """No answer because of the environment (wall time without CPU use, ...)."""

def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith("CALI_")}
    e.update(SAN_ENV)
    e["LC_ALL"] = "C"
    return e

def cpu_of(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return 0.0

class Driver:
    CPU_LIMIT = 30.0
    WALL_LIMIT = 150.0

    def __init__(self, flavor="asan", exe="vdrv", env=None):
        self.flavor, self.exe, self.extra_env = flavor, exe, env or {}
        self.proc = None
        self.dir = tempfile.mkdtemp(prefix="vf-", dir=SCRATCH_ROOT)
        self.nrun = 0

    def _start(self):
        env = base_env(); env.update(self.extra_env)
        self.errpath = os.path.join(self.dir, "drv.err")
        self.errf = open(self.errpath, "wb")
        self.proc = subprocess.Popen([build.tool(self.exe, self.flavor)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=self.errf, env=env, cwd=self.dir, bufsize=0)
        self.buf = b""

    def _kill(self):
        if self.proc:
            try: self.proc.kill()
            except Exception: pass
            self.proc.wait()
            for f in (self.proc.stdin, self.proc.stdout): 
                try: f.close()
                except Exception: pass
            self.errf.close()
            self.proc = None

    def restart(self):
        self._kill()

    def close(self):
        self._kill()
        shutil.rmtree(self.dir, ignore_errors=True)

    def _err(self):
        try:
            d = open(self.errpath, "rb").read()
            i = d.find(b"ERROR: AddressSanitizer")
            if i < 0: i = d.find(b"runtime error")
            d = d[max(0, i - 200):i + 2500] if i >= 0 else d[-1500:]
            return d.decode(errors="replace")
        except Exception:
            return ""

    def _read(self, n, deadline, cpu0):
        while len(self.buf) < n:
            t = deadline - time.time()
            r, _, _ = select.select([self.proc.stdout], [], [], min(max(t, 0.0), 2.0))
            if r:
                d = os.read(self.proc.stdout.fileno(), 1 << 20)
                if not d:
                    rc = self.proc.wait()
                    e = self._err()
                    self._kill()
                    if rc == -9 and "Sanitizer" not in e:
                        raise Inconclusive("driver was killed")
                    raise Crash("driver died (status %s): %s" % (rc, e))
                self.buf += d
                continue
            if cpu_of(self.proc.pid) - cpu0 > self.CPU_LIMIT:
                self._kill()
                raise Crash("hang: no answer after %.0f s of CPU time" % self.CPU_LIMIT)
            if t <= 0:
                self._kill()
                raise Inconclusive("no answer in time")
        d, self.buf = self.buf[:n], self.buf[n:]
        return d

    def raw(self, *fields):
        if self.proc is None:
            self._start()
        msg = [struct.pack("<I", len(fields))]
        for f in fields:
            if isinstance(f, str): f = f.encode("utf-8", "surrogateescape")
            msg.append(struct.pack("<I", len(f))); msg.append(f)
        data = b"".join(msg)
        cpu0 = cpu_of(self.proc.pid)
        try:
            # large requests: the server reads everything before it answers
            mv = memoryview(data)
            while len(mv):
                k = os.write(self.proc.stdin.fileno(), mv[:65536])
                mv = mv[k:]
        except BrokenPipeError:
            rc = self.proc.wait(); e = self._err(); self._kill()
            raise Crash("driver died (status %s): %s" % (rc, e))
        deadline = time.time() + self.WALL_LIMIT
        n, = struct.unpack("<I", self._read(4, deadline, cpu0))
        out = []
        for _ in range(n):
            l, = struct.unpack("<I", self._read(4, deadline, cpu0))
            out.append(self._read(l, deadline, cpu0))
        return out

    def req(self, *fields):
        out = [x.decode("utf-8", "surrogateescape") for x in self.raw(*fields)]
        if out and out[0] == "exception":
            raise Crash("uncaught exception: " + out[1])
        if out and out[0] == "bad_request":
            raise RuntimeError("bad request %r" % (fields[0],))
        return out

    def run(self, program, cpu=30, wall=120, files=None, check=True):
        """Runs an annotation program in a fresh child process."""
        d = tempfile.mkdtemp(prefix="r", dir=self.dir)
        try:
            for n, c in (files or {}).items():
                with open(os.path.join(d, n), "wb") as f: f.write(c if isinstance(c, bytes) else c.encode("utf-8", "surrogateescape"))
            text = "\n".join(program) + "\n"
            st = self.req("run", d, str(cpu), str(wall), text)[1]
            def rd(n):
                try: return open(os.path.join(d, n), "rb").read().decode("utf-8", "surrogateescape")
                except OSError: return ""
            res, done = {}, False
            for l in rd("res").split("\n"):
                if l == "DONE": done = True; continue
                a = l.split(" ", 1)
                if len(a) == 2: res[int(a[0])] = a[1]
            out = RunResult(st, res, rd("out"), rd("err"), done,
                            {n: rd(n) for n in os.listdir(d) if n not in ("res", "out", "err") and os.path.isfile(os.path.join(d, n))})
            if st == "signal 14" : raise Inconclusive("program did not finish in time")
            if st == "signal 9" and check: raise Inconclusive("program was killed")
            if st == "signal 24": raise Crash("hang: the program used %d s of CPU time" % cpu)
            if check and (st != "exit 0" or not done):
                raise Crash("program ended with %s: %s" % (st, san_tail(out.err)))
            return out
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def tool(self, name, args, stdin=b"", files=None, timeout=120, env=None, prefix=()):
        """Runs a command line tool in a scratch directory. -> (rc, stdout, stderr, files)"""
        d = tempfile.mkdtemp(prefix="t", dir=self.dir)
        try:
            for n, c in (files or {}).items():
                with open(os.path.join(d, n), "wb") as f: f.write(c if isinstance(c, bytes) else c.encode("utf-8", "surrogateescape"))
            e = base_env(); e.update(env or {})
            if isinstance(stdin, str): stdin = stdin.encode("utf-8", "surrogateescape")
            try:
                p = subprocess.run(list(prefix) + [build.tool(name, self.flavor)] + list(args), input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   cwd=d, env=e, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Inconclusive("tool timeout")
            err = p.stderr.decode("utf-8", "surrogateescape")
            if p.returncode < 0 or p.returncode == 99 or "AddressSanitizer" in err or "runtime error:" in err:
                raise Crash("%s ended with status %d: %s" % (name, p.returncode, san_tail(err)))
            extra = {}
            for n in os.listdir(d):
                if n not in (files or {}) and os.path.isfile(os.path.join(d, n)):
                    extra[n] = open(os.path.join(d, n), "rb").read().decode("utf-8", "surrogateescape")
            return p.returncode, p.stdout.decode("utf-8", "surrogateescape"), err, extra
        finally:
            shutil.rmtree(d, ignore_errors=True)

def san_tail(err):
    for k in ("ERROR: AddressSanitizer", "runtime error:", "WARNING: ThreadSanitizer"):
        i = err.find(k)
        if i >= 0: return err[max(0, i - 100):i + 2500]
    return err[-1500:]

class RunResult:
    def __init__(self, status, res, out, err, done, files):
        self.status, self.res, self.out, self.err, self.done, self.files = status, res, out, err, done, files

def dec(s):
    b, i, raw = bytearray(), 0, s.encode("utf-8", "surrogateescape")
    while i < len(raw):
        if raw[i] == 37 and i + 2 < len(raw) + 0 and i + 2 <= len(raw) - 1:
            b.append(int(raw[i + 1:i + 3], 16)); i += 3
        else:
            b.append(raw[i]); i += 1
    return b.decode("utf-8", "surrogateescape")

_SAFE = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.#-:")
def enc(s):
    raw = s.encode("utf-8", "surrogateescape") if isinstance(s, str) else s
    return "".join(chr(c) if c in _SAFE else "%%%02x" % c for c in raw)

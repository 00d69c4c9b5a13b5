"""Builds LLNL/Caliper from /repo's current working tree, outside /repo.

The tree is mirrored by content (rsync -c), so an incremental rebuild happens
exactly when file contents changed, whatever their time stamps say.
"""
import fcntl, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(BUILD, "src")

FLAVORS = {
    # name: (cxx/c flags, link flags)
    "asan": "-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address,null,bounds,integer-divide-by-zero,bool,enum,return,unreachable,vla-bound -fno-sanitize-recover=all",
    "tsan": "-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=thread",
    "plain": "-O1 -gline-tables-only",
}
HARNESS_FLAGS = {
    "asan": FLAVORS["asan"], "tsan": FLAVORS["tsan"], "plain": FLAVORS["plain"],
}
MPI_CACHE = os.path.join(VERIF, "harness", "mpi.cmake")

def log(*a):
    print("[build]", *a, file=sys.stderr, flush=True)

class BuildError(Exception):
    pass

def _run(cmd, logfile, cwd=None):
    with open(logfile, "ab") as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=cwd)
    if r.returncode:
        tail = open(logfile, "rb").read()[-6000:].decode(errors="replace")
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), tail))

def ensure(flavors=("asan",), targets=None):
    """Build the given flavors (libcaliper, tools, harness). Returns dict flavor->dir."""
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        subprocess.run(["rsync", "-rlpc", "--delete", "--exclude=/.git", "--exclude=/_build",
                        "--exclude=/build*", "--exclude=__pycache__", REPO + "/", SRC + "/"], check=True)
        out = {}
        for fl in flavors:
            bdir = os.path.join(BUILD, fl)
            logf = os.path.join(BUILD, fl + ".log")
            open(logf, "w").close()
            flags = FLAVORS[fl]
            if not os.path.exists(os.path.join(bdir, "build.ninja")):
                _run(["cmake", "-S", os.path.join(VERIF, "harness"), "-B", bdir, "-G", "Ninja",
                      "-C", MPI_CACHE, "-DCALI_SRC=" + SRC, "-DVF_FLAVOR=" + fl,
                      "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_COMPILER=/usr/bin/clang",
                      "-DCMAKE_CXX_COMPILER=/usr/bin/clang++",
                      "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_C_FLAGS=" + flags], logf)
            _run(["ninja", "-C", bdir] + (targets or []), logf)
            out[fl] = bdir
    log("ready: %s in %.1fs" % (",".join(flavors), time.time() - t0))
    return out

def tool(name, flavor="asan"):
    b = os.path.join(BUILD, flavor)
    if name in ("cali-query", "cali-stat", "mpi-caliquery"):
        return os.path.join(b, "caliper", "src", "tools", name, name)
    return os.path.join(b, name)

if __name__ == "__main__":
    try:
        ensure(tuple(sys.argv[1:]) or ("asan",))
    except BuildError as e:
        print(e, file=sys.stderr); sys.exit(2)

"""Build drivers from /repo's current working tree (content-hash cached in /verif/build)."""
import concurrent.futures, glob, hashlib, os, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LHF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LIBS = ["Complex", "Pipes", "Preprocessing", "Utils"]
CXX = "g++"
BASE = ["-std=gnu++14", "-w", "-g1", "-pthread"]
SAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-sanitize=vptr", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"]
FAST = ["-O2", "-D_GLIBCXX_ASSERTIONS"]          # for long histories, where the sanitizers cost too much
MPI_INC = ["/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _sources(dirs):
    out = []
    for d in dirs:
        for pat in ("*.cpp", "*.cc", "*.cxx"):
            out += sorted(glob.glob(os.path.join(REPO, d, pat)))
    return out


def _headers():
    out = []
    for d in LIBS + ["LHFmain"]:
        for pat in ("*.hpp", "*.h"):
            out += sorted(glob.glob(os.path.join(REPO, d, pat)))
    return out


def _compile(src, flags, salt):
    key = _sha(_read(src), os.path.basename(src), " ".join(flags), salt)
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:]))
        os.replace(tmp, obj)
    return obj


def build(name, dirs=LIBS, main=None, san=True, src=None):
    """Link driver `name` (drivers/<name>.cpp) with the objects of `dirs` and, if asked, /repo's `main` program."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        inc = ["-I" + os.path.join(REPO, d) for d in LIBS]
        flags = BASE + (SAN if san else FAST) + inc
        hdr = _sha(*[os.path.basename(h).encode() + b"\0" + _read(h) for h in _headers()])
        jobs = [(s, flags, hdr) for s in _sources(dirs)]
        if main:
            # /repo's own main(), callable from the driver
            mflags = flags + ["-DOMPI_SKIP_MPICXX", "-Dmain=lhf_main"] + [x for m in MPI_INC for x in ("-isystem", m)]
            for s in _sources([os.path.dirname(main)]):
                jobs.append((s, mflags, hdr))
        dsrc = os.path.join(VERIF, "drivers", (src or name) + ".cpp")
        common = os.path.join(VERIF, "drivers", "common.hpp")
        jobs.append((dsrc, flags + ["-I" + os.path.join(VERIF, "drivers")], hdr + _sha(_read(common))))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            objs = list(ex.map(lambda j: _compile(*j), jobs))
        link = BASE + (SAN if san else [])
        exe = os.path.join(BUILD, "bin", name + "-" + _sha(" ".join(objs), " ".join(link)))
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + ".%d.tmp" % os.getpid()
            r = subprocess.run([CXX] + link + objs + ["-o", tmp, "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError("linking %s failed:\n%s" % (name, r.stdout.decode(errors="replace")[-4000:]))
            os.replace(tmp, exe)
        return exe
    finally:
        lock.close()


if __name__ == "__main__":
    for n in sys.argv[1:]:
        print(build(n))

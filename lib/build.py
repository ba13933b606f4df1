"""Builds /repo's libraries (through /repo's own Makefile) and the harnesses of /verif/src.

Every product is keyed by the content of /repo/src, /repo/Makefile, the options and (for harnesses) /verif/src, so a
product is reused only when it would come out the same; nothing is ever written inside /repo."""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import shutil
import subprocess

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(VERIF, "src")
CACHE = os.path.join(VERIF, ".cache")
SIZES = (640, 976, 1344)
JOBS = os.cpu_count() or 4

GEN = {
    "aes-ossl": ["GENERATION_A=AES128"],
    "aes-own": ["GENERATION_A=AES128", "USE_OPENSSL=FALSE"],
    "shake": ["GENERATION_A=SHAKE128"],
}
OPTS = ("REFERENCE", "FAST_GENERIC", "FAST")
GCC, CLANG = "/usr/bin/gcc", "/usr/bin/clang-18"


class BuildError(Exception):
    pass


def run(cmd, cwd=None, env=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=env, text=True, errors="replace", stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-4000:]))
    return r.stdout


_hash = {}


def tree_hash(top):
    if top in _hash:
        return _hash[top]
    h = hashlib.sha256()
    files = []
    for d, dirs, names in os.walk(top):
        dirs[:] = [x for x in dirs if x not in (".git", "_build", "objs")]
        files += [os.path.join(d, f) for f in names if not f.endswith((".o", ".a"))]
    for f in sorted(files):
        h.update(os.path.relpath(f, top).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    _hash[top] = h.hexdigest()
    return _hash[top]


def repo_hash():
    h = hashlib.sha256(tree_hash(os.path.join(REPO, "src")).encode())
    with open(os.path.join(REPO, "Makefile"), "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def _key(*parts):
    return hashlib.sha256("\1".join(str(p) for p in parts).encode()).hexdigest()[:24]


def prune(keep_bytes=3 << 30):
    """Drops the oldest products when the cache is large."""
    try:
        ents = []
        for e in os.scandir(CACHE):
            if e.is_dir():
                size = sum(os.path.getsize(os.path.join(d, f)) for d, _, fs in os.walk(e.path) for f in fs)
                ents.append((e.stat().st_mtime, size, e.path))
        total = sum(s for _, s, _ in ents)
        for _, s, p in sorted(ents):
            if total <= keep_bytes:
                break
            shutil.rmtree(p, ignore_errors=True)
            total -= s
    except OSError:
        pass


def _cached(key, make):
    """make(dir) fills a fresh directory; returns the finished directory."""
    os.makedirs(CACHE, exist_ok=True)
    final = os.path.join(CACHE, key)
    with open(os.path.join(CACHE, key + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, ".done")):
            return final
        shutil.rmtree(final, ignore_errors=True)
        os.makedirs(final)
        make(final)
        open(os.path.join(final, ".done"), "w").close()
    return final


def lib(opt, gen, cc=GCC, cflags="-O3", extra=(), sizes=SIZES):
    """A directory holding frodoN/libfrodo.a (with the system randomness) and frodoN/libfrodo_for_testing.a."""
    sizes = tuple(sizes)

    def make(d):
        for name in ("src", "tests", "Makefile"):
            os.symlink(os.path.join(REPO, name), os.path.join(d, name))
        targets = [f"lib{n}" for n in sizes] + [f"lib{n}_for_KATs" for n in sizes]
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/root", "LC_ALL": "C"}
        args = [f"CC={cc}", f"OPT_LEVEL={opt}", *GEN[gen], f"EXTRA_CFLAGS={cflags}", *extra]
        for t in targets:  # one at a time: the library targets begin by removing their directory
            run(["make", "-s", t, *args], cwd=d, env=env)
        shutil.rmtree(os.path.join(d, "objs"), ignore_errors=True)
        for name in ("src", "tests", "Makefile"):
            os.unlink(os.path.join(d, name))

    return _cached(_key("lib", repo_hash(), opt, gen, cc, cflags, extra, sizes), make)


def shared(opt, gen, size, cc=GCC, cflags="-O3", extra=(), testing=True, sizes=SIZES, symbolic=True):
    """libfrodo as a shared object to be opened with dlopen. testing: without the library's own randombytes."""
    base = lib(opt, gen, cc, cflags + " -fPIC", extra, sizes)

    def make(d):
        a = os.path.join(base, f"frodo{size}", "libfrodo_for_testing.a" if testing else "libfrodo.a")
        cmd = [cc, "-shared", "-o", os.path.join(d, "lib.so"), *(["-Wl,-Bsymbolic"] if symbolic else []), "-Wl,--whole-archive", a,
               "-Wl,--no-whole-archive"]
        if gen != "aes-own":
            cmd.append("-lcrypto")
        run(cmd)

    return os.path.join(_cached(_key("so2", base, size, testing, gen, symbolic), make), "lib.so")


def harness(name, sources, cc=GCC, cflags="-O2 -g", libs=(), archives=(), ldflags=(), repo_includes=False, keys=()):
    """An executable from /verif/src sources, linked with the given archives."""
    srcs = [os.path.join(SRC, s) for s in sources]

    def make(d):
        run([cc, "-std=gnu11", *cflags.split(), "-I", SRC, "-I", os.path.join(REPO, "src"), "-Wall", "-Wextra",
             "-Wno-unused-parameter", "-Wno-unused-function", "-Wno-unused-command-line-argument",
             "-o", os.path.join(d, name), *srcs, *archives,
             *ldflags, *libs])

    return os.path.join(_cached(_key("exe", tree_hash(SRC), repo_hash() if repo_includes else "", name, sources, cc, cflags,
                                     libs, archives, ldflags, keys), make), name)


def parallel(jobs, workers=None):
    """jobs: list of (fn, args, kwargs). Returns results in order; raises the first error."""
    with cf.ThreadPoolExecutor(workers or JOBS) as ex:
        futs = [ex.submit(f, *a, **k) for f, a, k in jobs]
        return [f.result() for f in futs]

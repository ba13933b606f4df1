"""The checks, one function per property."""
import build as b
from driver import Job, HarnessError

CORE = [(o, g, n) for o in b.OPTS for g in b.GEN for n in b.SIZES]


def gflag(gen):
    return "shake" if gen == "shake" else "aes"


def core_libs(configs=CORE, **kw):
    """{(opt, gen, n): path of the shared object}, built in parallel per (opt, gen)."""
    pairs = sorted(set((o, g) for o, g, _ in configs))
    b.parallel([(b.lib, (o, g), dict(cc=kw.get("cc", b.GCC), cflags=kw.get("cflags", "-O3") + " -fPIC", extra=kw.get("extra", ()))) for o, g in pairs])
    res = b.parallel([(b.shared, c, kw) for c in configs])
    return dict(zip(configs, res))


def monitor(name="kem_mon", sources=("kem_mon.c", "common.c", "oracle.c"), **kw):
    kw.setdefault("cflags", "-O3 -g -march=native")
    return b.harness(name, list(sources), libs=("-lcrypto", "-ldl", "-lpthread", "-lm"), ldflags=("-rdynamic", *kw.pop("ldflags", ())), **kw)


# relative cost of one operation, to balance the work over the configurations
COST = {("REFERENCE", "aes-ossl"): 3, ("REFERENCE", "aes-own"): 20, ("REFERENCE", "shake"): 6,
        ("FAST_GENERIC", "aes-ossl"): 1, ("FAST_GENERIC", "aes-own"): 18, ("FAST_GENERIC", "shake"): 4,
        ("FAST", "aes-ossl"): 1, ("FAST", "aes-own"): 1, ("FAST", "shake"): 2}
NCOST = {640: 1.0, 976: 2.2, 1344: 4.2}


def iters(cfg, base, lo):
    o, g, n = cfg
    return max(lo, int(base / ((COST[(o, g)] + 3) / 4 * NCOST[n])))


def kem_jobs(c, mode, base, lo, libs, exe, split=1, extra=()):
    jobs = []
    for i, (cfg, so) in enumerate(sorted(libs.items())):
        o, g, n = cfg
        k = iters(cfg, base, lo)
        for s in range(split):
            jobs.append((-(COST[(o, g)] + 3) * NCOST[n] * k, Job("%s/%s/%d" % cfg, [exe, mode, so, n, gflag(g), c.seed * 1000 + i * 16 + s, max(1, k // split), *extra])))
    return [j for _, j in sorted(jobs, key=lambda x: x[0])]


RULE_API = ("Each case is one call sequence on one build configuration with generated bytes (uniform, constant, single-bit, ramp, periodic and "
            "mixed-extreme fields); distinct counts different input byte strings per configuration (64-bit hash of the input).")


HUNT = "-O1 -g -fno-vectorize -fno-slp-vectorize -fno-builtin -fsanitize-coverage=edge,trace-pc-guard,trace-cmp"
RULE_HUNT = (" In addition every configuration is built with comparison tracing: comparisons whose operands depend on the input (or, for histories, on earlier calls) are singled out and driven to each outcome, "
             "and every input reaching something new is judged by the model (see *_sites in observed).")


def hunt_jobs(c, modes, configs=CORE, quick=100, rounds=30, asan=False, peers=None):
    if asan:
        san = " -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"
        libs = core_libs(configs, cc=b.CLANG, cflags=HUNT + san)
        exe = monitor("hunt_mon", ("hunt_mon.c", "common.c", "oracle.c"), cc=b.CLANG, cflags="-O2 -g -fno-builtin -fsanitize=address,undefined -fno-sanitize=alignment,function -fno-sanitize-recover=all")
    else:
        libs = core_libs(configs, cc=b.CLANG, cflags=HUNT)
        exe = monitor("hunt_mon", ("hunt_mon.c", "common.c", "oracle.c"), cflags="-O2 -g -fno-builtin")
    c.rule += RULE_HUNT
    prod = core_libs(configs) if "history" in modes else {}
    jobs = []
    for i, (cfg, so) in enumerate(sorted(libs.items())):
        quickest = cfg[2] == 640 and COST[cfg[:2]] <= 4  # most of the code is common to all: search longest where a call is cheapest
        for m in modes:
            jobs.append(Job("hunt %s %s/%s/%d" % (m, *cfg), [exe, m, so, cfg[2], gflag(cfg[1]), c.seed * 500 + i, c.pick(quick if quickest else min(quick, 20), 900), c.pick(rounds if COST[cfg[:2]] < 10 else rounds // 3, 10 * rounds)],
                            timeout=c.pick(2 * quick + 120, 2400), env={"HUNT_NOJUDGE": "1"} if asan else {"HUNT_PEER": peers(cfg)} if peers else {"HUNT_COUNT": prod[cfg]} if prod else {}))
    for j in jobs:
        j.skip_if_violated = True
    return sorted(jobs, key=lambda j: int(j.cmd[3]))


def c01(c):
    libs, exe = core_libs(), monitor()
    c.rule = RULE_API + " A case is a key generation, encapsulation and decapsulation whose two shared secrets are compared."
    c.run(kem_jobs(c, "roundtrip", c.pick(1500, 40000), c.pick(20, 600), libs, exe) + hunt_jobs(c, ["roundtrip"]))


def c02(c):
    libs, exe = core_libs(), monitor()
    c.rule = ("Each case is one altered ciphertext decapsulated and compared with hash(ct || s); all cases are non-trivial (the ciphertext differs from the genuine one). "
              "Classes: single bits over every coefficient, one word, xor- and sum-cancelling words, 2^k words with equal difference, mixed parts, rows, random, and changes of every bit position that leave the decrypted message unchanged (crafted keys with S = 0 or sparse, and words of honest keys), so that only the comparison can reject them.")
    jobs = kem_jobs(c, "reject", c.pick(60, 1500), c.pick(2, 40), libs, exe)
    fast = {k: v for k, v in libs.items() if k[0] == "FAST" and k[1] == "aes-ossl"}
    for (o, g, n), so in fast.items():
        parts = {640: 1, 976: 2, 1344: 4}[n]
        # all coefficients once per iteration split: ITERS processes share one sweep
        for z in ("", "z"):
            jobs.insert(0, Job("sweep/%s/%s/%d" % (o, g, n), [exe, ("rejectallbits" if c.thorough else "rejectbits") + z, so, n, gflag(g), c.seed * 1000 + 900, parts], timeout=c.pick(240, 3000)))
    if c.thorough:
        for (o, g, n), so in libs.items():
            if COST[(o, g)] <= 6 and (o, g) != ("FAST", "aes-ossl"):
                jobs.append(Job("sweep/%s/%s/%d" % (o, g, n), [exe, "rejectbitsz", so, n, gflag(g), c.seed * 1000 + 901, 1], timeout=2000))
    c.run(jobs + hunt_jobs(c, ["reject"]))


def c03(c):
    libs, exe = core_libs(), monitor()
    c.rule = RULE_API + " A case is one key generation whose public and secret key are compared byte by byte with the independent model."
    c.run(kem_jobs(c, "keypair", c.pick(1500, 40000), c.pick(20, 600), libs, exe) + hunt_jobs(c, ["keypair"]))


def c04(c):
    libs, exe = core_libs(), monitor()
    c.rule = RULE_API + " A case is one encapsulation to an honest or hostile public key, compared byte by byte with the model."
    c.run(kem_jobs(c, "enc", c.pick(1500, 40000), c.pick(20, 600), libs, exe) + hunt_jobs(c, ["enc"]))


def c05(c):
    libs, exe = core_libs(), monitor()
    c.rule = RULE_API + (" A case is one decapsulation; 60% are crafted key/ciphertext pairs whose decryption error is set exactly (inside, on and just outside "
                         "the decoding radius, with arbitrary secret matrices), the rest honest, hostile-key, hostile-ciphertext.")
    c.run(kem_jobs(c, "dec", c.pick(1200, 30000), c.pick(20, 500), libs, exe) + hunt_jobs(c, ["dec"]))


TABLE = {"C01": ("exploration", c01), "C02": ("exploration", c02), "C03": ("exploration", c03), "C04": ("exploration", c04), "C05": ("exploration", c05)}


def exotic(c):
    """(label, opt, gen, cc, cflags, extra) of the less usual builds."""
    out = []
    flags = [("gcc -O0", b.GCC, "-O0"), ("gcc -O2 native", b.GCC, "-O2 -march=native"), ("clang -O2", b.CLANG, "-O2"), ("clang -O3 native", b.CLANG, "-O3 -march=native")]
    if c.thorough:
        flags += [("gcc -O1", b.GCC, "-O1"), ("gcc -Os", b.GCC, "-Os"), ("gcc -Ofast native", b.GCC, "-Ofast -march=native"), ("clang -O0", b.CLANG, "-O0"), ("clang -O1", b.CLANG, "-O1"),
                  ("clang -O3", b.CLANG, "-O3"), ("clang -Oz", b.CLANG, "-Oz"), ("gcc -O3 lto", b.GCC, "-O3 -fno-strict-aliasing -funroll-all-loops"), ("gcc -O2 unsigned char", b.GCC, "-O2 -funsigned-char")]
    for g in b.GEN:
        for o in b.OPTS:
            for lab, cc, f in flags:
                out.append(("%s %s %s" % (o, g, lab), o, g, cc, f, ()))
        for o in ("REFERENCE", "FAST_GENERIC"):
            for arch in ("x86", "ARM"):
                out.append(("%s %s ARCH=%s" % (o, g, arch), o, g, b.GCC, "-O2 -funsigned-char" if arch == "ARM" else "-O2", ("ARCH=" + arch,)))
            out.append(("%s %s ARCH=ARM portable byte order" % (o, g), o, g, b.GCC, "-O2 -U__BYTE_ORDER__", ("ARCH=ARM",)))
    return out


def try_shared(c, label, o, g, cc, cflags, extra):
    try:
        b.lib(o, g, cc, cflags + " -fPIC", extra)
        return [b.shared(o, g, n, cc=cc, cflags=cflags, extra=extra) for n in b.SIZES]
    except b.BuildError as e:
        c.note("build option skipped, does not compile: %s: %s" % (label, str(e)[-300:]))
        return None


def c06(c):
    libs = core_libs()
    exe = monitor("kem_diff", ("kem_diff.c", "common.c", "oracle.c"))
    ex = exotic(c)
    built = b.parallel([(try_shared, (c, *e), {}) for e in ex])
    c.rule = ("Each case is one operation with the same inputs and random bytes in one build compared with the reference build of the same parameter set; "
              "distinct counts different inputs times compared builds.")
    jobs = []
    for gen in ("aes", "shake"):
        for ni, n in enumerate(b.SIZES):
            named = [("%s %s gcc -O3=%s" % (o, g, so)) for (o, g, m), so in sorted(libs.items()) if m == n and gflag(g) == gen]
            named.sort(key=lambda x: not x.startswith("REFERENCE aes-ossl") and not x.startswith("REFERENCE shake"))
            named += ["%s=%s" % (e[0].replace("=", ":"), so[ni]) for e, so in zip(ex, built) if so and gflag(e[2]) == gen]
            k = c.pick({640: 24, 976: 12, 1344: 8}[n], {640: 1200, 976: 600, 1344: 300}[n])
            split = c.pick(2, 8)
            for s in range(split):
                jobs.append(Job("%s/%d" % (gen, n), [exe, n, gen, c.seed * 100 + s, max(1, k // split), *named], timeout=c.pick(300, 3000)))
    jobs.sort(key=lambda j: -int(j.cmd[1]))
    hunts = [x for x in CORE if x[0] != "REFERENCE" and (x[2] == 640 or x[:2] in (("FAST", "aes-own"), ("FAST", "shake")))]
    jobs += hunt_jobs(c, ["keypair", "enc", "dec"], hunts, quick=40, rounds=12, peers=lambda x: libs[("REFERENCE", "shake" if x[1] == "shake" else "aes-ossl", x[2])])
    c.run(jobs)
    c.extra["exotic_builds"] = sum(1 for x in built if x)


TABLE["C06"] = ("exploration", c06)


ASAN = "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"


def c07(c):
    exe_g = monitor("mem_mon", ("mem_mon.c", "common.c", "oracle.c"))
    exe_a = monitor("mem_mon", ("mem_mon.c", "common.c", "oracle.c"), cc=b.CLANG, cflags="-O2 -g -fsanitize=address,undefined -fno-sanitize=alignment,function -fno-sanitize-recover=all")
    asan = core_libs(cc=b.CLANG, cflags=ASAN)
    prod = core_libs()
    sets = [("clang asan+ubsan", exe_a, "heap", asan), ("gcc -O3 guard pages", exe_g, "guard", prod)]
    if c.thorough:
        sets += [("clang asan+ubsan -O0", exe_a, "heap", core_libs(cc=b.CLANG, cflags=ASAN.replace("-O1", "-O0"))),
                 ("clang asan+ubsan -O3", exe_a, "heap", core_libs(cc=b.CLANG, cflags=ASAN.replace("-O1", "-O3 -march=native"))),
                 ("clang -O3 guard pages", exe_g, "guard", core_libs(cc=b.CLANG, cflags="-O3 -march=native")),
                 ("gcc -O0 guard pages", exe_g, "guard", core_libs(cflags="-O0")),
                 ("gcc -O2 native guard pages", exe_g, "guard", core_libs(cflags="-O2 -march=native"))]
    c.rule = ("Each case is one API call under sanitizer instrumentation (buffers of exactly the documented size, at offsets 0..32) or on a production build with buffers flush "
              "against inaccessible pages and write-protected inputs; distinct counts different decapsulation and encapsulation inputs.")
    jobs = []
    for lab, exe, mode, libs in sets:
        for i, (cfg, so) in enumerate(sorted(libs.items())):
            o, g, n = cfg
            k = iters(cfg, c.pick(100, 3000), c.pick(8, 200))
            if mode == "heap":
                k = max(4, k // 4)
            jobs.append(Job("%s %s/%s/%d" % (lab, *cfg), [exe, mode, so, n, gflag(g), c.seed * 1600 + i, k], timeout=c.pick(300, 3000), crash_key="crash"))
    jobs.sort(key=lambda j: -int(j.cmd[3]))
    hunts = [("FAST", "aes-ossl", 640), ("REFERENCE", "aes-ossl", 640), ("FAST_GENERIC", "shake", 640), ("FAST", "shake", 976), ("FAST", "aes-own", 1344), ("FAST_GENERIC", "aes-own", 640)]
    c.run(jobs + hunt_jobs(c, ["keypair", "enc", "dec"], hunts, quick=60, rounds=12, asan=True))


TABLE["C07"] = ("exploration", c07)


def msan_exe(opt, gen, n, olevel, extra=""):
    cflags = "%s -g -fno-omit-frame-pointer -fsanitize=memory -fno-sanitize-memory-param-retval -fsanitize-memory-track-origins=1 %s" % (olevel, extra)
    base = b.lib(opt, gen, b.CLANG, cflags)
    return b.harness("msan_mon", ["msan_mon.c"], cc=b.CLANG, cflags="-O1 -g -fsanitize=memory -fno-sanitize-memory-param-retval -DSIZE=%d" % n,
                     archives=(base + "/frodo%d/libfrodo_for_testing.a" % n,), libs=("-lm",))


def msan_jobs(c, mode, gens, levels, base):
    cfgs = [(o, g, n) for o in b.OPTS for g in gens for n in b.SIZES]
    b.parallel([(b.lib, (o, g, b.CLANG, "%s -g -fno-omit-frame-pointer -fsanitize=memory -fno-sanitize-memory-param-retval -fsanitize-memory-track-origins=1 " % lv), {}) for o in b.OPTS for g in gens for lv in levels])
    exes = b.parallel([(msan_exe, (*cf, lv), {}) for cf in cfgs for lv in levels])
    jobs = []
    for i, ((cf, lv), exe) in enumerate(zip([(cf, lv) for cf in cfgs for lv in levels], exes)):
        k = max(c.pick(2, 20), int(base / ((COST[cf[:2]] + 3) / 4 * NCOST[cf[2]])))
        jobs.append(Job("msan-%s %s %s/%s/%d" % (mode, lv, *cf), [exe, mode, cf[2], c.seed * 400 + i, k], timeout=c.pick(300, 3000)))
    return jobs


def c08(c):
    exe = monitor("stale_mon", ("stale_mon.c", "common.c", "oracle.c"))
    c.rule = ("Each case is one API call: under MemorySanitizer with poisoned outputs (every output byte's definedness is tested), or on a production build repeated under five "
              "different previous contents of stack, heap and output buffers and compared.")
    sets = [("gcc -O3", core_libs())]
    if c.thorough:
        sets += [("clang -O3", core_libs(cc=b.CLANG, cflags="-O3")), ("gcc -O0", core_libs(cflags="-O0")), ("gcc -O2 native", core_libs(cflags="-O2 -march=native"))]
    jobs = msan_jobs(c, "def", ("aes-own", "shake"), c.pick(("-O1",), ("-O0", "-O1", "-O2")), c.pick(12, 400))
    for lab, libs in sets:
        for i, (cfg, so) in enumerate(sorted(libs.items())):
            jobs.append(Job("fills %s %s/%s/%d" % (lab, *cfg), [exe, so, cfg[2], gflag(cfg[1]), c.seed * 160 + i, iters(cfg, c.pick(60, 1500), c.pick(3, 60))], timeout=c.pick(300, 3000)))
    c.run(jobs)


TABLE["C08"] = ("exploration", c08)


def plugin(name):
    """A compiled instrumentation pass."""
    src = b.os.path.join(b.SRC, name + ".cpp")

    def make(d):
        flags = b.run(["/usr/bin/llvm-config-18", "--cxxflags"]).split()
        b.run(["/usr/bin/clang++-18", "-shared", "-fPIC", "-O1", *flags, "-fno-rtti", "-o", d + "/" + name + ".so", src])

    return b._cached(b._key(name, open(src).read()), make) + "/" + name + ".so"


def c09(c):
    plug = plugin("ctpass")
    levels = c.pick(("-O2", "-O0"), ("-O0", "-O1", "-O2", "-O3 -march=native"))
    exe = monitor("ct_mon", ("ct_mon.c", "common.c", "oracle.c"), cflags="-O3 -g -march=native -fno-builtin")
    vg = b.harness("vg_mon", ["vg_mon.c"], libs=("-ldl",), ldflags=("-rdynamic",))
    c.rule = ("Each case is one API call with instrumented tracing (or taint tracking); within a group the public inputs are fixed and the secrets differ, and the traces of blocks, addresses, copies, "
              "division operands and comparisons must coincide. distinct counts different secrets.")
    jobs = []
    for lv in levels:
        libs = core_libs(cc=b.CLANG, cflags=lv + " -fno-builtin-memcmp -fno-builtin-bcmp -fpass-plugin=" + plug)
        for i, (cfg, so) in enumerate(sorted(libs.items())):
            o, g, n = cfg
            slow = COST[(o, g)] >= 18
            G, R = c.pick((6, 8) if lv == "-O2" else (3, 5), (12, 12))
            if lv == "-O0" and n != 640 and not c.thorough:
                continue
            if slow:
                if n != 640 and not c.thorough:
                    continue
                G, R = c.pick((1, 3), (3, 4))
            elif n != 640:
                G, R = c.pick((3, 6) if n == 976 else (3, 4), (6, 8))
            for opl in "ked":
                jobs.append((COST[(o, g)] * NCOST[n] * G * R, Job("trace %s %s/%s/%d" % (lv, *cfg), [exe, so, n, gflag(g), c.seed * 80 + i, G if opl != "d" or G > 1 else 3, R, opl], timeout=c.pick(400, 3000))))
    for j in msan_jobs(c, "taint", ("aes-own", "shake"), c.pick(("-O2",), ("-O0", "-O2", "-O3")), c.pick(8, 200)):
        jobs.append((20, j))
    prod = [("gcc -O3", core_libs())]
    if c.thorough:
        prod += [("gcc -O2 native", core_libs(cflags="-O2 -march=native")), ("gcc -Os", core_libs(cflags="-Os")), ("clang -O3 native", core_libs(cc=b.CLANG, cflags="-O3 -march=native"))]
    for lab, libs in prod:
        for i, (cfg, so) in enumerate(sorted(libs.items())):
            if not c.thorough and (COST[cfg[:2]] >= 18 or cfg[2] == 976 and cfg[0] == "REFERENCE"):
                continue
            if "march=native" in lab and "avx512" in open("/proc/cpuinfo").read():
                continue  # valgrind has no AVX-512
            jobs.append((COST[cfg[:2]] * NCOST[cfg[2]] * 8, Job("memcheck %s %s/%s/%d" % (lab, *cfg), ["/usr/bin/valgrind", "-q", "--error-limit=no", "--undef-value-errors=yes", vg, so, cfg[2], c.seed * 80 + i, c.pick(1, 6)], timeout=c.pick(400, 3000))))
    jobs.sort(key=lambda x: -x[0])
    c.run([j for _, j in jobs])


TABLE["C09"] = ("exploration", c09)


def c10(c):
    exe = monitor("erase_mon", ("erase_mon.c", "common.c", "oracle.c"))
    c.rule = ("Each case is one API call with fresh secrets after which the private stack, the library's static data and the heap are searched for the secrets; a residue is a run of at least 6 secret bytes or "
              "24 secret coefficients at the same place in 24 runs, or 16 bytes / 48 coefficients anywhere in one run. distinct counts different secrets.")
    sets = [("gcc -O3", dict()), ("gcc -O3 native", dict(cflags="-O3 -march=native")), ("clang -O3", dict(cc=b.CLANG, cflags="-O3"))]
    if c.thorough:
        sets += [("gcc -O2", dict(cflags="-O2")), ("gcc -O1", dict(cflags="-O1")), ("gcc -Os", dict(cflags="-Os")), ("gcc -O2 native", dict(cflags="-O2 -march=native")), ("clang -O2", dict(cc=b.CLANG, cflags="-O2")), ("clang -O3 native", dict(cc=b.CLANG, cflags="-O3 -march=native"))]
    jobs = []
    for lab, kw in sets:
        libs = core_libs(symbolic=False, **kw)
        for i, (cfg, so) in enumerate(sorted(libs.items())):
            if not c.thorough and COST[cfg[:2]] >= 18 and cfg[2] != 640:
                continue
            jobs.append((NCOST[cfg[2]] * COST[cfg[:2]], Job("%s %s/%s/%d" % (lab, *cfg), [exe, so, cfg[2], gflag(cfg[1]), c.seed * 80 + i, c.pick(1, 12)], timeout=c.pick(300, 3000))))
    c.run([j for _, j in sorted(jobs, key=lambda x: -x[0])])
    c.assumptions.append("CPU registers and fragments shorter than the thresholds (compiler spills of a few words) are not judged; the working memory of the final hash is exempt for its own input k")


TABLE["C10"] = ("exploration", c10)


def thr_exe(opt, gen, n, cc, cflags, hflags):
    base = b.lib(opt, gen, cc, cflags)
    return b.harness("thr_mon", ["thr_mon.c"], cc=cc, cflags=hflags + " -DLINKED -DSIZE=%d" % n, archives=(base + "/frodo%d/libfrodo.a" % n,), libs=("-lcrypto", "-lpthread", "-lm"))


def c11(c):
    tsan = "-O1 -g -fsanitize=thread"
    b.parallel([(b.lib, (o, g, b.CLANG, tsan), {}) for o in b.OPTS for g in b.GEN])
    exes = b.parallel([(thr_exe, (o, g, n, b.CLANG, tsan, "-O1 -g -fsanitize=thread"), {}) for o, g, n in CORE])
    # without optimisation no shared variable is promoted to a register or removed
    O0 = [("FAST", "aes-own", 640), ("FAST", "aes-ossl", 976), ("FAST", "shake", 1344), ("REFERENCE", "aes-ossl", 640), ("REFERENCE", "shake", 640), ("FAST_GENERIC", "shake", 640)]
    tsan0 = "-O0 -g -fsanitize=thread"
    b.parallel([(b.lib, (o, g, b.CLANG, tsan0), {}) for o, g, _ in O0])
    exes0 = b.parallel([(thr_exe, (*k, b.CLANG, tsan0, "-O1 -g -fsanitize=thread"), {}) for k in O0])
    libs = core_libs()
    b.parallel([(b.lib, (o, g, b.GCC, "-O3"), {}) for o in b.OPTS for g in b.GEN])
    prod = b.parallel([(thr_exe, (o, g, n, b.GCC, "-O3", "-O2 -g"), {}) for o, g, n in CORE])
    exe = monitor("thr_mon", ("thr_mon.c", "common.c", "oracle.c"))
    c.rule = ("Each case is one API call made while other threads call too: under ThreadSanitizer (each process starts with concurrent first calls), and on production builds with every result compared with the model. "
              "distinct counts different per-thread result histories.")
    heavy, light = [], []
    for i, (cfg, x) in enumerate(zip(CORE, exes)):
        slow = COST[cfg[:2]] >= 18
        for r in range(c.pick(1, 6)):
            heavy.append(Job("tsan %s/%s/%d" % cfg, [x, cfg[2], gflag(cfg[1]), c.seed * 80 + i, c.pick(3 if slow else 4, 8), c.pick(1 if slow else 2, 6)], timeout=c.pick(400, 3000)))
    for i, (cfg, x) in enumerate(zip(O0, exes0)):
        for r in range(c.pick(1, 4)):
            heavy.append(Job("tsan -O0 %s/%s/%d" % cfg, [x, cfg[2], gflag(cfg[1]), c.seed * 80 + 40 + i, 3, c.pick(1, 4)], timeout=c.pick(400, 3000)))
    for i, (cfg, x) in enumerate(zip(CORE, prod)):
        for r in range(c.pick(3, 40)):
            light.append(Job("first use %s/%s/%d" % cfg, [x, cfg[2], gflag(cfg[1]), c.seed * 80 + i + r, 16, 1], timeout=400))
    for i, cfg in enumerate(CORE):
        light.append(Job("stress %s/%s/%d" % cfg, [exe, cfg[2], gflag(cfg[1]), c.seed * 80 + i, 16, iters(cfg, c.pick(40, 1500), c.pick(2, 40))], env={"LIBSO": libs[cfg]}, timeout=c.pick(400, 3000)))
    c.run(sorted(heavy, key=lambda j: -int(j.cmd[1])), workers=4)
    c.run(light, workers=2)


TABLE["C11"] = ("exploration", c11)


def rand_exe(opt, gen, n, cc, cflags, hflags="-O2 -g"):
    base = b.lib(opt, gen, cc, cflags)
    return b.harness("rand_mon", ["rand_mon.c", "common.c", "oracle.c"], cc=cc, cflags=hflags + " -DOWN_RANDOM -DSIZE=%d" % n, archives=(base + "/frodo%d/libfrodo.a" % n,),
                     ldflags=("-rdynamic",), libs=("-lcrypto", "-ldl", "-lpthread", "-lm"))


def c12(c):
    builds = [("gcc -O3", b.GCC, "-O3", "-O2 -g"), ("gcc -O0", b.GCC, "-O0", "-O2 -g"), ("clang -O2 ubsan", b.CLANG, "-O2 -g -fsanitize=undefined -fno-sanitize-recover=all", "-O2 -g -fsanitize=undefined")]
    if c.thorough:
        builds += [("clang -O3", b.CLANG, "-O3 -march=native", "-O2 -g"), ("gcc -O2 fortify", b.GCC, "-O2 -D_FORTIFY_SOURCE=2", "-O2 -g")]
    c.rule = ("Each case is one call of the random source (or of the KEM on top of it) against a simulated device following a scripted sequence of short, interrupted, empty and failing reads and failing opens; "
              "every byte returned must be a device byte never handed out before. distinct counts different (fault script, length) pairs.")
    exes = b.parallel([(rand_exe, ("FAST", "aes-ossl", 640, cc, f, hf), {}) for _, cc, f, hf in builds])
    jobs, s = [], c.seed
    for i, ((lab, *_), x) in enumerate(zip(builds, exes)):
        jobs += [Job("lengths " + lab, [x, "lengths", s * 50 + i, c.pick(1100, 3000)]), Job("faults " + lab, [x, "faults", s * 50 + i, c.pick(5, 6)], timeout=c.pick(240, 1500)),
                 Job("opens " + lab, [x, "opens", s * 50 + i, c.pick(5, 6)], timeout=c.pick(240, 1500)), Job("fork " + lab, [x, "fork", s * 50 + i, c.pick(300, 5000)], timeout=c.pick(240, 1500)),
                 Job("threads " + lab, [x, "threads", s * 50 + i, c.pick(5, 60)], timeout=c.pick(240, 1500)), Job("long " + lab, [x, "long", s * 50 + i, c.pick(1, 6)], timeout=c.pick(300, 1500))]
    kems = [(o, g, n) for o in ("FAST", "REFERENCE") for g in ("aes-ossl", "shake") for n in b.SIZES]
    kx = b.parallel([(rand_exe, (*k, b.GCC, "-O3"), {}) for k in kems])
    for i, (k, x) in enumerate(zip(kems, kx)):
        jobs.append(Job("kem %s/%s/%d" % k, [x, "kem", s * 50 + i, c.pick(20, 300), 1 if k[1] == "shake" else 0], timeout=c.pick(240, 1500)))
    c.run(jobs)
    c.run([Job("huge " + lab, [x, "huge", s * 50, c.pick(2, 5)], timeout=600) for (lab, *_), x in list(zip(builds, exes))[:c.pick(1, 3)]], workers=1)


TABLE["C12"] = ("fault_enumeration", c12)


def c13(c):
    libs = core_libs()
    exe = monitor("fault_mon", ("fault_mon.c", "common.c", "oracle.c"), cflags="-O2 -g -march=native -DOWN_RANDOM -fno-builtin-malloc")
    c.rule = ("Each case is one API call in its own process with one fault: the random source reporting failure (ten error codes, unfilled, half and fully filled buffers, once or persistently), one crypto provider call failing "
              "(every position), or an allocation failing (every position). All cases are distinct fault positions.")
    jobs = []
    for i, (cfg, so) in enumerate(sorted(libs.items())):
        if COST[cfg[:2]] >= 18 and cfg[2] != 640 and not c.thorough:
            continue
        jobs.append((NCOST[cfg[2]] * COST[cfg[:2]], Job("%s/%s/%d" % cfg, [exe, so, cfg[2], gflag(cfg[1]), c.seed * 70 + i, c.pick(1 if cfg[2] == 640 else 5, 1)], timeout=c.pick(400, 2000))))
    c.run([j for _, j in sorted(jobs, key=lambda x: -x[0])])
    c.assumptions.append("provider faults are injected at the EVP entry points the library calls; a process death inside the provider after a failed allocation is accepted")


TABLE["C13"] = ("fault_enumeration", c13)


def prim_builds(c, gens):
    """[(label, opt, gen, kwargs, sanitized)]"""
    out = []
    for o in b.OPTS:
        for g in gens:
            out += [("gcc -O3 %s/%s" % (o, g), o, g, dict(), False), ("gcc -O0 %s/%s" % (o, g), o, g, dict(cflags="-O0"), False), ("clang -O3 native %s/%s" % (o, g), o, g, dict(cc=b.CLANG, cflags="-O3 -march=native"), False),
                    ("clang asan+ubsan %s/%s" % (o, g), o, g, dict(cc=b.CLANG, cflags=ASAN), True)]
            if c.thorough:
                out += [("gcc -O2 native %s/%s" % (o, g), o, g, dict(cflags="-O2 -march=native"), False), ("gcc -Os %s/%s" % (o, g), o, g, dict(cflags="-Os"), False), ("clang -O1 %s/%s" % (o, g), o, g, dict(cc=b.CLANG, cflags="-O1"), False)]
    return out


def prim_jobs(c, mode, gens, n):
    exe = monitor("prim_mon", ("prim_mon.c", "common.c", "oracle.c"))
    exe_a = monitor("prim_mon", ("prim_mon.c", "common.c", "oracle.c"), cc=b.CLANG, cflags="-O2 -g -fsanitize=address,undefined -fno-sanitize=alignment,function -fno-sanitize-recover=all")
    bs = prim_builds(c, gens)
    b.parallel([(b.lib, (o, g), dict(cc=kw.get("cc", b.GCC), cflags=kw.get("cflags", "-O3") + " -fPIC")) for _, o, g, kw, _ in bs])
    sos = b.parallel([(b.shared, (o, g, 640), kw) for _, o, g, kw, _ in bs])
    return exe, dict((x[0], so) for x, so in zip(bs, sos)), [Job(x[0], [exe_a if x[4] else exe, mode, so, c.seed * 90 + i, n], timeout=c.pick(400, 3000)) for i, (x, so) in enumerate(zip(bs, sos))]


def c14(c):
    exe, sos, jobs = prim_jobs(c, "shake", ("shake", "aes-ossl"), c.pick(300, 6000))
    c.rule = ("Each case is one hash computation (one-shot, absorb/squeeze in blocks, or four-way) compared with OpenSSL and with canaries and inaccessible pages around its buffers; every length 0..700 appears as input and as output length, "
              "plus all pairs of boundary lengths. distinct counts different (function, input length, output length) triples.")
    huge = []
    for lab in ["gcc -O3 FAST/shake"] + c.pick([], ["gcc -O3 REFERENCE/shake", "clang -O3 native FAST/shake"]):
        for n in range(4):
            for ln in [(1 << 32) + 4294] + c.pick([], [(1 << 31) + 4294, (1 << 33) + 77]):
                huge.append(Job("2^32 lengths %s" % lab, [exe, "shakehuge", sos[lab], c.seed, n, ln], timeout=c.pick(600, 3000)))
    hj = hunt_jobs(c, ["shake128", "shake256"], [("FAST", "shake", 640)], quick=25) + hunt_jobs(c, ["shake4"], [("FAST", "shake", 640)], quick=25)
    c.run(huge + jobs + hj)


TABLE["C14"] = ("exploration", c14)


def c15(c):
    exe, sos, jobs = prim_jobs(c, "aes", ("aes-own",), c.pick(3000, 60000))
    c.rule = ("Each case is one key expansion, encryption and schedule release compared with OpenSSL, with canaries and inaccessible pages around all buffers, every block count 0..130, every alignment of the schedule modulo 64, in place and "
              "not, all single-bit keys and plaintexts. distinct counts different (key, plaintext, placement) triples.")
    labs = ["gcc -O3 FAST/aes-own"] + c.pick([], ["gcc -O3 REFERENCE/aes-own"])
    c.run([Job("2^32 bytes " + lab, [exe, "aeshuge", sos[lab], c.seed, w], timeout=c.pick(600, 3000)) for lab in labs for w in (0, 1)] + jobs + hunt_jobs(c, ["aes128", "aes256"], [("FAST", "aes-own", 640), ("REFERENCE", "aes-own", 640)], quick=10))


TABLE["C15"] = ("exploration", c15)


def c16(c):
    libs = core_libs()
    exe = monitor("hist_mon", ("hist_mon.c", "common.c", "oracle.c"))
    real = b.parallel([(b.shared, cfg, dict(testing=False)) for cfg in CORE])
    c.rule = ("Each case is one API call inside a long mixed history, compared with the model's result for that operation; distinct counts different histories (prefixes of the call sequence). Heap in use and open descriptors are compared over five segments.")
    jobs = []
    for i, (cfg, so) in enumerate(sorted(libs.items())):
        o, g, n = cfg
        k = iters(cfg, c.pick(6000, 100000), c.pick(300, 3000))
        jobs.append((COST[(o, g)] * NCOST[n] * k, Job("mixed %s/%s/%d" % cfg, [exe, "table", so, n, gflag(g), c.seed * 33 + i, k], timeout=c.pick(400, 3000))))
        if cfg in (("FAST", "aes-ossl", 640), ("FAST", "aes-own", 640)) or c.thorough and COST[(o, g)] <= 4 and n == 640:
            for op in range(3):
                jobs.append((1e6, Job("over 65536 calls %s/%s/%d" % cfg, [exe, "table", so, n, gflag(g), c.seed * 33 + i + 7, c.pick(68000, 270000), op], timeout=c.pick(600, 3000))))
    for cfg in (("FAST", "aes-ossl", 640), ("FAST", "aes-own", 640), ("FAST", "shake", 640), ("FAST_GENERIC", "shake", 640), ("FAST", "aes-ossl", 976), ("FAST", "aes-ossl", 1344)):
        k = c.pick(10000 if cfg[2] == 640 and cfg[0] == "FAST" else 3000, 60000)
        jobs.append((COST[cfg[:2]] * NCOST[cfg[2]] * k * 4, Job("many keys %s/%s/%d" % cfg, [exe, "many", libs[cfg], cfg[2], gflag(cfg[1]), c.seed * 35, k], timeout=c.pick(600, 3000))))
    for i, (cfg, so) in enumerate(zip(CORE, real)):
        k = iters(cfg, c.pick(1600, 20000), c.pick(100, 1000))
        jobs.append((COST[cfg[:2]] * NCOST[cfg[2]] * k, Job("own random source %s/%s/%d" % cfg, [exe, "real", so, cfg[2], gflag(cfg[1]), c.seed, k], timeout=c.pick(400, 3000))))
    c.run([j for _, j in sorted(jobs, key=lambda x: -x[0])] + hunt_jobs(c, ["history"], [x for x in CORE if x[:2] != ("FAST", "aes-ossl")]) + hunt_jobs(c, ["history"], [x for x in CORE if x[:2] == ("FAST", "aes-ossl")], quick=180))


TABLE["C16"] = ("exploration", c16)


VARIANTS = ["FrodoKEM-%d-%s" % (n, g) for n in b.SIZES for g in ("AES", "SHAKE")]
PYTHON = "/opt/vp/pyvenv/bin/python"


def py_jobs(c, mode, amount, timeout=600, parts=None):
    so = b.harness("pyoracle.so", ["pyoracle.c", "common.c", "oracle.c"], cflags="-O3 -g -fPIC -shared", libs=("-lcrypto", "-ldl", "-lm"))
    script = b.os.path.join(b.SRC, "py_mon.py")
    jobs = []
    for i, v in enumerate(VARIANTS):
        n = int(v.split("-")[1])
        for s in range(parts(n) if parts else 1):
            jobs.append((-n, Job("%s %s" % (mode, v), [PYTHON, "-B", script, mode, b.REPO, so, v, c.seed * 64 + i * 8 + s, amount(n)], timeout=timeout)))
    return [j for _, j in sorted(jobs, key=lambda x: x[0])]


def c17(c):
    c.rule = ("Each case is one call of the Python implementation (an operation or a building block) compared with the model; the sampler and the decoder are covered for every input value. distinct counts different inputs.")
    jobs = py_jobs(c, "kem", lambda n: c.pick({640: 3, 976: 2, 1344: 2}[n], {640: 14, 976: 8, 1344: 6}[n]), timeout=c.pick(700, 3000), parts=lambda n: c.pick(1, 3))
    jobs += py_jobs(c, "blocks", lambda n: c.pick(2, 12), timeout=c.pick(700, 3000))
    jobs = [j for j in py_jobs(c, "cross", lambda n: c.pick(1, 2), timeout=c.pick(700, 3000)) if "640" in j.label] + jobs
    jobs += py_jobs(c, "sweep", lambda n: c.pick(60, 900), timeout=c.pick(700, 3000))
    c.run(jobs)


TABLE["C17"] = ("exploration", c17)


def c18(c):
    c.rule = "Each case is one construction with an unknown variant name or one call with an argument of wrong length, which must raise. distinct counts different names and lengths."
    c.run(py_jobs(c, "refuse", lambda n: c.pick(1, 4)))
    c.assumptions.append("the interpreter runs without -O, which would strip the implementation's assert statements")


TABLE["C18"] = ("exploration", c18)


def c19(c):
    exe = monitor()
    c.rule = ("Each case is one API call of a portable build that runs big-endian (every integer load, store and initial value has its bytes swapped by the compiler pass), compared with the unchanged model. " + RULE_API)
    common = " -D__BIG_ENDIAN__=1 -U__LITTLE_ENDIAN__ -Wno-builtin-macro-redefined -I%s -fpass-plugin=%s" % (b.os.path.join(b.SRC, "be"), plugin("bepass"))
    macros = {"announced": " -U__BYTE_ORDER__ -D__BYTE_ORDER__=__ORDER_BIG_ENDIAN__", "order macro unknown": " -U__BYTE_ORDER__"}
    cfgs = [(o, g, n) for o in ("REFERENCE", "FAST_GENERIC") for g in b.GEN for n in b.SIZES]
    jobs = []
    for lv in c.pick(("-O2",), ("-O0", "-O2", "-O3")):
        for lab, mac in macros.items():
            part = cfgs if lab == "announced" or c.thorough else [x for x in cfgs if x[2] == 640]
            libs = core_libs(part, cc=b.CLANG, cflags=lv + common + mac, extra=("ARCH=ARM",))
            for mode, n, lo in (("keypair", c.pick(150, 6000), c.pick(5, 100)), ("enc", c.pick(150, 6000), c.pick(5, 100)), ("dec", c.pick(150, 6000), c.pick(5, 100)), ("roundtrip", c.pick(60, 2000), c.pick(3, 50))):
                jobs += kem_jobs(c, mode, n, lo, libs, exe)
            prim = monitor("prim_mon", ("prim_mon.c", "common.c", "oracle.c"))
            jobs += [Job("hashes %s %s %s" % (lv, lab, o), [prim, "shake", libs[(o, "shake", 640)], c.seed * 90, c.pick(60, 2000)], timeout=c.pick(400, 3000)) for o in ("REFERENCE", "FAST_GENERIC")]
            jobs += [Job("block cipher %s %s %s" % (lv, lab, o), [prim, "aes", libs[(o, "aes-own", 640)], c.seed * 90, c.pick(300, 20000)], timeout=c.pick(400, 3000)) for o in ("REFERENCE", "FAST_GENERIC")]
    c.run(jobs)
    c.assumptions.append("no big-endian machine or emulator is available: big-endian execution is emulated by byte-swapping every 16-, 32- and 64-bit integer access of the code under test (compiler pass bepass), with the platform macros announcing big-endian")


TABLE["C19"] = ("exploration", c19)


def c20(c):
    libs = core_libs()
    exe = monitor("noise_mon", ("noise_mon.c", "common.c", "oracle.c"))
    c.rule = ("Each case is one coefficient recovered from a key or ciphertext and compared with the table value of its 16-bit sampler input; distinct counts (build, matrix, sampler input) triples observed, out of 65536 per matrix.")
    jobs = []
    for i, (cfg, so) in enumerate(sorted(libs.items())):
        o, g, n = cfg
        full = 1 if (o, g) == ("FAST", "aes-ossl") or c.thorough and COST[(o, g)] <= 6 else 0
        cap = 60 if COST[(o, g)] >= 18 and not c.thorough else 2000
        jobs.append((NCOST[n] * (COST[(o, g)] + (40 if full else 0)), Job("%s/%s/%d" % cfg, [exe, so, n, gflag(g), c.seed * 41 + i, full, cap], timeout=c.pick(500, 3000))))
    for e in exotic(c):
        if e[2] == "aes-ossl" and e[1] == "REFERENCE":
            sos = try_shared(c, *e)
            for n, so in zip(b.SIZES, sos or []):
                jobs.append((NCOST[n], Job("%s/%d" % (e[0], n), [exe, so, n, "aes", c.seed * 41 + 30, 0, 1000], timeout=c.pick(500, 3000))))
    c.run([j for _, j in sorted(jobs, key=lambda x: -x[0])])


TABLE["C20"] = ("exploration", c20)


def c21(c):
    libs = core_libs()
    exe = monitor("fresh_mon", ("fresh_mon.c", "common.c", "oracle.c"))
    real = dict(zip(CORE, b.parallel([(b.shared, cfg, dict(testing=False)) for cfg in CORE])))
    c.rule = ("Each case is one operation with one random bit flipped (all bit positions of key generation and encapsulation), one operation of a long history fed from one stream and compared with the model on exactly the next bytes of it, "
              "or one random value of the library's own source compared with all others over calls, threads and forked processes. distinct counts different random inputs or values.")
    jobs = []
    for i, (cfg, so) in enumerate(sorted(libs.items())):
        o, g, n = cfg
        w = (COST[(o, g)] + 3) * NCOST[n]
        slow = COST[(o, g)] >= 18
        if not slow or n == 640 or c.thorough:
            jobs.append((w * 1000, Job("bits %s/%s/%d" % cfg, [exe, "bits", so, n, gflag(g), c.seed * 51 + i, c.pick(1, 6)], timeout=c.pick(600, 3000))))
        k = iters(cfg, c.pick(1500, 40000), c.pick(60, 1000))
        jobs.append((w * k, Job("stream %s/%s/%d" % cfg, [exe, "stream", so, n, gflag(g), c.seed * 51 + i, k], timeout=c.pick(600, 3000))))
        if not slow or n == 640:
            jobs.append((w * 100, Job("real %s/%s/%d" % cfg, [exe, "real", real[cfg], n, gflag(g), c.seed * 51 + i, c.pick(2 if slow else 4, 40)], timeout=c.pick(600, 3000))))
    c.run(py_jobs(c, "fresh", lambda n: c.pick(1, 4), timeout=c.pick(600, 3000)) + [j for _, j in sorted(jobs, key=lambda x: -x[0])] +
          hunt_jobs(c, ["keypair", "enc", "dec"], [("FAST", "aes-ossl", 640), ("FAST_GENERIC", "shake", 640), ("REFERENCE", "aes-ossl", 640), ("FAST", "aes-own", 976), ("FAST", "shake", 1344)]))


TABLE["C21"] = ("exploration", c21)

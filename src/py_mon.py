"""C17, C18: the Python implementation against the model. usage: py_mon.py MODE REPO ORACLE.so VARIANT SEED AMOUNT"""
import contextlib
import ctypes
import io
import json
import random
import sys
import warnings

warnings.simplefilter("ignore")
MODE, REPO, SO, VARIANT, SEED, AMOUNT = sys.argv[1:7]
SEED, AMOUNT = int(SEED), int(AMOUNT)
sys.path.insert(0, REPO + "/python3")
sys.dont_write_bytecode = True
R = random.Random(SEED)
NV = 0


def violation(key, detail):
    global NV
    NV += 1
    print(json.dumps({"ev": "violation", "key": key, "detail": VARIANT + ": " + detail}).replace('{"ev": ', '{"ev":'), flush=True)


def stats(**kw):
    print('{"ev":"stats",' + json.dumps(kw)[1:], flush=True)


def sample(text):
    print('{"ev":"sample","text":' + json.dumps(text) + "}", flush=True)


from frodokem import FrodoKEM  # noqa: E402

lib = ctypes.CDLL(SO)
lib.py_new.restype = ctypes.c_void_p
N, SHAKE = int(VARIANT.split("-")[1]), VARIANT.endswith("SHAKE")
X = ctypes.c_void_p(lib.py_new(N, 1 if SHAKE else 0, ctypes.c_uint64(SEED)))
d = (ctypes.c_uint64 * 8)()
lib.py_dims(X, d)
PKB, SKB, CTB, CB, RK, RE, D, B = [int(v) for v in d]
Q = 1 << D


def buf(n):
    return ctypes.create_string_buffer(n)


def u16(n):
    return (ctypes.c_uint16 * n)()


def m_keypair(rnd):
    pk, sk = buf(PKB), buf(SKB)
    lib.py_keypair(X, bytes(rnd), pk, sk)
    return pk.raw, sk.raw


def m_enc(pk, mu):
    ct, ss = buf(CTB), buf(32)
    lib.py_enc(X, bytes(pk), bytes(mu), ct, ss)
    return ct.raw, ss.raw[:CB]


def m_dec(sk, ct):
    ss = buf(32)
    acc = lib.py_dec(X, bytes(sk), bytes(ct), ss)
    return ss.raw[:CB], acc


def new(variant=VARIANT):
    with contextlib.redirect_stdout(io.StringIO()):
        return FrodoKEM(variant)


class Stream:
    """The random bytes the implementation is given, in order, however it divides its requests."""

    def __init__(self, data):
        self.data, self.pos = data, 0

    def __call__(self, k):
        r = self.data[self.pos:self.pos + k]
        self.pos += k
        return bytes(r) + bytes(max(0, k - len(r)))


class Cut(Exception):
    pass


def guard(what, f, *a):
    try:
        return f(*a)
    except BaseException as e:  # valid arguments must not fail
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        violation("exception", "%s raised %s: %s" % (what, type(e).__name__, str(e)[:200]))
        raise Cut()


ev = {"evaluations": 0, "keypairs": 0, "encapsulations": 0, "decapsulations": 0, "accepted": 0, "rejected": 0, "sampler_inputs": 0, "encode_decode": 0, "decode_values": 0, "pack_unpack": 0, "matrices": 0, "distinct": 0}


def diff(a, b):
    if len(a) != len(b):
        return "length %d instead of %d" % (len(a), len(b))
    i = next(i for i in range(len(a)) if a[i] != b[i])
    return "byte %d is %02x instead of %02x" % (i, a[i], b[i])


def blocks(k):
    """The building blocks."""
    if hasattr(k, "sample"):
        for r in range(65536):
            v = guard("sample", k.sample, r)
            ev["sampler_inputs"] += 1
            if v != lib.py_sample(X, r):
                violation("sample", "sample(%d) = %r, the specification says %d" % (r, v, lib.py_sample(X, r)))
                return
        ev["evaluations"] += 65536
        ev["distinct"] += 65536
    if hasattr(k, "sample_matrix"):
        for n1, n2 in ((8, 8), (8, 13), (5, 3)):
            r = [R.randrange(65536) for _ in range(n1 * n2)]
            E = guard("sample_matrix", k.sample_matrix, r, n1, n2)
            if [x for row in E for x in row] != [lib.py_sample(X, v) for v in r] or len(E) != n1:
                violation("sample", "sample_matrix(%dx%d) is wrong" % (n1, n2))
                return
            ev["evaluations"] += 1
    # decoding: every residue mod q appears, at varying places
    if hasattr(k, "decode"):
        vals = list(range(Q))
        R.shuffle(vals)
        ties = [(2 * i + 1) * (Q >> (B + 1)) + e for i in range(1 << B) for e in (0, -1, 1)]
        vals += [v % Q for v in ties for _ in range(3)]
        vals += [0] * (-len(vals) % 64)
        lim = len(vals) if AMOUNT > 1 or N == 640 else len(vals)
        for o in range(0, lim, 64):
            w = vals[o:o + 64]
            got = guard("decode", k.decode, [w[8 * i:8 * i + 8] for i in range(8)])
            mu = buf(32)
            lib.py_decode(X, mu, (ctypes.c_uint16 * 64)(*w))
            ev["evaluations"] += 1
            ev["distinct"] += 64
            ev["decode_values"] += 64
            if got != mu.raw[:CB]:
                bad = [v for i, v in enumerate(w) if (int.from_bytes(got, "little") ^ int.from_bytes(mu.raw[:CB], "little")) >> (i * B) & ((1 << B) - 1)]
                violation("decode", "decode gives a wrong result for matrix entries %s (q = %d)" % (bad[:6], Q))
                return
    if hasattr(k, "encode"):
        for t in range(60):
            mu = buf(32)
            lib.py_gen_field(X, mu, ctypes.c_uint64(32))
            m = mu.raw[:CB] if t > 2 else bytes([(0, 255, 0x5a)[t]] * CB)
            C = u16(64)
            lib.py_encode(X, C, m + bytes(32))
            K = guard("encode", k.encode, m)
            ev["evaluations"] += 1
            ev["encode_decode"] += 1
            ev["distinct"] += 1
            if [x % Q for row in K for x in row] != [v % Q for v in C]:
                violation("encode", "encode(%s) is wrong" % m.hex())
                return
    if hasattr(k, "pack") and hasattr(k, "unpack"):
        for t in range(12):
            n1, n2 = R.choice([(8, 8), (8, 16), (8, 24), (16, 8), (8, 8)])
            M = u16(n1 * n2)
            lib.py_gen_matrix(X, M, ctypes.c_uint64(n1 * n2))
            vals = [v % Q for v in M]
            M2 = (ctypes.c_uint16 * len(vals))(*vals)
            out = buf(n1 * n2 * D // 8)
            lib.py_pack(X, out, M2, ctypes.c_uint64(n1 * n2))
            got = guard("pack", k.pack, [vals[n2 * i:n2 * i + n2] for i in range(n1)])
            if got != out.raw:
                violation("pack", "pack of a %dx%d matrix: %s" % (n1, n2, diff(got, out.raw)))
                return
            bb = bytes(R.randrange(256) for _ in range(len(out.raw))) if t & 1 else out.raw
            lib.py_unpack(X, M2, bb, ctypes.c_uint64(n1 * n2))
            U = guard("unpack", k.unpack, bb, n1, n2)
            if [x for row in U for x in row] != list(M2) or len(U) != n1:
                violation("unpack", "unpack of a %dx%d matrix is wrong" % (n1, n2))
                return
            ev["evaluations"] += 2
            ev["pack_unpack"] += 1
            ev["distinct"] += 1


def main():
    if MODE == "blocks":
        k = new()
        blocks(k)
        for t in range(AMOUNT):
            seed = buf(16)
            lib.py_gen_field(X, seed, ctypes.c_uint64(16))
            if hasattr(k, "gen"):
                A = guard("gen", k.gen, seed.raw)
                M = u16(N * N)
                lib.py_A(X, seed.raw, M)
                ev["evaluations"] += 1
                ev["matrices"] += 1
                ev["distinct"] += 1
                flat = [x for row in A for x in row]
                if flat != [v % Q for v in M]:
                    i = next(i for i in range(N * N) if flat[i] != M[i] % Q)
                    violation("gen", "the public matrix of seed %s is wrong at row %d column %d" % (seed.raw.hex(), i // N, i % N))
                    return
    elif MODE == "fresh":
        fresh()
    elif MODE == "sweep":
        sweep()
    elif MODE == "kem":
        k = new()
        cycles = 0
        for t in range(AMOUNT):
            rnd = buf(96)
            if t:
                lib.py_gen_keyrnd(X, rnd)
            else:
                lib.py_rich_key(X, rnd)
            s = Stream(rnd.raw[:RK])
            k.randombytes = s
            pk, sk = guard("kem_keygen", k.kem_keygen)
            wpk, wsk = m_keypair(rnd.raw)
            ev["evaluations"] += 1
            ev["keypairs"] += 1
            ev["distinct"] += 1
            if pk != wpk or sk != wsk:
                violation("keygen", "key generation from %s: %s" % (rnd.raw[:RK].hex(), "public key " + diff(pk, wpk) if pk != wpk else "secret key " + diff(sk, wsk)))
                return
            if s.pos != RK:
                violation("draw", "key generation drew %d random bytes, the specification says %d" % (s.pos, RK))
                return
            # the matrix is kept between operations on one key to reach more inputs; keygen above and the first decaps computed it
            hostile = buf(PKB)
            lib.py_gen_pk(X, hostile)
            for epk in (pk, hostile.raw)[:1 if t == 0 and AMOUNT == 1 else 2]:
                mu = buf(32)
                lib.py_gen_field(X, mu, ctypes.c_uint64(32))
                s = Stream(mu.raw[:RE])
                k.randombytes = s
                ct, ss = guard("kem_encaps", k.kem_encaps, epk)
                wct, wss = m_enc(epk, mu.raw)
                ev["evaluations"] += 1
                ev["encapsulations"] += 1
                ev["distinct"] += 1
                if ct != wct or ss != wss or s.pos != RE:
                    violation("encaps", "encapsulation of %s to %s key: %s" % (mu.raw[:RE].hex(), "an honest" if epk is pk else "a hostile", "ciphertext " + diff(ct, wct) if ct != wct else "shared secret " + diff(ss, wss) if ss != wss else "drew %d bytes" % s.pos))
                    return
                if epk is pk:
                    hct = ct
            todo = [("honest", sk, hct)]
            x = bytearray(hct)
            x[R.choice([0, 1, len(x) - 1, len(x) - 2, R.randrange(len(x))])] ^= 1 << R.randrange(8)
            todo.append(("altered", sk, bytes(x)))
            for mode in ([1, 2] if t == 0 else [0, 1, 3, 5, 9]):
                csk, cct = buf(SKB), buf(CTB)
                if lib.py_craft(X, mode, csk, cct):
                    todo.append(("crafted (error class %d)" % mode, csk.raw, cct.raw))
            if t:
                rct = buf(CTB)
                lib.py_gen_field(X, rct, ctypes.c_uint64(CTB))
                todo.append(("arbitrary", sk, rct.raw))
            for lab, dsk, dct in todo:
                k.randombytes = Stream(b"")
                ss = guard("kem_decaps", k.kem_decaps, dsk, dct)
                wss, acc = m_dec(dsk, dct)
                ev["evaluations"] += 1
                ev["decapsulations"] += 1
                ev["distinct"] += 1
                ev["accepted" if acc else "rejected"] += 1
                if ss != wss:
                    violation("decaps", "decapsulation of an %s ciphertext (which the specification %s): %s" % (lab, "accepts" if acc else "rejects", diff(ss, wss)))
                    return
        # the tracing option must not change results
        if AMOUNT and N == 640:
            k2 = new()
            k2.print_intermediate_values = True
            k2.randombytes = Stream(rnd.raw[:RK])
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                p2, s2 = guard("kem_keygen with tracing", k2.kem_keygen)
            ev["evaluations"] += 1
            if (p2, s2) != (pk, sk):
                violation("keygen", "printing intermediate values changes the result")
    elif MODE == "refuse":
        refuse()
    elif MODE == "cross":
        cross()
    if not NV:
        stats(**ev)
        sample("%s %s: %s" % (MODE, VARIANT, {a: b for a, b in ev.items() if b}))


def accelerate(k):
    """Replaces the slow building blocks by equal, fast ones (through the model) so that thousands of operations can be watched.
    Each replacement is made only where the original has the expected form and agrees on examples; the blocks themselves are
    judged in the other modes, and anything found here is repeated with the original ones before it is reported."""
    saved, keep, MODEL = {}, {}, X

    def flat(M):
        h = keep.get(id(M))
        if h is not None and h[0] is M:
            return h[1]
        a = (ctypes.c_uint16 * (len(M) * len(M[0])))(*[x & 0xffff for r in M for x in r])
        if len(M) == N and len(M[0]) == N:
            keep.clear()
            keep[id(M)] = (M, a)
        return a

    def rows(a, n1, n2):
        a = list(a)
        return [a[n2 * i:n2 * i + n2] for i in range(n1)]

    def mul(orig):
        def f(self, X, Y, *a, **kw):
            if a or kw or not (isinstance(X, list) and isinstance(Y, list)) or len(X[0]) != len(Y) or self.q != Q:
                return orig(self, X, Y, *a, **kw)
            out = u16(len(X) * len(Y[0]))
            lib.py_mul(MODEL, out, flat(X), flat(Y), len(X), len(Y), len(Y[0]))
            return rows(out, len(X), len(Y[0]))
        return f

    def unpack(orig):
        def f(self, b, n1, n2, *a, **kw):
            if a or kw or not isinstance(b, bytes) or len(b) * 8 != n1 * n2 * D:
                return orig(self, b, n1, n2, *a, **kw)
            out = u16(n1 * n2)
            lib.py_unpack(X, out, b, ctypes.c_uint64(n1 * n2))
            return rows(out, n1, n2)
        return f

    def pack(orig):
        def f(self, C, *a, **kw):
            if a or kw or not isinstance(C, list) or any(not 0 <= x < Q for r in C for x in r):
                return orig(self, C, *a, **kw)
            out = buf(len(C) * len(C[0]) * D // 8)
            lib.py_pack(X, out, flat(C), ctypes.c_uint64(len(C) * len(C[0])))
            return out.raw
        return f

    def rnd(n1, n2, lo=0, hi=Q):
        return [[R.randrange(lo, hi) for _ in range(n2)] for _ in range(n1)]

    P, S, W = rnd(8, 16), rnd(16, 8, -12, 13), bytes(R.randrange(256) for _ in range(16 * D))
    for name, make, args in (("_FrodoKEM__matrix_mul", mul, (P, S)), ("unpack", unpack, (W, 8, 16)), ("pack", pack, (P,))):
        orig = FrodoKEM.__dict__.get(name)
        try:
            if not callable(orig) or isinstance(orig, (staticmethod, classmethod)):
                continue
            new_f, want = make(orig), orig(k, *args)
            if new_f(k, *args) == want and type(want) is type(new_f(k, *args)):
                saved[name] = orig
                setattr(FrodoKEM, name, new_f)
        except Exception:
            continue
    if hasattr(k, "gen") and callable(k.gen):
        real, memo = k.gen, {}

        def gen(seed, *a, **kw):
            s = bytes(seed)
            if a or kw:
                return real(seed, *a, **kw)
            if s not in memo:
                if len(memo) > 6:
                    memo.clear()
                memo[s] = [list(r) for r in real(seed)]
            return memo[s]
        k.gen = gen

    def restore():
        for name, orig in saved.items():
            setattr(FrodoKEM, name, orig)
        saved.clear()
        if "gen" in k.__dict__:
            k.gen = real
    return restore, sorted(saved)


def sweep():
    """Many ciphertexts, altered everywhere, and messages with rare patterns, per key."""
    global ev
    ev.update(alterations=0, rare_messages=0, traced=0)
    import time
    k = new()
    restore, fast = accelerate(k)
    end = time.time() + AMOUNT
    dec = [0]

    def judge(lab, f, want):
        got = guard(lab, f)
        ev["evaluations"] += 1
        ev["distinct"] += 1
        if got == want:
            return
        restore()
        got = guard(lab, f)
        if got != want:
            violation("sweep", lab + ": the result differs from the specification")
            raise Cut()
        violation_skipped.append(lab)

    violation_skipped = []

    def decaps(lab, sk, ct):
        wss, acc = m_dec(sk, ct)
        k.randombytes = Stream(b"")
        judge("decapsulation of %s, which the specification %s" % (lab, "accepts" if acc else "rejects"), lambda: k.kem_decaps(sk, ct), wss)
        ev["decapsulations"] += 1
        ev["accepted" if acc else "rejected"] += 1
        dec[0] += 1

    def encaps(lab, pk, mu):
        def f():
            s = Stream(mu[:RE])
            k.randombytes = s
            return k.kem_encaps(pk)
        judge("encapsulation of %s" % lab, f, m_enc(pk, mu))
        ev["encapsulations"] += 1

    def set_word(ct, w, x):
        v = bytearray(ct)
        a = w * D
        for i in range(D):
            if x >> (D - 1 - i) & 1:
                v[(a + i) // 8] ^= 0x80 >> ((a + i) % 8)
        return bytes(v)

    def keypair(lab, rk):
        def f():
            k.randombytes = Stream(rk[:RK])
            return k.kem_keygen()
        judge("key generation from %s" % lab, f, m_keypair(rk))
        ev["keypairs"] += 1

    NW = 8 * N + 64
    rk = buf(96)
    lib.py_rich_key(X, rk)
    rk = rk.raw
    pk, sk = m_keypair(rk)
    first = True
    rounds = 0
    while first or time.time() < end:
        mu = buf(32)
        lib.py_gen_mu(X, pk, mu)
        ct, ss = m_enc(pk, mu.raw)
        encaps("a message with a rare pattern", pk, mu.raw)
        ev["rare_messages"] += 1
        decaps("an honest ciphertext", sk, ct)
        # every position of c2, every row and many columns of c1, in one bit each; then combinations that may cancel
        words = [8 * N + i for i in range(64)] if first else [8 * N + R.randrange(64) for _ in range(4)]
        words += [N * r + c for r in range(8) for c in ((0, 1, 7, 8, N // 2, N - 2, N - 1) if first else (R.randrange(N),))]
        R.shuffle(words)
        for w in words:
            bit = R.choice((0, 0, D - 1, R.randrange(D)))
            decaps("a ciphertext with bit %d of word %d altered" % (bit, w), sk, set_word(ct, w, 1 << bit))
            ev["alterations"] += 1
            if time.time() > end and dec[0] > 4:
                break
        for _ in range(6 if time.time() < end else 1):
            x, a, b = 1 << R.randrange(D), R.randrange(NW), R.randrange(NW)
            t = R.randrange(4)
            if t == 1:
                b = (a + R.choice((1, 8, N, 8 * N))) % NW
            elif t == 2:
                a, b = R.randrange(8 * N), 8 * N + R.randrange(64)
            elif t == 3:
                a, b = 8 * N + R.randrange(64), 8 * N + R.randrange(64)
            if a != b:
                decaps("a ciphertext with words %d and %d altered by %#x" % (a, b, x), sk, set_word(set_word(ct, a, x), b, x))
                ev["alterations"] += 1
        for mode in (0, 1, 2, 3, 5, 9) if time.time() < end else (1,):
            csk, cct = buf(SKB), buf(CTB)
            if lib.py_craft(X, mode, csk, cct):
                decaps("a crafted ciphertext (error class %d)" % mode, csk.raw, cct.raw)
        hostile = buf(PKB)
        lib.py_gen_pk(X, hostile)
        if rounds < 2:
            encaps("a message to a hostile key", hostile.raw, mu.raw)
        # further keys with the same public matrix, whose secrets contain both extreme samples, or have rare patterns
        for t in range(1 if time.time() > end else 3):
            r2 = buf(96)
            (lib.py_gen_keyrnd if t == 2 else lib.py_rich_key)(X, r2)
            r2 = bytearray(r2.raw)
            r2[RK - 16:RK] = rk[RK - 16:RK]
            r2 = bytes(r2)
            keypair("a seed with %s" % ("rare patterns" if t == 2 else "extreme samples"), r2)
            p2, s2 = m_keypair(r2)
            if t == 1:
                (lib.py_rich_mu if R.randrange(2) else lib.py_gen_mu)(X, p2, mu)
                encaps("a message to that key", p2, mu.raw)
            decaps("an honest ciphertext for a rich key", s2, m_enc(p2, mu.raw)[0])
        first = False
        rounds += 1
        if violation_skipped:
            break
    # the tracing option must not change results
    if hasattr(k, "print_intermediate_values"):
        k.print_intermediate_values = True
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                keypair("a seed, with printing of intermediate values", rk)
                encaps("a message, with printing of intermediate values", pk, mu.raw)
                decaps("an honest ciphertext, with printing of intermediate values,", sk, ct)
                bad = None
            except Cut:
                bad = True
        ev["traced"] += 3
        # violation() wrote into the redirected stream
        if bad:
            violation("sweep", "an operation differs from the specification when intermediate values are printed")
    sample("%s: %d decapsulations, replaced for speed: %s" % (VARIANT, dec[0], ", ".join(fast) or "nothing"))
    restore()


def cross():
    """All variants in one process, on the same inputs: instances must not influence one another."""
    global X, N, PKB, SKB, CTB, CB, RK, RE, D, B, Q
    ev.update(instances=0)
    names = ["FrodoKEM-%d-%s" % (n, g) for n in (640, 976, 1344) for g in ("AES", "SHAKE")]
    R.shuffle(names)
    ctx = {}

    def use(v):
        global X, N, PKB, SKB, CTB, CB, RK, RE, D, B, Q
        if v not in ctx:
            h = ctypes.c_void_p(lib.py_new(int(v.split("-")[1]), 1 if v.endswith("SHAKE") else 0, ctypes.c_uint64(SEED)))
            dd = (ctypes.c_uint64 * 8)()
            lib.py_dims(h, dd)
            ctx[v] = (h, int(v.split("-")[1]), [int(x) for x in dd])
        X, N, dd = ctx[v]
        PKB, SKB, CTB, CB, RK, RE, D, B = dd
        Q = 1 << D

    ks = {v: new(v) for v in names}
    ev["instances"] = len(ks)
    for v in names + names:
        use(v)
        k = ks[v]
        if hasattr(k, "sample"):
            for r in range(R.randrange(7), 65536, 7):
                ev["evaluations"] += 1
                if guard("sample", k.sample, r) != lib.py_sample(X, r):
                    violation("cross", "%s: sample(%d) is wrong when other variants are in use" % (v, r))
                    return
    if hasattr(k, "gen"):
        seeds = [bytes(R.randrange(256) for _ in range(16)) for _ in range(2)]
        for v, s in [(v, s) for s in seeds[:max(1, AMOUNT)] for v in names] + [(names[0], seeds[0]), (names[-1], seeds[0])]:
            use(v)
            A = guard("gen", ks[v].gen, s)
            M = u16(N * N)
            lib.py_A(X, s, M)
            ev["evaluations"] += 1
            ev["distinct"] += 1
            ev["matrices"] += 1
            if [x for row in A for x in row] != [y % Q for y in M]:
                violation("cross", "%s: the public matrix is wrong when other variants are in use" % v)
                return
    pair = [v for v in names if "640" in v]
    r, mu = bytes(R.randrange(256) for _ in range(96)), bytes(R.randrange(256) for _ in range(32))
    out = {}
    for step in ("keygen", "encaps", "decaps", "reject"):
        for v in pair:
            use(v)
            k = ks[v]
            wpk, wsk = m_keypair(r)
            wct, wss = m_enc(wpk, mu)
            bad = bytes([wct[0] ^ 1]) + wct[1:]
            k.randombytes = Stream(r[:RK] if step == "keygen" else mu[:RE])
            got, want = {"keygen": lambda: (guard("kem_keygen", k.kem_keygen), (wpk, wsk)), "encaps": lambda: (guard("kem_encaps", k.kem_encaps, wpk), (wct, wss)),
                         "decaps": lambda: (guard("kem_decaps", k.kem_decaps, wsk, wct), wss), "reject": lambda: (guard("kem_decaps", k.kem_decaps, wsk, bad), m_dec(wsk, bad)[0])}[step]()
            ev["evaluations"] += 1
            ev["distinct"] += 1
            if got != want:
                violation("cross", "%s: %s is wrong when the other variant works on the same inputs" % (v, step))
                return


class TookTooLong(Exception):
    pass


def refuses(f, *a):
    """True if the call raises. Random source and matrix generation raise a marker so that work on accepted input ends
    early; a call that gets so far is repeated with the real ones."""
    try:
        f(*a)
        return False
    except TookTooLong:
        pass
    except Exception:
        return True
    MARK(False)
    try:
        f(*a)
        return False
    except Exception:
        return True
    finally:
        MARK(True)


def refuse():
    global ev
    ev.update(unknown_names=0, wrong_lengths=0)
    good = ["FrodoKEM-%d-%s" % (n, g) for n in (640, 976, 1344) for g in ("AES", "SHAKE")]
    bad = ["", " ", "FrodoKEM", "FrodoKEM-640", "FrodoKEM-640-", "FrodoKEM-640-AES ", " FrodoKEM-640-AES", "frodokem-640-aes", "FRODOKEM-640-AES", "FrodoKEM-640-aes", "FrodoKEM-641-AES", "FrodoKEM-0640-AES",
           "FrodoKEM-128-AES", "FrodoKEM-640-AES128", "FrodoKEM-640-SHAKE128", "FrodoKEM-976", "FrodoKEM-1344", "FrodoKEM_640_AES", "Frodo-640-AES", "eFrodoKEM-640-AES", "FrodoKEM-640-AES\n", "FrodoKEM-640-AES\0",
           "FrodoKEM-512-AES", "FrodoKEM-1344-", "FrodoKEM-1344-SHAKE256", "Unknown variant", "640", "AES", None, 640, True, b"FrodoKEM-640-AES", ("FrodoKEM-640-AES",), ["FrodoKEM-640-AES"], {}, 0.5]
    for _ in range(200):
        g = list(R.choice(good))
        i = R.randrange(len(g))
        op = R.randrange(3)
        if op == 0:
            g[i] = chr(ord(g[i]) ^ (1 << R.randrange(6)))
        elif op == 1:
            del g[i]
        else:
            g.insert(i, g[i])
        if "".join(g) not in good:
            bad.append("".join(g))
    for v in bad:
        ev["evaluations"] += 1
        ev["distinct"] += 1
        ev["unknown_names"] += 1
        try:
            k = new(v)
        except Exception:
            continue
        violation("variant", "constructing the KEM with variant %r did not raise an error" % (v,))
        return
    for v in good:  # and the six names are accepted
        guard("FrodoKEM(%r)" % v, new, v)
        ev["evaluations"] += 1
    k = new()
    orig = k.randombytes

    def early(_):
        raise TookTooLong()

    real_gen = k.gen
    global MARK

    def MARK(on):
        k.randombytes, k.gen = (early, early) if on else (orig, real_gen)

    MARK(True)
    rnd = bytes(R.randrange(256) for _ in range(96))
    pk, sk = m_keypair(rnd)
    ct, ss = m_enc(pk, rnd)

    def stretch(b, n):
        return (b * (n // len(b) + 2))[:n]

    span = 400 if AMOUNT <= 1 else 3000
    def lens(L):
        others = [9616, 15632, 21520, 19888, 31296, 43088, 9720, 15744, 21632, 9600, 9602, 16]
        c = set(range(0, 64)) | set(range(L - span, L + span)) | set(R.randrange(3 * L) for _ in range(span)) | set(others) | {2 * L, 2 * L + 1, L + 65536, L + 32768, L + (1 << 20), L * 8, L // 8, L // 2}
        return sorted(x for x in c if x >= 0 and x != L)

    def wrong(what, f, L):
        for n in lens(L):
            ev["evaluations"] += 1
            ev["distinct"] += 1
            ev["wrong_lengths"] += 1
            if not refuses(f, n):
                violation("length", "%s of %d bytes instead of %d was not refused" % (what, n, L))
                return False
        return True

    # extensions that a tolerant parser might ignore
    for pad in (b"\0", b"\xff", b" ", b"\n", b"=", b"\x80"):
        for e in (1, 2, 3, 4, 8, 15, 16, 24, 32, 64, 120, 128, 1024):
            for what, f, good_ in (("kem_encaps with a public key", k.kem_encaps, pk), ("kem_decaps with a ciphertext", lambda c: k.kem_decaps(sk, c), ct), ("kem_decaps with a secret key", lambda s_: k.kem_decaps(s_, ct), sk)):
                for x in (good_ + pad * e, pad * e + good_, good_[:-e] + pad * e + pad, good_[:-e].rstrip(pad)):
                    if len(x) == len(good_):
                        continue
                    ev["evaluations"] += 1
                    ev["distinct"] += 1
                    ev["wrong_lengths"] += 1
                    if not refuses(f, x):
                        violation("length", "%s of %d bytes instead of %d (%r at an end) was not refused" % (what, len(x), len(good_), pad))
                        return
    # with the tracing option, with other types of byte strings, and after operations that succeeded
    variants = [("with tracing", bytes, True), ("as bytearray", bytearray, False), ("as memoryview", memoryview, False), ("as list", list, False)]
    if N == 640 and MODE == "refuse":
        MARK(False)
        guard("kem_encaps", k.kem_encaps, pk)
        guard("kem_decaps", k.kem_decaps, sk, ct)
        MARK(True)
        variants.append(("after valid calls", bytes, False))
    for lab, typ, trace in variants:
        k.print_intermediate_values = trace
        for e in (-64, -16, -2, -1, 1, 2, 8, 16, 64, 1000):
            for what, f in (("kem_encaps with a public key", lambda: k.kem_encaps(typ(stretch(pk, PKB + e)))), ("kem_decaps with a ciphertext", lambda: k.kem_decaps(typ(sk), typ(stretch(ct, CTB + e)))), ("kem_decaps with a secret key", lambda: k.kem_decaps(typ(stretch(sk, SKB + e)), typ(ct)))):
                ev["evaluations"] += 1
                ev["distinct"] += 1
                ev["wrong_lengths"] += 1
                with contextlib.redirect_stdout(io.StringIO()):
                    bad_ = not refuses(f)
                if bad_:
                    violation("length", "%s of %+d bytes was not refused (%s)" % (what, e, lab))
                    return
    k.print_intermediate_values = False
    if not wrong("kem_encaps with a public key", lambda n: k.kem_encaps(stretch(pk, n)), PKB):
        return
    if not wrong("kem_decaps with a ciphertext", lambda n: k.kem_decaps(sk, stretch(ct, n)), CTB):
        return
    if not wrong("kem_decaps with a secret key", lambda n: k.kem_decaps(stretch(sk, n), ct), SKB):
        return
    # two wrong lengths that add up, and swapped arguments
    for delta in list(range(-40, 41)) + [CTB - SKB, 64, -64, 128, 1000, -1000]:
        if delta == 0:
            continue
        ev["evaluations"] += 1
        ev["distinct"] += 1
        ev["wrong_lengths"] += 1
        if not refuses(k.kem_decaps, stretch(sk, SKB + delta), stretch(ct, CTB - delta)):
            violation("length", "kem_decaps with a secret key of %+d and a ciphertext of %+d bytes was not refused" % (delta, -delta))
            return
    for a in ((ct, sk), (pk, ct), (sk, pk), (sk, sk), (ct, ct), (b"", b"")):
        ev["evaluations"] += 1
        if not refuses(k.kem_decaps, *a):
            violation("length", "kem_decaps with arguments of %d and %d bytes was not refused" % (len(a[0]), len(a[1])))
            return



def fresh():
    """The implementation's default random source, and what the operations take from it."""
    global ev
    ev.update(source_calls=0, source_bytes=0)
    k = new()
    src = k.randombytes
    seen, hist, ones = set(), [0] * 256, [0] * 8
    for i in range(2000 * AMOUNT):
        n = R.choice((0, 1, 2, 15, 16, 24, 31, 32, 48, 64, 80, 100, 257)) if i % 4 else R.randrange(300)
        b = guard("randombytes", src, n)
        ev["source_calls"] += 1
        ev["source_bytes"] += n
        if len(b) != n:
            violation("source", "the default random source returned %d bytes instead of %d" % (len(b), n))
            return
        for j in range(0, n - 15, 16):
            v = bytes(b[j:j + 16])
            if v in seen:
                violation("source", "the default random source returned the same 16 bytes twice")
                return
            seen.add(v)
        for x in b:
            hist[x] += 1
    tot = sum(hist)
    # 256 values, each binomial: 12 standard deviations is beyond any chance
    m, sd = tot / 256, (tot / 256 * 255 / 256) ** .5
    for x in range(256):
        if abs(hist[x] - m) > 12 * sd:
            violation("source", "byte %02x occurs %d times in %d bytes of the default random source" % (x, hist[x], tot))
            return
    ev["distinct"] += len(seen)
    ev["evaluations"] += len(seen)
    if N != 640 and AMOUNT <= 1:
        return
    log = []

    def rec(n):
        b = src(n)
        log.append(bytes(b))
        return b

    k.randombytes = rec
    for i in range(2):
        del log[:]
        pk, sk = guard("kem_keygen", k.kem_keygen)
        r = b"".join(log)
        ev["keypairs"] += 1
        ev["evaluations"] += 1
        if len(r) != RK:
            violation("amount", "key generation took %d random bytes instead of %d" % (len(r), RK))
            return
        if (bytes(pk), bytes(sk)) != m_keypair(r):
            violation("fresh", "the key pair is not the one of the random bytes just drawn")
            return
        del log[:]
        ct, ss = guard("kem_encaps", k.kem_encaps, pk)
        r2 = b"".join(log)
        ev["encapsulations"] += 1
        ev["evaluations"] += 1
        if len(r2) != RE:
            violation("amount", "encapsulation took %d random bytes instead of %d" % (len(r2), RE))
            return
        if (bytes(ct), bytes(ss)) != m_enc(bytes(pk), r2):
            violation("fresh", "the ciphertext is not the one of the random bytes just drawn")
            return
        del log[:]
        ss2 = guard("kem_decaps", k.kem_decaps, sk, ct)
        ev["decapsulations"] += 1
        ev["evaluations"] += 1
        if log:
            violation("decdraw", "decapsulation drew random bytes")
            return
        if bytes(ss2) != bytes(ss):
            violation("fresh", "round trip failed")
            return


try:
    main()
except Cut:
    pass

// C14, C15: the library's SHAKE and AES against OpenSSL, over lengths, alignments and placements, with guarded buffers.
#include "gen.h"
#include <openssl/evp.h>
#include <sys/mman.h>
#include <unistd.h>

typedef void (*shake_f)(uint8_t *, unsigned long long, const uint8_t *, unsigned long long);
typedef void (*absorb_f)(uint64_t *, const uint8_t *, unsigned int);
typedef void (*sqz_f)(uint8_t *, unsigned long long, uint64_t *);
typedef void (*shake4_f)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, unsigned long long, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, unsigned long long);
typedef void (*absorb4_f)(void *, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, unsigned long long);
typedef void (*sqz4_f)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, unsigned long long, void *);
typedef void (*load_f)(const uint8_t *, uint8_t *);
typedef void (*ecb_f)(const uint8_t *, size_t, const uint8_t *, uint8_t *);
typedef void (*freesch_f)(uint8_t *);

static long ev; static hset ds;
static prng P;

// a region with inaccessible pages on both sides; bufs are placed flush right, flush left or somewhere between
typedef struct { uint8_t *lo; size_t n; uint8_t *p; size_t len; } region;
static region mk(size_t n)
{
    n = (n + 8191) & ~(size_t)4095;
    uint8_t *b = mmap(NULL, n + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED) { perror("mmap"); exit(3); }
    mprotect(b, 4096, PROT_NONE); mprotect(b + 4096 + n, 4096, PROT_NONE);
    region r = {b + 4096, n, NULL, 0};
    return r;
}
static uint8_t *place(region *r, size_t len, int how, size_t align)
{
    r->len = len;
    if (how == 0) r->p = r->lo + r->n - len;
    else if (how == 1) r->p = r->lo;
    else r->p = r->lo + 256 + (align & 63);
    // canaries up to 64 bytes on each side
    size_t a = (size_t)(r->p - r->lo), z = r->n - a - len;
    memset(r->p - (a < 64 ? a : 64), 0xC3, a < 64 ? a : 64); memset(r->p + len, 0xC3, z < 64 ? z : 64);
    return r->p;
}
static int intact(region *r)
{
    size_t a = (size_t)(r->p - r->lo), z = r->n - a - r->len;
    for (size_t i = 1; i <= (a < 64 ? a : 64); i++) if (r->p[-(long)i] != 0xC3) return 0;
    for (size_t i = 0; i < (z < 64 ? z : 64); i++) if (r->p[r->len + i] != 0xC3) return 0;
    return 1;
}
static void fillmsg(uint8_t *b, size_t n) { if (n) gen_field(&P, b, n, 1); }
static shake_f sh[2]; static absorb_f ab[2]; static sqz_f sq[2]; static shake4_f s4; static absorb4_f ab4; static sqz4_f sq4;
static region I[4], O[4]; static uint8_t *ref, *cp;
static const int RATE[2] = {168, 136};
static long nshake, nforms, n4;

static void mark(int kind, size_t a, size_t b) { uint64_t v[3] = {(uint64_t)kind, a, b}; hset_add(&ds, fnv(1469598103934665603ULL, v, sizeof v)); }
static int cmpout(const uint8_t *got, const uint8_t *want, size_t n, const char *fmt, const char *name, size_t in, size_t out)
{
    for (size_t i = 0; i < n; i++) if (got[i] != want[i]) { violation("value", "%s: input length %zu, output length %zu%s: byte %zu is %02x, FIPS 202 says %02x", name, in, out, fmt, i, got[i], want[i]); return 0; }
    return 1;
}
static int one_shake(int w, size_t in, size_t out)
{
    int how = (int)rndn(&P, 3); const char *name = w ? "shake256" : "shake128";
    uint8_t *m = place(&I[0], in, how, rndn(&P, 64)), *h = place(&O[0], out, (int)rndn(&P, 3), rndn(&P, 64));
    fillmsg(m, in); memcpy(cp, m, in); memset(h, 0x11, out);
    sh[w](h, out, m, in);
    ev++; nshake++; mark(w, in, out);
    or_shake(w ? 256 : 128, ref, out ? out : 1, cp, in);
    if (!cmpout(h, ref, out, "", name, in, out)) return 0;
    if (!intact(&O[0])) { violation("outside", "%s: input length %zu, output length %zu: wrote outside the output", name, in, out); return 0; }
    if (memcmp(cp, m, in) || !intact(&I[0])) { violation("input", "%s: input length %zu, output length %zu: the input was modified", name, in, out); return 0; }
    return 1;
}
static int one_forms(int w, size_t in, int steps)
{
    uint64_t st[25 + 4]; char nm[40]; snprintf(nm, sizeof nm, "%s absorb/squeezeblocks", w ? "shake256" : "shake128");
    uint8_t *m = place(&I[0], in, (int)rndn(&P, 3), rndn(&P, 64));
    fillmsg(m, in);
    memset(st, 0, sizeof st); memset(st + 25, 0x6b, 32);
    ab[w](st, m, (unsigned)in);
    size_t tot = 0, nb[32];
    for (int i = 0; i < steps; i++) { nb[i] = rndn(&P, 5); tot += nb[i]; }
    size_t r = (size_t)RATE[w];
    or_shake(w ? 256 : 128, ref, tot ? tot * r : 1, m, in);
    size_t o = 0;
    for (int i = 0; i < steps; i++) {
        uint8_t *h = place(&O[0], nb[i] * r, (int)rndn(&P, 3), rndn(&P, 64));
        sq[w](h, nb[i], st);
        if (!cmpout(h, ref + o, nb[i] * r, " (in blocks)", nm, in, tot * r)) return 0;
        if (!intact(&O[0])) { violation("outside", "%s: %zu blocks: wrote outside the output", nm, nb[i]); return 0; }
        o += nb[i] * r;
    }
    for (int i = 25; i < 29; i++) if (st[i] != 0x6b6b6b6b6b6b6b6bULL) { violation("outside", "%s: wrote outside the 25-word state", nm); return 0; }
    ev++; nforms++; mark(10 + w, in, tot);
    return 1;
}
static int one4(size_t in, size_t out, int form, int alias)
{
    uint8_t *m[4], *h[4];
    for (int l = 0; l < 4; l++) {
        m[l] = alias && l ? m[0] : place(&I[l], in, (int)rndn(&P, 3), rndn(&P, 64));
        if (!alias || !l) fillmsg(m[l], in);
        h[l] = place(&O[l], form ? out / 168 * 168 : out, (int)rndn(&P, 3), rndn(&P, 64)); memset(h[l], 0x11, form ? out / 168 * 168 : out);
    }
    if (in >= 2 && !alias && rndn(&P, 2)) for (int l = 1; l < 4; l++) { memcpy(m[l], m[0], in); m[l][rndn(&P, (uint32_t)in)] ^= (uint8_t)l; } // lanes differing in one byte
    if (!form) s4(h[0], h[1], h[2], h[3], out, m[0], m[1], m[2], m[3], in);
    else {
        uint8_t buf[25 * 32 + 64], *st = (uint8_t *)(((uintptr_t)buf + 31) & ~(uintptr_t)31);
        memset(buf, 0x9d, sizeof buf);
        ab4(st, m[0], m[1], m[2], m[3], in);
        size_t b1 = (out / 168) / 2 * 168, b2 = out / 168 * 168 - b1;
        sq4(h[0], h[1], h[2], h[3], b1, st);
        sq4(h[0] + b1, h[1] + b1, h[2] + b1, h[3] + b1, b2 + out % 168, st);
    }
    ev++; n4++; mark(20 + form, in, out);
    for (int l = 0; l < 4; l++) {
        size_t n = form ? out / 168 * 168 : out; char nm[40]; snprintf(nm, sizeof nm, "shake128_4x%s lane %d", form ? " absorb/squeezeblocks" : "", l);
        or_shake(128, ref, n ? n : 1, m[l], in);
        if (!cmpout(h[l], ref, n, "", nm, in, out)) return 0;
        if (!intact(&O[l])) { violation("outside", "%s: input length %zu, output length %zu: wrote outside the output", nm, in, out); return 0; }
    }
    return 1;
}
static void shake_main(int iters)
{
    size_t cap = 1 << 21;
    for (int l = 0; l < 4; l++) { I[l] = mk(cap); O[l] = mk(cap); }
    ref = malloc(cap); cp = malloc(cap);
    static const size_t SMALL[] = {0, 1, 7, 8, 9, 16, 17, 18, 25, 32, 33, 49, 64, 65, 135, 136, 137, 167, 168, 169, 271, 272, 273, 335, 336, 337, 503, 504, 505};
    int NS = (int)(sizeof SMALL / sizeof *SMALL);
    size_t L = 700;
    // every input length with some output lengths, every output length with some input lengths
    for (int w = 0; w < 2; w++) for (size_t a = 0; a <= L; a++) for (int r = 0; r < 3; r++) {
        size_t b = SMALL[rndn(&P, (uint32_t)NS)];
        if (!one_shake(w, a, b) || !one_shake(w, b, a)) return;
    }
    for (int w = 0; w < 2; w++) for (int i = 0; i < NS; i++) for (int j = 0; j < NS; j++) if (!one_shake(w, SMALL[i], SMALL[j])) return;
    static const size_t BIG[] = {1000, 1344, 2687, 2688, 2689, 4095, 4096, 4097, 9616, 9752, 15632, 15792, 21520, 21696, 22848, 22849, 32767, 32768, 32769, 43024, 65535, 65536, 65537, 65536 + 168, 65536 + 136, 131072, 131073, 262144 + 5, 1048575, 1048576, 1048577};
    for (int w = 0; w < 2; w++) for (int i = 0; i < (int)(sizeof BIG / sizeof *BIG); i++) {
        if (!one_shake(w, BIG[i], SMALL[rndn(&P, (uint32_t)NS)]) || !one_shake(w, SMALL[rndn(&P, (uint32_t)NS)], BIG[i]) || !one_shake(w, BIG[i], BIG[i])) return;
    }
    for (int w = 0; w < 2; w++) if (ab[w] && sq[w]) for (size_t a = 0; a <= 2 * L; a++) if (!one_forms(w, a < L ? a : rndn(&P, 70000), 1 + (int)rndn(&P, 8))) return;
    if (s4) {
        for (size_t a = 0; a <= L; a++) for (int f = 0; f < (ab4 && sq4 ? 2 : 1); f++) {
            size_t b = SMALL[rndn(&P, (uint32_t)NS)];
            if (!one4(a, b, f, (a & 7) == 0) || !one4(b, a, f, 0)) return;
        }
        for (int i = 0; i < (int)(sizeof BIG / sizeof *BIG); i++) if (!one4(BIG[i], 18, 0, 0) || !one4(18, BIG[i], 0, 0) || !one4(BIG[i], BIG[i], 0, 0)) return;
    }
    for (int k = 0; k < iters; k++) {
        size_t a = rndn(&P, 1u << rndn(&P, 18)), b = rndn(&P, 1u << rndn(&P, 18));
        if (!one_shake(k & 1, a, b)) return;
        if (s4 && !one4(a, b, 0, 0)) return;
    }
}
// lengths past 32 bits: one window of memory mapped over and over
static uint8_t *window(uint64_t total, size_t win, int fd)
{
    uint64_t n = (total + win - 1) / win * win;
    uint8_t *b = mmap(NULL, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED) { perror("mmap"); exit(3); }
    for (uint64_t o = 0; o < n; o += win) if (mmap(b + o, win, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); exit(3); }
    return b;
}
static void shake_huge(int which, int w, uint64_t len)
{
    size_t win = 1 << 21;
    int f1 = memfd_create("win", 0), f2 = memfd_create("win", 0);
    if (f1 < 0 || ftruncate(f1, (off_t)win) || f2 < 0 || ftruncate(f2, (off_t)win)) { perror("memfd"); exit(3); }
    uint8_t *b = window(len, win, f1), *c = window(len, win, f2);
    uint8_t out[200], want[200], msg[40];
    if (which == 0) {
        rndbuf(&P, b, win);
        sh[w](out, 200, b, len);
        or_shake(w ? 256 : 128, want, 200, b, len);
        if (memcmp(out, want, 200)) violation("value", "shake%d: input of %llu bytes gives a wrong hash", w ? 256 : 128, (unsigned long long)len);
    } else {
        rndbuf(&P, msg, 40);
        sh[w](b, len, msg, 40);
        or_shake(w ? 256 : 128, c, len, msg, 40);
        // the window holds the last win bytes (rotated) of the output
        for (size_t i = 0; i < win; i++) if (b[i] != c[i]) { violation("value", "shake%d: output of %llu bytes is wrong near its end", w ? 256 : 128, (unsigned long long)len); break; }
    }
    ev++; mark(30 + which * 2 + w, (size_t)len, 0);
}

// ---- AES ---------------------------------------------------------------------------------------------------------
static load_f ld[2]; static ecb_f ecb[2]; static freesch_f fr[2];
static const int SCH[2] = {176, 240}, KL[2] = {16, 32};
static long naes, nblocks_, nsched;
static void ossl_ecb(int w, const uint8_t *key, const uint8_t *in, size_t n, uint8_t *out)
{
    static EVP_CIPHER_CTX *c; int l;
    if (!c) c = EVP_CIPHER_CTX_new();
    if (1 != EVP_EncryptInit_ex(c, w ? EVP_aes_256_ecb() : EVP_aes_128_ecb(), NULL, key, NULL)) exit(3);
    EVP_CIPHER_CTX_set_padding(c, 0);
    for (size_t o = 0; o < n;) { size_t k = n - o < (1u << 30) ? n - o : 1u << 30; if (1 != EVP_EncryptUpdate(c, out + o, &l, in + o, (int)k)) exit(3); o += k; }
}
static int one_aes(int w, size_t blocks, int inplace, int structured, size_t al)
{
    const char *nm = w ? "AES-256" : "AES-128";
    uint8_t *k = place(&I[0], (size_t)KL[w], (int)rndn(&P, 3), rndn(&P, 64)), *s = place(&I[1], (size_t)SCH[w], 2, al);
    uint8_t *in = place(&I[2], 16 * blocks, (int)rndn(&P, 3), rndn(&P, 64)), *out = inplace ? in : place(&O[0], 16 * blocks, (int)rndn(&P, 3), rndn(&P, 64));
    gen_field(&P, k, (size_t)KL[w], structured);
    uint8_t key[32]; memcpy(key, k, (size_t)KL[w]);
    if (blocks) gen_field(&P, in, 16 * blocks, structured);
    memcpy(cp, in, 16 * blocks);
    memset(s, 0xEE, (size_t)SCH[w]);
    ld[w](k, s);
    uint8_t sch[240]; memcpy(sch, s, (size_t)SCH[w]);
    if (!inplace) memset(out, 0x22, 16 * blocks);
    ecb[w](in, 16 * blocks, s, out);
    ossl_ecb(w, key, cp, 16 * blocks, ref);
    ev++; naes++; nblocks_ += (long)blocks;
    hset_add(&ds, fnv(fnv((uint64_t)(inplace + 2 * w + 1469598103934665603ULL), key, (size_t)KL[w]), cp, 16 * blocks));
    for (size_t i = 0; i < 16 * blocks; i++) if (out[i] != ref[i]) { char hex[80] = ""; hexcat(hex, sizeof hex, key, (size_t)KL[w]); violation("value", "%s key %s, %zu blocks%s: byte %zu is %02x, FIPS 197 says %02x", nm, hex, blocks, inplace ? " in place" : "", i, out[i], ref[i]); return 0; }
    if (!inplace && memcmp(cp, in, 16 * blocks)) { violation("input", "%s: the plaintext was modified", nm); return 0; }
    if (memcmp(key, k, (size_t)KL[w])) { violation("input", "%s: the key was modified", nm); return 0; }
    if (memcmp(sch, s, (size_t)SCH[w])) { violation("input", "%s: encryption modified the schedule", nm); return 0; }
    if (!intact(&I[0]) || !intact(&I[1]) || !intact(&I[2]) || (!inplace && !intact(&O[0]))) { violation("outside", "%s, %zu blocks: wrote outside its buffers", nm, blocks); return 0; }
    // the same schedule again, then its release
    if (blocks && rndn(&P, 4) == 0) {
        uint8_t x[48], y[48], z[48]; rndbuf(&P, x, 48);
        ecb[w](x, 48, s, y); ossl_ecb(w, key, x, 48, z);
        if (memcmp(y, z, 48)) { violation("value", "%s: the second use of a schedule gives a wrong result", nm); return 0; }
    }
    fr[w](s); nsched++;
    for (int i = 0; i < SCH[w]; i++) if (s[i]) {
        int match = 0; for (int j = 0; j < SCH[w]; j++) match += s[j] && s[j] == sch[j];
        if (match > 3) { violation("erase", "%s: %d bytes of the released schedule remain", nm, match); return 0; }
    }
    if (!intact(&I[1])) { violation("outside", "%s: releasing the schedule wrote outside it", nm); return 0; }
    return 1;
}
static void aes_main(int iters)
{
    size_t cap = 1200000;
    for (int l = 0; l < 3; l++) { I[l] = mk(cap); O[l] = mk(cap); }
    ref = malloc(cap); cp = malloc(cap);
    for (int w = 0; w < 2; w++) if (ld[w] && ecb[w] && fr[w]) {
        for (size_t nb = 0; nb <= 130; nb++) for (int ip = 0; ip < 2; ip++) if (!one_aes(w, nb, ip, 1, nb & 63)) return;
        for (size_t al = 0; al < 64; al++) for (int ip = 0; ip < 2; ip++) if (!one_aes(w, 1 + rndn(&P, 9), ip, 0, al)) return;
        static const size_t BIG[] = {255, 256, 257, 320, 511, 512, 513, 672, 1000, 4095, 4096, 4097, 65535, 65536, 65537};
        for (int i = 0; i < (int)(sizeof BIG / sizeof *BIG); i++) for (int ip = 0; ip < 2; ip++) if (!one_aes(w, BIG[i], ip, 0, 0)) return;
        // single-bit keys and plaintexts, all of them
        for (int bit = 0; bit < KL[w] * 8 + 128; bit++) {
            uint8_t key[32] = {0}, pt[16] = {0}, s[240 + 16], ct[16], want[16];
            if (bit < KL[w] * 8) key[bit / 8] = (uint8_t)(1 << (bit % 8)); else pt[(bit - KL[w] * 8) / 8] = (uint8_t)(1 << (bit % 8));
            ld[w](key, s); ecb[w](pt, 16, s, ct); ossl_ecb(w, key, pt, 16, want); ev++; naes++; nblocks_++;
            hset_add(&ds, fnv(fnv((uint64_t)(77 + w), key, 32), pt, 16));
            if (memcmp(ct, want, 16)) { violation("value", "AES-%d: wrong result for single-bit vector %d", w ? 256 : 128, bit); return; }
        }
        for (int k = 0; k < iters; k++) if (!one_aes(w, rndn(&P, 12), (int)rndn(&P, 2), k & 1, rndn(&P, 64))) return;
    }
    if (!naes) { fprintf(stderr, "no AES symbols\n"); exit(3); }
}
static void aes_huge(int w, uint64_t len)
{
    if (!ld[w] || !ecb[w]) { ev++; return; }
    size_t win = 1 << 21;
    int f1 = memfd_create("win", 0), f2 = memfd_create("win", 0);
    if (f1 < 0 || ftruncate(f1, (off_t)win) || f2 < 0 || ftruncate(f2, (off_t)win)) { perror("memfd"); exit(3); }
    uint8_t *in = window(len, win, f1), *out = window(len, win, f2), key[32], s[240 + 16], *want = malloc(win);
    rndbuf(&P, key, 32); rndbuf(&P, in, win);
    ld[w](key, s);
    memset(out, 0, win);
    ecb[w](in, len - win, s, out);          // every window position gets the same result
    ossl_ecb(w, key, in, win, want);
    if (memcmp(out, want, win)) violation("value", "AES-%d: %llu bytes give a wrong result", w ? 256 : 128, (unsigned long long)(len - win));
    memset(out, 0x31, win);
    ecb[w](in, (1ull << 32) + 16, s, out);
    for (size_t i = 0; i < win; i++) if (out[i] != want[i]) { violation("value", "AES-%d: byte %zu of %llu was not encrypted", w ? 256 : 128, i, (1ull << 32) + 16); break; }
    ev += 2; hset_add(&ds, 5); hset_add(&ds, 6);
}

int main(int argc, char **argv)
{
    const char *mode = argv[1];
    void *h = dlopen(argv[2], RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 3; }
    P = prng_mk(strtoull(argv[3], 0, 10), 14);
    int n = atoi(argv[4]);
    sh[0] = (shake_f)dlsym(h, "shake128"); sh[1] = (shake_f)dlsym(h, "shake256");
    ab[0] = (absorb_f)dlsym(h, "shake128_absorb"); ab[1] = (absorb_f)dlsym(h, "shake256_absorb");
    sq[0] = (sqz_f)dlsym(h, "shake128_squeezeblocks"); sq[1] = (sqz_f)dlsym(h, "shake256_squeezeblocks");
    s4 = (shake4_f)dlsym(h, "shake128_4x"); ab4 = (absorb4_f)dlsym(h, "shake128_absorb4x"); sq4 = (sqz4_f)dlsym(h, "shake128_squeezeblocks4x");
    ld[0] = (load_f)dlsym(h, "AES128_load_schedule"); ld[1] = (load_f)dlsym(h, "AES256_load_schedule");
    ecb[0] = (ecb_f)dlsym(h, "AES128_ECB_enc_sch"); ecb[1] = (ecb_f)dlsym(h, "AES256_ECB_enc_sch");
    fr[0] = (freesch_f)dlsym(h, "AES128_free_schedule"); fr[1] = (freesch_f)dlsym(h, "AES256_free_schedule");
    if (mode[0] == 's') { if (!sh[0] || !sh[1]) { fprintf(stderr, "no shake symbols\n"); return 3; } }
    else if (!ld[0] || !ecb[0]) { fprintf(stderr, "no AES symbols\n"); return 3; }
    if (!strcmp(mode, "shake")) shake_main(n);
    else if (!strcmp(mode, "shakehuge")) shake_huge(n >> 1, n & 1, strtoull(argv[5], 0, 10));
    else if (!strcmp(mode, "aes")) aes_main(n);
    else if (!strcmp(mode, "aeshuge")) aes_huge(n, (1ull << 32) + (1 << 22));
    else return 3;
    stat_out("\"evaluations\":%ld,\"distinct\":%zu,\"shake_calls\":%ld,\"absorb_squeeze_sequences\":%ld,\"four_way_calls\":%ld,\"aes_calls\":%ld,\"aes_blocks\":%ld,\"schedules_released\":%ld", ev, ds.n, nshake, nforms, n4, naes, nblocks_, nsched);
    sample_out("%s: %ld comparisons with OpenSSL (%ld one-shot, %ld block-wise, %ld four-way hashes; %ld AES calls, %ld blocks)", mode, ev, nshake, nforms, n4, naes, nblocks_);
    return 0;
}

// Memory-safety monitor. Exact-size buffers at every alignment, hostile contents.
// usage: mem_mon heap|guard LIB.so N aes|shake SEED ITERS
//  heap:  buffers end exactly at the end of a heap block (for AddressSanitizer builds); bytes before are canaries
//  guard: buffers end (or begin) exactly at an inaccessible page, inputs are write-protected (production builds)
#include "gen.h"
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
static oracle *O; static or_inter *T; static impl M; static prng P; static hset HS; static long IT, evals, calls, aligns; static uint64_t SEED; static int guard;
static const char *volatile OP = "";

typedef struct { uint8_t *base, *p; size_t map, size, off; int front; const char *name; uint8_t canary; } buf;
static buf ALL[8]; static int nall;
static void b_new(buf *x, const char *name, size_t size)
{
    x->name = name; x->size = size;
    if (guard) {
        x->map = (size + 64 + 4095) / 4096 * 4096 + 8192;
        x->base = mmap(NULL, x->map, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (x->base == MAP_FAILED) exit(3);
        mprotect(x->base + 4096, x->map - 8192, PROT_READ | PROT_WRITE);
    }
    ALL[nall++] = *x;
}
static void b_place(buf *x)
{
    x->off = rndn(&P, 33); x->canary = (uint8_t)rnd64(&P); x->front = (int)rndn(&P, 3) == 0;
    if (guard) {
        mprotect(x->base + 4096, x->map - 8192, PROT_READ | PROT_WRITE);
        memset(x->base + 4096, x->canary, x->map - 8192);
        // flush with one of the guards; the other side has the canary. Half of the end placements are exact
        if (x->front) { x->p = x->base + 4096; x->off = 0; }
        else x->p = x->base + x->map - 4096 - x->size;
        if (rndn(&P, 4) == 0) { x->p = x->base + 4096 + x->off; }
    } else {
        x->base = malloc(x->size + x->off);
        memset(x->base, x->canary, x->off);
        x->p = x->base + x->off;
    }
    rndbuf(&P, x->p, x->size);
}
static void b_ro(buf *x) { if (guard) mprotect(x->base + 4096, x->map - 8192, PROT_READ); }
static void b_check(buf *x, const char *op)
{
    uint8_t *lo = guard ? x->base + 4096 : x->base, *hi = guard ? x->base + x->map - 4096 : x->p + x->size;
    for (uint8_t *c = lo; c < x->p; c++) if (*c != x->canary) { violation("oob-write", "%s wrote %zu bytes before the %s buffer (n=%d, %s)", op, (size_t)(x->p - c), x->name, O->n, M.path); break; }
    for (uint8_t *c = x->p + x->size; c < hi; c++) if (*c != x->canary) { violation("oob-write", "%s wrote %zu bytes past the end of the %s buffer (n=%d, %s)", op, (size_t)(c - x->p - x->size), x->name, O->n, M.path); break; }
}
static void b_done(buf *x) { if (!guard) { free(x->base); x->base = NULL; } }
static buf *CUR[4];
static void onsegv(int s, siginfo_t *si, void *u)
{
    char m[512]; uint8_t *a = si->si_addr; const char *who = "memory outside every buffer"; size_t d = 0; int in = 0;
    for (int i = 0; i < 4; i++) if (CUR[i] && CUR[i]->map && a >= CUR[i]->base && a < CUR[i]->base + CUR[i]->map) { who = CUR[i]->name; d = (size_t)(a - CUR[i]->p); in = 1; }
    int k = snprintf(m, sizeof m, "{\"ev\":\"violation\",\"key\":\"%s\",\"detail\":\"%s: access outside the documented range or write to an input: %s, offset %ld of the buffer (n=%d seed=%llu iter=%ld lib=%s)\"}\n",
                     in ? "guard" : "segv", OP, who, (long)d, O->n, (unsigned long long)SEED, IT, M.path);
    if (write(1, m, (size_t)k) < 0) {}
    _exit(0);
}
static void unchanged(buf *x, const uint8_t *copy, const char *op)
{
    if (memcmp(x->p, copy, x->size)) violation("input-modified", "%s changed its %s input (n=%d, %s, seed=%llu iter=%ld)", op, x->name, O->n, M.path, (unsigned long long)SEED, IT);
}
int main(int argc, char **argv)
{
    guard = !strcmp(argv[1], "guard");
    int n = atoi(argv[3]), gs = !strcmp(argv[4], "shake"); SEED = strtoull(argv[5], 0, 0); long iters = atol(argv[6]);
    setvbuf(stdout, NULL, _IOLBF, 0);
    O = or_new(n, gs, 0); T = or_inter_new(O); M = impl_load(argv[2], n);
    size_t m = (size_t)n * 8, cb = (size_t)O->cb;
    if (guard) {
        static uint8_t alt[65536]; stack_t st = { .ss_sp = alt, .ss_size = sizeof alt }; sigaltstack(&st, NULL);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL);
    }
    buf pk, sk, ct, ss; memset(&pk, 0, sizeof pk); sk = ct = ss = pk;
    b_new(&pk, "pk", O->pkb); b_new(&sk, "sk", O->skb); b_new(&ct, "ct", O->ctb); b_new(&ss, "ss", cb);
    CUR[0] = &pk; CUR[1] = &sk; CUR[2] = &ct; CUR[3] = &ss;
    uint8_t *hpk = malloc(O->pkb), *hsk = malloc(O->skb), *hct = malloc(O->ctb), *tsk = malloc(O->skb), r[80], mu[32], s2[32];
    hset AL = {0};
    for (IT = 0; IT < iters; IT++) {
        P = prng_mk(SEED, (uint64_t)IT);
        gen_keyrnd(O, &P, r);
        b_place(&pk); b_place(&sk); OP = "key generation";
        rs_set(r, O->rnd_key); M.keypair(pk.p, sk.p); calls++;
        b_check(&pk, OP); b_check(&sk, OP);
        hset_add(&AL, (uintptr_t)pk.p % 32 * 32 + (uintptr_t)sk.p % 32);
        b_done(&pk); b_done(&sk);

        gen_pk(O, &P, hpk, T, tsk); gen_field(&P, mu, cb, 1);
        b_place(&pk); b_place(&ct); b_place(&ss); memcpy(pk.p, hpk, O->pkb); b_ro(&pk); OP = "encapsulation";
        rs_set(mu, cb); M.enc(ct.p, ss.p, pk.p); calls++;
        b_check(&ct, OP); b_check(&ss, OP); unchanged(&pk, hpk, OP);
        hset_add(&AL, 100000 + (uintptr_t)pk.p % 32 * 1024 + (uintptr_t)ct.p % 32 * 32 + (uintptr_t)ss.p % 32);
        b_done(&pk); b_done(&ct); b_done(&ss);

        for (int k = 0; k < 2; k++) {
            int kind = (int)rndn(&P, 5);
            if (kind < 2) {
                uint16_t *ST = malloc(2 * m), err[64]; gen_matrix(O, &P, ST, m);
                for (int i = 0; i < 64; i++) err[i] = gen_err(O, &P, (int)rndn(&P, kind ? 7 : 4));
                craft(O, &P, ST, err, mu, hsk, hct, T); free(ST);
            } else if (kind == 2) { or_keypair(O, r, hpk, hsk, T); or_enc(O, hpk, mu, hct, s2, T); }
            else if (kind == 3) { memset(hsk, EXB[rndn(&P, NEXB)], O->skb); memset(hct, EXB[rndn(&P, NEXB)], O->ctb); }
            else { rndbuf(&P, hsk, O->skb); rndbuf(&P, hct, O->ctb); }
            b_place(&sk); b_place(&ct); b_place(&ss); memcpy(sk.p, hsk, O->skb); memcpy(ct.p, hct, O->ctb); b_ro(&sk); b_ro(&ct); OP = "decapsulation";
            rs_set(NULL, 0); M.dec(ss.p, ct.p, sk.p); calls++;
            b_check(&ss, OP); unchanged(&sk, hsk, OP); unchanged(&ct, hct, OP);
            hset_add(&AL, 1000000 + (uintptr_t)sk.p % 32 * 1024 + (uintptr_t)ct.p % 32 * 32 + (uintptr_t)ss.p % 32);
            b_done(&sk); b_done(&ct); b_done(&ss);
            hset_add(&HS, fnv(fnv(fnv(5, hsk, O->skb), hct, O->ctb), hpk, O->pkb));
        }
        evals += 4;
        if (VIOLATIONS > 20) break;
    }
    if (SEED % 16 == 0) sample_out("%s n=%d gen=%s: last case sk at address mod 32 = %d, ct = %d", argv[1], n, argv[4], (int)((uintptr_t)sk.p % 32), (int)((uintptr_t)ct.p % 32));
    stat_out("\"evaluations\":%ld,\"calls\":%ld,\"distinct\":%zu,\"alignment_combinations\":%zu", evals, calls, HS.n, AL.n);
    return 0;
}

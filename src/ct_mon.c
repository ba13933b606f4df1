// Secret-independence monitor: the library is compiled with ctpass, which reports blocks, addresses, memory-intrinsic
// arguments, division operands. For fixed public inputs the trace must be the same for all secrets.
// usage: ct_mon LIB.so N aes|shake SEED GROUPS RUNS OPS(k,e,d letters)
#include "gen.h"
#include "stk.h"
#include <sys/wait.h>
#include <unistd.h>
typedef struct { uint64_t h[5], c[5]; int done; uint64_t where; } trace; // blocks, addresses, memory intrinsics, divisions, calls/compares
static volatile int rec; static trace *TR;
static inline void ev(int k, uint64_t v) { if (rec) { TR->h[k] = (TR->h[k] ^ v) * 0x9e3779b97f4a7c15ULL; TR->h[k] ^= TR->h[k] >> 29; TR->c[k]++; } }
void vp_block(uint64_t id) { ev(0, id); }
void vp_addr(void *p) { ev(1, (uint64_t)(uintptr_t)p); }
void vp_mem(void *d, void *s, uint64_t n) { if (rec) { ev(2, (uint64_t)(uintptr_t)d); ev(2, (uint64_t)(uintptr_t)s); ev(2, n); } }
void vp_div(uint64_t a, uint64_t b) { if (rec) { ev(3, a); ev(3, b); } }
void vp_icall(void *p) { ev(4, (uint64_t)(uintptr_t)p); }
// variable-time library functions the code under test may call
__attribute__((noinline)) static size_t firstdiff(const void *a, const void *b, size_t n)
{
    const volatile unsigned char *x = a, *y = b; size_t i = 0;
    while (i < n && x[i] == y[i]) i++;
    return i;
}
int memcmp(const void *a, const void *b, size_t n)
{
    size_t i = firstdiff(a, b, n);
    ev(4, 0x1000000 + i);
    return i == n ? 0 : (int)((const unsigned char *)a)[i] - (int)((const unsigned char *)b)[i];
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }

static oracle *O; static or_inter *T; static impl M; static prng P; static long evals, groups, calls, accepts; static uint64_t SEED, blocks, addrs, divs;
static uint8_t *pk, *sk, *ct, *opk, *osk, *oct, ss[32], oss[32], r[80], mu[32]; static int op; static hset TS, SS;
static void call(void)
{
    rec = 1;
    if (op == 0) M.keypair(opk, osk); else if (op == 1) M.enc(oct, oss, pk); else M.dec(oss, ct, sk);
    rec = 0;
}
static int measure(trace *t)
{
    memset(TR, 0, sizeof *TR);
    pid_t p = fork();
    if (p < 0) exit(3);
    if (p == 0) {
        if (op == 0) rs_set(r, O->rnd_key); else if (op == 1) rs_set(mu, O->rnd_enc); else rs_set(NULL, 0);
        stk_run(call); TR->done = 1; _exit(0);
    }
    int st; waitpid(p, &st, 0);
    if (!TR->done) { violation("crash", "operation %d died (status %x) n=%d lib=%s", op, st, O->n, M.path); exit(0); }
    *t = *TR; calls++; evals++;
    blocks += t->c[0]; addrs += t->c[1]; divs += t->c[3] / 2;
    return 1;
}
static const char *OPN[] = {"key generation", "encapsulation", "decapsulation"}, *KN[] = {"executed blocks", "memory addresses", "copied ranges", "division operands", "calls and comparisons"};
static void compare(const trace *a, const trace *b, const char *what, int g, int i)
{
    for (int k = 0; k < 5; k++) if (a->h[k] != b->h[k] || a->c[k] != b->c[k]) {
        violation("secret-dependent", "%s: the %s depend on secret data (%llu vs %llu events, %s) n=%d gen=%s lib=%s seed=%llu group=%d run=%d", OPN[op], KN[k],
                  (unsigned long long)a->c[k], (unsigned long long)b->c[k], what, O->n, O->gen_shake ? "shake" : "aes", M.path, (unsigned long long)SEED, g, i);
        return;
    }
}
int main(int argc, char **argv)
{
    int n = atoi(argv[2]), gs = !strcmp(argv[3], "shake"); SEED = strtoull(argv[4], 0, 0); int G = atoi(argv[5]), R = atoi(argv[6]); const char *ops = argv[7];
    setvbuf(stdout, NULL, _IOLBF, 0);
    TR = mmap(NULL, sizeof *TR, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    O = or_new(n, gs, 0); T = or_inter_new(O); M = impl_load(argv[1], n); stk_init();
    size_t m = (size_t)n * 8, cb = (size_t)O->cb, big = O->skb + 64;
    pk = malloc(big); sk = malloc(big); ct = malloc(big); opk = malloc(big); osk = malloc(big); oct = malloc(big);
    uint16_t *ST = malloc(2 * m), *X = malloc(2 * m), err[64];
    for (int g = 0; g < G; g++) {
        P = prng_mk(SEED, (uint64_t)g);
        trace t0, t;
        if (strchr(ops, 'k')) {
            op = 0; gen_field(&P, r + 2 * cb, 16, 1);
            for (int i = 0; i < R; i++) {
                gen_field(&P, r, cb, i > 0); gen_field(&P, r + cb, cb, i > 0);
                measure(&t); if (!i) t0 = t; else compare(&t0, &t, "different seeds, same matrix seed", g, i);
                hset_add(&SS, fnv(1, r, 2 * cb));
            }
            groups++;
        }
        if (strchr(ops, 'e')) {
            op = 1; gen_pk(O, &P, pk, T, sk);
            for (int i = 0; i < R; i++) {
                gen_field(&P, mu, cb, i > 0);
                measure(&t); if (!i) t0 = t; else compare(&t0, &t, "different messages, same public key", g, i);
                hset_add(&SS, fnv(2, mu, cb));
            }
            groups++;
        }
        if (strchr(ops, 'd')) {
            // fixed ct and public key; the secret matrix and rejection value vary. Variant 0: the first key accepts;
            // variant 1: c2 altered in a low bit, the first key decrypts to the right message but must reject;
            op = 2; int variant = g % 3;
            gen_field(&P, mu, cb, 1);
            if (variant == 2) { uint8_t q[80]; gen_keyrnd(O, &P, q); or_keypair(O, q, pk, sk, T); or_enc(O, pk, mu, ct, ss, T); for (size_t i = 0; i < m; i++) ST[i] = T->S[i]; or_keypair(O, q, pk, sk, T); for (size_t i = 0; i < m; i++) ST[i] = T->S[i]; }
            else { gen_matrix(O, &P, ST, m); for (int i = 0; i < 64; i++) err[i] = (uint16_t)((int)rndn(&P, 200) - 100); craft(O, &P, ST, err, mu, sk, ct, T); }
            if (variant == 1) { uint16_t c[64]; or_unpack(O, c, ct + O->cbytes1, 64); c[rndn(&P, 64)] ^= 1; or_pack(O, ct + O->cbytes1, c, 64); }
            for (int i = 0; i < R; i++) {
                uint8_t *Sb = sk + cb + O->pkb;
                if (i) gen_field(&P, sk, cb, 1);
                if (i == 0 || i == 1) memcpy(X, ST, 2 * m);
                else if (i == 2) { memcpy(X, ST, 2 * m); X[rndn(&P, (uint32_t)m)] ^= 1; }
                else gen_matrix(O, &P, X, m);
                for (size_t k = 0; k < m; k++) or_wr16(O, Sb + 2 * k, X[k]);
                int acc = or_dec(O, sk, ct, ss, T); accepts += acc;
                measure(&t); if (!i) t0 = t; else compare(&t0, &t, acc ? "accepting, same public data" : "rejecting vs. first key, same public data", g, i);
                hset_add(&SS, fnv(fnv(3, sk, cb), X, 2 * m));
            }
            groups++;
        }
        if (VIOLATIONS > 10) break;
    }
    if (SEED % 8 == 0) sample_out("n=%d gen=%s: %d groups of %d secrets per operation; about %llu blocks and %llu addresses per call", n, argv[3], G, R, (unsigned long long)(blocks / (calls ? calls : 1)), (unsigned long long)(addrs / (calls ? calls : 1)));
    if (blocks == 0 || addrs == 0) { fprintf(stderr, "no trace events: instrumentation missing\n"); return 3; }
    stat_out("\"evaluations\":%ld,\"distinct\":%zu,\"groups\":%ld,\"accepting\":%ld,\"block_events\":%llu,\"address_events\":%llu,\"division_events\":%llu", evals, SS.n, groups, accepts,
             (unsigned long long)blocks, (unsigned long long)addrs, (unsigned long long)divs);
    return 0;
}

// Stale-memory monitor on production builds: the same call under different previous contents of stack, heap and outputs.
// usage: stale_mon LIB.so N aes|shake SEED ITERS
#include "gen.h"
#include "stk.h"
#include <malloc.h>
static oracle *O; static or_inter *T; static impl M; static prng P; static hset HS; static long IT, evals, calls; static uint64_t SEED;
static uint8_t *pk, *sk, *ct, *o1, *o2, *r1, *r2, ss[32], r[80], mu[32]; static int op, rc, rc0; static size_t l1, l2;
static void run(void)
{
    if (op == 0) { rs_set(r, O->rnd_key); rc = M.keypair(o1, o2); }
    else if (op == 1) { rs_set(mu, O->rnd_enc); rc = M.enc(o1, o2, pk); }
    else { rs_set(NULL, 0); rc = M.dec(o1, ct, sk); }
}
static void warm(void) { uint8_t *a = malloc(O->pkb), *b = malloc(O->skb), q[80]; rndbuf(&P, q, 80); rs_set(q, 80); M.keypair(a, b); rs_set(NULL, 0); M.dec(ss, a, b); free(a); free(b); }
int main(int argc, char **argv)
{
    int n = atoi(argv[2]), gs = !strcmp(argv[3], "shake"); SEED = strtoull(argv[4], 0, 0); long iters = atol(argv[5]);
    setvbuf(stdout, NULL, _IOLBF, 0);
    O = or_new(n, gs, 0); T = or_inter_new(O); M = impl_load(argv[1], n); stk_init();
    size_t m = (size_t)n * 8, big = O->skb;
    pk = malloc(big); sk = malloc(big); ct = malloc(big); o1 = malloc(big); o2 = malloc(big); r1 = malloc(big); r2 = malloc(big);
    static const char *OPN[] = {"key generation", "encapsulation", "decapsulation"};
    for (IT = 0; IT < iters; IT++) {
        P = prng_mk(SEED, (uint64_t)IT);
        gen_keyrnd(O, &P, r); or_keypair(O, r, pk, sk, T); gen_field(&P, mu, O->rnd_enc, 1); or_enc(O, pk, mu, ct, ss, T);
        if (IT % 3 == 1) ct[rndn(&P, (uint32_t)O->ctb)] ^= 1;
        if (IT % 3 == 2) { uint16_t *ST = malloc(2 * m), err[64]; gen_matrix(O, &P, ST, m); for (int i = 0; i < 64; i++) err[i] = gen_err(O, &P, 1); craft(O, &P, ST, err, mu, sk, ct, T); free(ST); gen_pk(O, &P, pk, T, r1); }
        for (op = 0; op < 3; op++) {
            l1 = op == 0 ? O->pkb : op == 1 ? O->ctb : (size_t)O->cb; l2 = op == 0 ? O->skb : op == 1 ? (size_t)O->cb : 0;
            for (int f = 0; f < 5; f++) {
                static const uint8_t pat[] = {0x00, 0xff, 0xa5, 0, 0};
                uint8_t c = pat[f];
                size_t fill = 3u << 20;
                if (f < 3) memset(STK + STK_SIZE - fill, c, fill); else if (f == 3) rndbuf(&P, STK + STK_SIZE - fill, fill); else stk_run(warm);
                mallopt(M_PERTURB, f < 3 ? c ^ 0x3c : (int)rndn(&P, 256));
                if (f < 3) { memset(o1, c, l1); memset(o2, c, l2); } else { rndbuf(&P, o1, l1); rndbuf(&P, o2, l2); }
                stk_run(run); calls++;
                if (f == 0) { memcpy(r1, o1, l1); memcpy(r2, o2, l2); rc0 = rc; continue; }
                if (rc != rc0 || memcmp(o1, r1, l1) || memcmp(o2, r2, l2)) {
                    size_t d = 0; while (d < l1 && o1[d] == r1[d]) d++; size_t e = 0; while (e < l2 && o2[e] == r2[e]) e++;
                    violation("stale", "%s depends on earlier memory contents: results differ between fill 0 and fill %d (first output differs at %zu of %zu, second at %zu of %zu; n=%d lib=%s seed=%llu iter=%ld)",
                              OPN[op], f, d, l1, e, l2, n, argv[1], (unsigned long long)SEED, IT);
                }
                evals++;
            }
        }
        hset_add(&HS, fnv(fnv(1, sk, O->skb), ct, O->ctb));
        if (VIOLATIONS > 20) break;
    }
    if (SEED % 16 == 0) sample_out("n=%d gen=%s: each operation run with stack/heap/output fills 00, ff, a5, random and residue of other operations", n, argv[3]);
    stat_out("\"evaluations\":%ld,\"calls\":%ld,\"distinct\":%ld", evals, calls, (long)HS.n * 12);
    return 0;
}

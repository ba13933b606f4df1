// Differential monitor: the same inputs and random bytes through many builds of one parameter set.
// usage: kem_diff N aes|shake SEED ITERS LABEL=LIB.so ...
#include "gen.h"
static impl L[256]; static const char *NAME[256]; static int nl;
static oracle *O; static or_inter *T; static prng P; static hset HS; static long IT, evals, calls; static uint64_t SEED;

static void differs(const char *op, int i, const uint8_t *a, const uint8_t *b, size_t n, const char *what, int kind)
{
    size_t f = 0, c = 0;
    for (size_t k = 0; k < n; k++) if (a[k] != b[k]) { if (!c) f = k; c++; }
    if (c) violation("differ", "n=%d gen=%s seed=%llu iter=%ld: %s of %s from build [%s] differs from build [%s] in %zu of %zu bytes, first at %zu (input kind %d)",
                     O->n, O->gen_shake ? "shake" : "aes", (unsigned long long)SEED, IT, what, op, NAME[i], NAME[0], c, n, f, kind);
    if (VIOLATIONS > 20) exit(0);
}
int main(int argc, char **argv)
{
    int n = atoi(argv[1]), gs = !strcmp(argv[2], "shake"); SEED = strtoull(argv[3], 0, 0); long iters = atol(argv[4]);
    setvbuf(stdout, NULL, _IOLBF, 0);
    O = or_new(n, gs, 0); T = or_inter_new(O);
    for (int i = 5; i < argc && nl < 256; i++) { char *e = strchr(argv[i], '='); *e = 0; NAME[nl] = argv[i]; L[nl] = impl_load(e + 1, n); nl++; }
    uint8_t *pk = malloc(O->pkb), *sk = malloc(O->skb), *ct = malloc(O->ctb), *pk2 = malloc(O->pkb), *sk2 = malloc(O->skb), *ct2 = malloc(O->ctb), *opk = malloc(O->pkb);
    uint8_t r[80], mu[32], ss[32], ss2[32];
    size_t m = (size_t)n * 8;
    for (IT = 0; IT < iters; IT++) {
        P = prng_mk(SEED, (uint64_t)IT);
        int k = gen_keyrnd(O, &P, r), rc, rc0 = 0;
        for (int i = 0; i < nl; i++) {
            rndbuf(&P, pk2, O->pkb); rndbuf(&P, sk2, O->skb);
            rs_set(r, O->rnd_key); rc = L[i].keypair(pk2, sk2); calls++;
            if (!i) { memcpy(pk, pk2, O->pkb); memcpy(sk, sk2, O->skb); rc0 = rc; }
            else { differs("key generation", i, pk2, pk, O->pkb, "public key", k); differs("key generation", i, sk2, sk, O->skb, "secret key", k); if (rc != rc0) violation("differ", "key generation return codes %d vs %d [%s]", rc, rc0, NAME[i]); }
        }
        memcpy(opk, pk, O->pkb);
        if (IT & 1) k = gen_pk(O, &P, pk, T, sk2);
        gen_field(&P, mu, O->rnd_enc, 1);
        for (int i = 0; i < nl; i++) {
            rndbuf(&P, ct2, O->ctb); rndbuf(&P, ss2, 32);
            rs_set(mu, O->rnd_enc); rc = L[i].enc(ct2, ss2, pk); calls++;
            if (!i) { memcpy(ct, ct2, O->ctb); memcpy(ss, ss2, 32); rc0 = rc; }
            else { differs("encapsulation", i, ct2, ct, O->ctb, "ciphertext", k); differs("encapsulation", i, ss2, ss, (size_t)O->cb, "shared secret", k); if (rc != rc0) violation("differ", "encapsulation return codes %d vs %d [%s]", rc, rc0, NAME[i]); }
        }
        k = (int)rndn(&P, 4);
        if (k == 1) ct[rndn(&P, (uint32_t)O->ctb)] ^= (uint8_t)(1u << rndn(&P, 8));
        else if (k >= 2) {
            uint16_t *ST = malloc(2 * m), err[64]; gen_matrix(O, &P, ST, m); gen_field(&P, mu, O->rnd_enc, 1);
            for (int i = 0; i < 64; i++) err[i] = gen_err(O, &P, (int)rndn(&P, k == 2 ? 5 : 7));
            craft(O, &P, ST, err, mu, sk, ct, T); free(ST);
        }
        for (int i = 0; i < nl; i++) {
            rndbuf(&P, ss2, 32); rs_set(NULL, 0); rc = L[i].dec(ss2, ct, sk); calls++;
            if (!i) { memcpy(ss, ss2, 32); rc0 = rc; }
            else { differs("decapsulation", i, ss2, ss, (size_t)O->cb, "shared secret", k); if (rc != rc0) violation("differ", "decapsulation return codes %d vs %d [%s]", rc, rc0, NAME[i]); }
        }
        evals += 3 * (nl - 1); hset_add(&HS, fnv(fnv(3, r, O->rnd_key), ct, O->ctb));
    }
    sample_out("n=%d gen=%s: %d builds compared on %ld inputs per operation", n, argv[2], nl, iters);
    stat_out("\"evaluations\":%ld,\"calls\":%ld,\"distinct\":%ld,\"builds\":%d", evals, calls, (long)HS.n * 3 * (nl - 1), nl);
    return 0;
}

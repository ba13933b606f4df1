// The model and the workload generators as a shared object for the monitors of the Python implementation.
#include "gen.h"
typedef struct { oracle *o; or_inter *t; prng p; } py;
void *py_new(int n, int shake, uint64_t seed) { py *x = calloc(1, sizeof *x); x->o = or_new(n, shake, 0); x->t = or_inter_new(x->o); x->p = prng_mk(seed, 17); return x; }
void py_dims(py *x, uint64_t *d) { d[0] = x->o->pkb; d[1] = x->o->skb; d[2] = x->o->ctb; d[3] = (uint64_t)x->o->cb; d[4] = x->o->rnd_key; d[5] = x->o->rnd_enc; d[6] = (uint64_t)x->o->logq; d[7] = (uint64_t)x->o->b; }
void py_keypair(py *x, const uint8_t *rnd, uint8_t *pk, uint8_t *sk) { or_keypair(x->o, rnd, pk, sk, x->t); }
void py_enc(py *x, const uint8_t *pk, const uint8_t *mu, uint8_t *ct, uint8_t *ss) { or_enc(x->o, pk, mu, ct, ss, x->t); }
int py_dec(py *x, const uint8_t *sk, const uint8_t *ct, uint8_t *ss) { or_dec(x->o, sk, ct, ss, x->t); return x->t->accept; }
void py_A(py *x, const uint8_t *seed, uint16_t *A) { memcpy(A, or_A(x->o, seed), 2 * (size_t)x->o->n * (size_t)x->o->n); }
int py_sample(py *x, int r) { return x->o->noise[r]; }
void py_pack(py *x, uint8_t *out, const uint16_t *in, uint64_t n) { or_pack(x->o, out, in, n); }
void py_unpack(py *x, uint16_t *out, const uint8_t *in, uint64_t n) { or_unpack(x->o, out, in, n); }
void py_encode(py *x, uint16_t *C, const uint8_t *mu) { or_encode(x->o, C, mu); }
void py_decode(py *x, uint8_t *mu, const uint16_t *W) { or_decode(x->o, mu, W); }
void py_gen_keyrnd(py *x, uint8_t *b) { gen_keyrnd(x->o, &x->p, b); }
void py_gen_field(py *x, uint8_t *b, uint64_t n) { gen_field(&x->p, b, n, 1); }
void py_gen_pk(py *x, uint8_t *pk) { uint8_t *s = malloc(x->o->skb); gen_pk(x->o, &x->p, pk, x->t, s); free(s); }
void py_gen_matrix(py *x, uint16_t *m, uint64_t n) { gen_matrix(x->o, &x->p, m, n); }
// a key and ciphertext with decryption errors of the given mode (see gen_err)
int py_craft(py *x, int mode, uint8_t *sk, uint8_t *ct)
{
    size_t m = (size_t)x->o->n * 8; uint16_t *ST = malloc(2 * m), err[64]; uint8_t mu[32];
    gen_matrix(x->o, &x->p, ST, m);
    for (int i = 0; i < 64; i++) err[i] = gen_err(x->o, &x->p, mode == 9 ? (i == (int)(x->p.s >> 40 & 63) ? 5 : 0) : mode);
    gen_field(&x->p, mu, 32, 1);
    int r = craft(x->o, &x->p, ST, err, mu, sk, ct, x->t);
    free(ST);
    return r;
}

// out = x y mod q, x is a x b, y is b x c
void py_mul(py *o, uint16_t *out, const uint16_t *x, const uint16_t *y, int a, int b, int c)
{
    uint16_t mask = (uint16_t)((1u << o->o->logq) - 1);
    memset(out, 0, 2 * (size_t)a * (size_t)c);
    for (int i = 0; i < a; i++) for (int k = 0; k < b; k++) {
        uint16_t v = x[(size_t)i * b + k];
        const uint16_t *r = y + (size_t)k * c;
        for (int j = 0; j < c; j++) out[(size_t)i * c + j] = (uint16_t)(out[(size_t)i * c + j] + (uint32_t)v * r[j]);
    }
    for (int i = 0; i < a * c; i++) out[i] &= mask;
}
void py_gen_mu(py *x, const uint8_t *pk, uint8_t *mu) { gen_mu(x->o, &x->p, pk, mu); }
// key randomness with both extreme samples in the secret matrix
void py_rich_key(py *x, uint8_t *b) { rndbuf(&x->p, b, 96); do rndbuf(&x->p, b + x->o->cb, (size_t)x->o->cb); while (!noise_rich(x->o, b + x->o->cb, 0x5f, 0)); }
void py_rich_mu(py *x, const uint8_t *pk, uint8_t *mu) { uint8_t h[32]; or_hash(x->o, h, (size_t)x->o->cb, pk, x->o->pkb); grind_rich_mu(x->o, &x->p, h, mu); }

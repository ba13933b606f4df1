// Workload generators: structured and hostile contents for seeds, keys and ciphertexts.
#ifndef GEN_H
#define GEN_H
#include "common.h"

static const uint8_t EXB[] = {0x00, 0xff, 0x80, 0x7f, 0x01, 0xfe, 0x55, 0xaa, 0x40, 0xbf, 0x0f, 0xf0};
#define NEXB ((int)sizeof EXB)

// one field: mostly random, else a structured pattern; returns the kind
static inline int gen_field(prng *p, uint8_t *b, size_t n, int structured)
{
    int kind = structured ? (int)rndn(p, 10) : 0;
    switch (kind) {
    case 0: case 1: rndbuf(p, b, n); break;
    case 2: memset(b, EXB[rndn(p, NEXB)], n); break;
    case 3: memset(b, 0, n); b[rndn(p, (uint32_t)n)] = (uint8_t)(1u << rndn(p, 8)); break;
    case 4: memset(b, 0xff, n); b[rndn(p, (uint32_t)n)] ^= (uint8_t)(1u << rndn(p, 8)); break;
    case 5: { uint8_t s = (uint8_t)rnd64(p), d = (uint8_t)(1 + rndn(p, 3)); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(s + d * i); break; }
    case 6: { // random with an extreme run
        rndbuf(p, b, n); size_t l = 1 + rndn(p, n < 8 ? (uint32_t)n : 8), o = rndn(p, (uint32_t)(n - l + 1));
        memset(b + o, EXB[rndn(p, NEXB)], l); break; }
    case 7: { size_t h = rndn(p, (uint32_t)n + 1); memset(b, EXB[rndn(p, NEXB)], h); memset(b + h, EXB[rndn(p, NEXB)], n - h); break; }
    case 8: { uint8_t w[8]; size_t per = 2u << rndn(p, 3); if (per > 8) per = 8; rndbuf(p, w, per); for (size_t i = 0; i < n; i++) b[i] = w[i % per]; break; }
    case 9: for (size_t i = 0; i < n; i++) b[i] = EXB[rndn(p, NEXB)]; break;
    }
    return kind;
}
// does h (a hash output of n bytes, halves of n/2) show the wanted rare pattern?
typedef struct { size_t at; uint8_t v[2]; int bits; } rare;
static inline rare gen_rare(prng *p, size_t n, int wide)
{
    static const uint16_t V[] = {0x0000, 0xffff, 0x8000, 0x7fff, 0x00ff, 0xff00, 0x0080, 0x5f5f, 0x9696};
    size_t ends[] = {0, n - 2, n / 2, n / 2 - 2};
    rare r = { rndn(p, 3) ? ends[rndn(p, 4)] : 2 * rndn(p, (uint32_t)n / 2), {0, 0}, wide ? 16 : 8 };
    uint16_t v = V[rndn(p, (uint32_t)(sizeof V / sizeof *V))];
    r.v[0] = (uint8_t)v; r.v[1] = (uint8_t)(v >> 8);
    return r;
}
static inline int is_rare(const rare *r, const uint8_t *h) { return h[r->at] == r->v[0] && (r->bits == 8 || h[r->at + 1] == r->v[1]); }
// a message whose derived seed and key (seedSE' || k) show a rare pattern
static inline void grind_mu(const oracle *o, prng *p, const uint8_t *pkh, uint8_t *mu)
{
    size_t cb = (size_t)o->cb; uint8_t in[64], g[64]; rare r = gen_rare(p, 2 * cb, rndn(p, 8) == 0);
    memcpy(in, pkh, cb);
    for (long tries = 0; tries < 400000; tries++) { rndbuf(p, mu, cb); memcpy(in + cb, mu, cb); or_hash(o, g, 2 * cb, in, 2 * cb); if (is_rare(&r, g)) return; }
}
// z whose matrix seed shows a rare pattern
static inline void grind_z(const oracle *o, prng *p, uint8_t *z)
{
    uint8_t g[16]; rare r = gen_rare(p, 16, rndn(p, 8) == 0);
    for (long tries = 0; tries < 400000; tries++) { rndbuf(p, z, 16); or_hash(o, g, 16, z, 16); if (is_rare(&r, g)) return; }
}
// does the noise of this seed contain both extreme samples in the first (S) or second (E) matrix, or one of them in E''?
static inline int noise_rich(const oracle *o, const uint8_t *seed, uint8_t prefix, int part)
{
    size_t m = (size_t)o->n * 8, from = part == 0 ? 0 : part == 1 ? m : 2 * m, to = part == 0 ? m : part == 1 ? 2 * m : 2 * m + 64, cb = (size_t)o->cb;
    uint8_t in[33], *raw = malloc(2 * to); in[0] = prefix; memcpy(in + 1, seed, cb);
    or_hash(o, raw, 2 * to, in, cb + 1);
    int lo = 0, hi = 0;
    for (size_t i = from; i < to; i++) { int v = o->noise[(uint16_t)(raw[2 * i] | raw[2 * i + 1] << 8)]; lo |= v == -o->maxnoise; hi |= v == o->maxnoise; }
    free(raw);
    return part == 2 ? lo || hi : lo && hi;
}
static inline void grind_rich_mu(const oracle *o, prng *p, const uint8_t *pkh, uint8_t *mu)
{
    size_t cb = (size_t)o->cb; uint8_t in[64], g[64]; int part = rndn(p, 8) ? (int)rndn(p, 2) : 2;
    memcpy(in, pkh, cb);
    for (int tries = 0; tries < 3000; tries++) { rndbuf(p, mu, cb); memcpy(in + cb, mu, cb); or_hash(o, g, 2 * cb, in, 2 * cb); if (noise_rich(o, g, 0x96, part)) return; }
}
static inline void grind_rich_key(const oracle *o, prng *p, uint8_t *seedSE)
{
    int part = (int)rndn(p, 3) == 0;
    for (int tries = 0; tries < 2000; tries++) { rndbuf(p, seedSE, (size_t)o->cb); if (noise_rich(o, seedSE, 0x5f, part)) return; }
}
static inline int gen_mu(const oracle *o, prng *p, const uint8_t *pk, uint8_t *mu)
{
    size_t cb = (size_t)o->cb; uint8_t pkh[32];
    switch (rndn(p, 14)) {
    case 3: or_hash(o, pkh, cb, pk, o->pkb); grind_rich_mu(o, p, pkh, mu); return 23;
    case 0: or_hash(o, pkh, cb, pk, o->pkb); grind_mu(o, p, pkh, mu); return 20;
    case 1: or_hash(o, mu, cb, pk, o->pkb); if (rndn(p, 2)) mu[rndn(p, (uint32_t)cb)] ^= 1; return 21; // message = pkh
    case 2: memcpy(mu, pk, 16); memcpy(mu + 16, pk + o->pkb - 16, 16); return 22;
    default: return gen_field(p, mu, cb, 1);
    }
}
static inline int gen_keyrnd(const oracle *o, prng *p, uint8_t *b)
{
    size_t cb = (size_t)o->cb;
    switch (rndn(p, 5)) {
    case 0: rndbuf(p, b, o->rnd_key); return 0;
    case 1: return 10 + gen_field(p, b, o->rnd_key, 1);
    case 2: { // related fields, or a rare matrix seed
        gen_field(p, b, o->rnd_key, 1);
        int k = (int)rndn(p, 7);
        if (k == 6) grind_rich_key(o, p, b + cb);
        if (k == 0) grind_z(o, p, b + 2 * cb);
        if (k == 1 || k == 3) memcpy(b + cb, b, cb);
        if (k == 2 || k == 3) memcpy(b + 2 * cb, b, 16);
        if (k == 4) memcpy(b + 2 * cb, b + cb, 16);
        if (k == 5) for (size_t i = 0; i < cb; i++) b[cb + i] = (uint8_t)~b[i];
        return 1000 + k; }
    default: { int a = gen_field(p, b, cb, 1), c = gen_field(p, b + cb, cb, 1), d = gen_field(p, b + 2 * cb, 16, 1);
        return 100 + a * 100 + c * 10 + d; }
    }
}
// a 16-bit coefficient at or near an extreme of Z_q / Z_2^16
static inline uint16_t gen_coef(const oracle *o, prng *p)
{
    uint16_t q1 = (uint16_t)((1u << o->logq) - 1);
    switch (rndn(p, 12)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 0xffff;
    case 3: return q1;
    case 4: return (uint16_t)(1u << (o->logq - 1));
    case 5: return (uint16_t)((1u << (o->logq - 1)) - 1);
    case 6: return 0x8000;
    case 7: return 0x7fff;
    case 8: return (uint16_t)(1u << rndn(p, 16));
    case 9: return (uint16_t)-(int)(1u << rndn(p, 16));
    default: return (uint16_t)rnd64(p);
    }
}
// matrix entries: random, constant extreme, mixed extremes, sparse, small
static inline int gen_matrix(const oracle *o, prng *p, uint16_t *M, size_t n)
{
    int kind = (int)rndn(p, 6);
    uint16_t c = gen_coef(o, p);
    for (size_t i = 0; i < n; i++) switch (kind) {
        case 0: M[i] = (uint16_t)rnd64(p); break;
        case 1: M[i] = c; break;
        case 2: M[i] = gen_coef(o, p); break;
        case 3: M[i] = 0; break;
        case 4: M[i] = (uint16_t)(int16_t)((int)rndn(p, 25) - 12); break;
        case 5: M[i] = (i % 8) == (c & 7) ? c : (uint16_t)((i & 1) ? 0xffff : 0); break;
    }
    if (kind == 3) for (int k = 0; k < 1 + (int)(c & 3); k++) M[rndn(p, (uint32_t)n)] = gen_coef(o, p);
    return kind;
}
static inline int gen_pk(oracle *o, prng *p, uint8_t *pk, or_inter *t, uint8_t *tmpsk)
{
    size_t m = (size_t)o->n * 8;
    switch (rndn(p, 6)) {
    case 0: { uint8_t r[80]; gen_keyrnd(o, p, r); or_keypair(o, r, pk, tmpsk, t); return 0; }
    case 1: rndbuf(p, pk, o->pkb); return 1;
    case 2: memset(pk, EXB[rndn(p, NEXB)], o->pkb); return 2;
    case 3: gen_field(p, pk, 16, 1); rndbuf(p, pk + 16, o->pkb - 16); return 3;
    default: {
        uint16_t *B = malloc(2 * m);
        gen_field(p, pk, 16, 1);
        int k = gen_matrix(o, p, B, m);
        or_pack(o, pk + 16, B, m);
        free(B);
        return 10 + k; }
    }
}

// x with M x = y (mod 2^16), M 8x8 with odd determinant; returns 0 if singular
static inline int solve8(uint16_t M[8][8], uint16_t Y[8][8], uint16_t X[8][8])
{
    uint16_t a[8][16];
    for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) { a[i][j] = M[i][j]; a[i][8 + j] = Y[i][j]; }
    for (int c = 0; c < 8; c++) {
        int r = c; while (r < 8 && !(a[r][c] & 1)) r++;
        if (r == 8) return 0;
        for (int j = 0; j < 16; j++) { uint16_t v = a[c][j]; a[c][j] = a[r][j]; a[r][j] = v; }
        uint16_t inv = 1, x = a[c][c];
        for (int k = 0; k < 5; k++) inv = (uint16_t)(inv * (2u - (uint32_t)x * inv));
        for (int j = 0; j < 16; j++) a[c][j] = (uint16_t)((uint32_t)a[c][j] * inv);
        for (int i = 0; i < 8; i++) if (i != c) { uint16_t f = a[i][c]; for (int j = 0; j < 16; j++) a[i][j] = (uint16_t)(a[i][j] - (uint32_t)f * a[c][j]); }
    }
    for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) X[i][j] = a[i][8 + j];
    return 1;
}
// Crafts a secret key and a ciphertext whose decryption error is exactly err (8x8, mod q), with the given S^T
// (8 x n words). Returns 1 on success; on return the model's dec accepts iff every err entry is in the decoding radius.
static inline int craft(oracle *o, prng *p, const uint16_t *ST, const uint16_t *err, const uint8_t *mu, uint8_t *sk, uint8_t *ct, or_inter *t)
{
    size_t n = (size_t)o->n, m = n * 8, cb = (size_t)o->cb;
    uint8_t *pk = sk + cb, *Sb = pk + o->pkb, *pkh = Sb + 2 * m;
    uint16_t q1 = (uint16_t)((1u << o->logq) - 1), *B = calloc(m, 2);
    gen_field(p, sk, cb, 1); gen_field(p, pk, 16, 1); gen_field(p, pkh, cb, 1);
    memset(pk + 16, 0, o->pkb - 16);
    for (size_t i = 0; i < m; i++) or_wr16(o, Sb + 2 * i, ST[i]);
    or_enc_pkh(o, pk, pkh, mu, NULL, NULL, t); // S', B', E'' do not depend on B
    gen_matrix(o, p, B, m);
    for (int attempt = 0; attempt < 400; attempt++) {
        size_t col[8]; uint16_t M[8][8], Y[8][8], X[8][8];
        for (int i = 0; i < 8; i++) { again: col[i] = rndn(p, (uint32_t)n); for (int j = 0; j < i; j++) if (col[j] == col[i]) goto again; }
        for (int i = 0; i < 8; i++) for (int k = 0; k < 8; k++) M[i][k] = t->Sp[(size_t)i * n + col[k]];
        for (int k = 0; k < 8; k++) memset(B + col[k] * 8, 0, 16);
        for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) {
            uint32_t acc = (uint32_t)err[i * 8 + j] - t->Epp[i * 8 + j];
            for (size_t k = 0; k < n; k++) acc += (uint32_t)t->Bp[(size_t)i * n + k] * ST[(size_t)j * n + k] - (uint32_t)t->Sp[(size_t)i * n + k] * B[k * 8 + j];
            Y[i][j] = (uint16_t)acc;
        }
        if (!solve8(M, Y, X)) continue;
        for (int k = 0; k < 8; k++) for (int j = 0; j < 8; j++) B[col[k] * 8 + j] = X[k][j];
        for (size_t i = 0; i < m; i++) B[i] &= q1;
        or_pack(o, pk + 16, B, m);
        uint8_t ss[32];
        or_enc_pkh(o, pk, pkh, mu, ct, ss, t);
        free(B);
        return 1;
    }
    free(B);
    return 0;
}
// Turns pk (matrix seed set) into a public key for which encapsulating mu gives a second ciphertext part of exactly C
// (8x8, mod q), when the hash of the public key is replaced by the given pkh (decapsulation only).
static inline int craft_c(oracle *o, prng *p, const uint16_t *C, const uint8_t *pkh, const uint8_t *mu, uint8_t *pk, or_inter *t)
{
    size_t n = (size_t)o->n, m = n * 8;
    uint16_t q1 = (uint16_t)((1u << o->logq) - 1), *B = calloc(m, 2), em[64];
    memset(pk + 16, 0, o->pkb - 16);
    or_enc_pkh(o, pk, pkh, mu, NULL, NULL, t);
    or_encode(o, em, mu);
    gen_matrix(o, p, B, m);
    for (int attempt = 0; attempt < 400; attempt++) {
        size_t col[8]; uint16_t M[8][8], Y[8][8], X[8][8];
        for (int i = 0; i < 8; i++) { again: col[i] = rndn(p, (uint32_t)n); for (int j = 0; j < i; j++) if (col[j] == col[i]) goto again; }
        for (int i = 0; i < 8; i++) for (int k = 0; k < 8; k++) M[i][k] = t->Sp[(size_t)i * n + col[k]];
        for (int k = 0; k < 8; k++) memset(B + col[k] * 8, 0, 16);
        for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) {
            uint32_t acc = (uint32_t)C[i * 8 + j] - em[i * 8 + j] - t->Epp[i * 8 + j];
            for (size_t k = 0; k < n; k++) acc -= (uint32_t)t->Sp[(size_t)i * n + k] * B[k * 8 + j];
            Y[i][j] = (uint16_t)acc;
        }
        if (!solve8(M, Y, X)) continue;
        for (int k = 0; k < 8; k++) for (int j = 0; j < 8; j++) B[col[k] * 8 + j] = X[k][j];
        for (size_t i = 0; i < m; i++) B[i] &= q1;
        or_pack(o, pk + 16, B, m);
        free(B);
        return 1;
    }
    free(B);
    return 0;
}
// ... and then S^T such that the decryption error of that ciphertext is exactly err. Fills sk and ct.
static inline int craft_cs(oracle *o, prng *p, const uint16_t *C, uint16_t *ST, const uint16_t *err, const uint8_t *mu, uint8_t *sk, uint8_t *ct, or_inter *t)
{
    size_t n = (size_t)o->n, m = n * 8, cb = (size_t)o->cb;
    uint8_t *pk = sk + cb, *Sb = pk + o->pkb, *pkh = Sb + 2 * m, ss[32];
    uint16_t em[64];
    gen_field(p, sk, cb, 1); gen_field(p, pk, 16, 1); gen_field(p, pkh, cb, 1);
    if (!craft_c(o, p, C, pkh, mu, pk, t)) return 0;
    or_enc_pkh(o, pk, pkh, mu, ct, ss, t);
    or_encode(o, em, mu);
    for (int attempt = 0; attempt < 400; attempt++) {
        size_t col[8]; uint16_t M[8][8], Y[8][8], X[8][8];
        for (int i = 0; i < 8; i++) { again: col[i] = rndn(p, (uint32_t)n); for (int j = 0; j < i; j++) if (col[j] == col[i]) goto again; }
        for (int i = 0; i < 8; i++) for (int k = 0; k < 8; k++) M[i][k] = t->Bp[(size_t)i * n + col[k]];
        for (int j = 0; j < 8; j++) for (int k = 0; k < 8; k++) ST[(size_t)j * n + col[k]] = 0;
        for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) {
            uint32_t acc = (uint32_t)t->C[i * 8 + j] - em[i * 8 + j] - err[i * 8 + j];
            for (size_t k = 0; k < n; k++) acc -= (uint32_t)t->Bp[(size_t)i * n + k] * ST[(size_t)j * n + k];
            Y[i][j] = (uint16_t)acc;
        }
        if (!solve8(M, Y, X)) continue;
        for (int k = 0; k < 8; k++) for (int j = 0; j < 8; j++) ST[(size_t)j * n + col[k]] = X[k][j];
        for (size_t i = 0; i < m; i++) or_wr16(o, Sb + 2 * i, ST[i]);
        return 1;
    }
    return 0;
}
// decoding errors around the boundary: [-lim, lim) decodes back
static inline uint16_t gen_err(const oracle *o, prng *p, int mode)
{
    int lim = 1 << (o->logq - o->b - 1);
    switch (mode) {
    case 0: return (uint16_t)((int)rndn(p, (uint32_t)(2 * lim)) - lim);          // anywhere inside
    case 1: { int v[] = {-lim, lim - 1, -lim + 1, lim - 2, 0}; return (uint16_t)v[rndn(p, 5)]; } // inside, at the edge
    case 2: return (uint16_t)-lim;
    case 3: return (uint16_t)(lim - 1);
    case 4: return 0;
    case 5: { int v[] = {lim, -lim - 1, lim + 1, 2 * lim, -2 * lim}; return (uint16_t)v[rndn(p, 5)]; } // outside
    default: return (uint16_t)rnd64(p);
    }
}

// distinct-input accounting
typedef struct { uint64_t *h; size_t cap, n; } hset;
static inline uint64_t fnv(uint64_t h, const void *b, size_t n)
{
    const uint8_t *p = b;
    for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 0x100000001b3ULL;
    return h;
}
static inline int hset_add(hset *s, uint64_t v)
{
    if (!v) v = 1;
    if (s->n * 2 >= s->cap) {
        hset t = { calloc(s->cap ? s->cap * 2 : 1024, 8), s->cap ? s->cap * 2 : 1024, 0 };
        for (size_t i = 0; i < s->cap; i++) if (s->h[i]) hset_add(&t, s->h[i]);
        free(s->h); *s = t;
    }
    size_t i = (v * 0x9e3779b97f4a7c15ULL) >> 20 & (s->cap - 1);
    while (s->h[i]) { if (s->h[i] == v) return 0; i = (i + 1) & (s->cap - 1); }
    s->h[i] = v; s->n++;
    return 1;
}
#endif

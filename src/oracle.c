#include "oracle.h"
#include <openssl/evp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static void die(const char *m) { fprintf(stderr, "oracle: %s\n", m); exit(3); }
static void *xcalloc(size_t n, size_t s) { void *p = calloc(n ? n : 1, s); if (!p) die("memory"); return p; }

uint16_t or_rd16(const oracle *o, const uint8_t *p)
{
    return o->mirror ? (uint16_t)(p[0] << 8 | p[1]) : (uint16_t)(p[1] << 8 | p[0]);
}
void or_wr16(const oracle *o, uint8_t *p, uint16_t v)
{
    p[o->mirror ? 1 : 0] = (uint8_t)v;
    p[o->mirror ? 0 : 1] = (uint8_t)(v >> 8);
}

static __thread EVP_MD_CTX *mdctx;
static EVP_MD *md128, *md256;
static void init_md(void)
{
    if (!md128) { md128 = EVP_MD_fetch(NULL, "SHAKE128", NULL); md256 = EVP_MD_fetch(NULL, "SHAKE256", NULL); }
    if (!md128 || !md256) die("no SHAKE");
}

void or_shake(int bits, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen)
{
    init_md();
    if (!mdctx && !(mdctx = EVP_MD_CTX_new())) die("mdctx");
    if (EVP_DigestInit_ex(mdctx, bits == 256 ? md256 : md128, NULL) != 1 || EVP_DigestUpdate(mdctx, in, inlen) != 1) die("shake");
    if (outlen && EVP_DigestFinalXOF(mdctx, out, outlen) != 1) die("shake xof");
}

void or_hash(const oracle *o, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen)
{
    or_shake(o->shake256 ? 256 : 128, out, outlen, in, inlen);
}

oracle *or_new(int n, int gen_shake, int mirror)
{
    static const int pdf640[] = {9288, 8720, 7216, 5264, 3384, 1918, 958, 422, 164, 56, 17, 4, 1};
    static const int pdf976[] = {11278, 10277, 7774, 4882, 2545, 1101, 396, 118, 29, 6, 1};
    static const int pdf1344[] = {18286, 14320, 6876, 2023, 364, 40, 2};
    oracle *o = xcalloc(1, sizeof *o);
    const int *pdf;
    init_md();
    o->n = n; o->gen_shake = gen_shake; o->mirror = mirror;
    switch (n) {
    case 640:  o->logq = 15; o->b = 2; o->cb = 16; o->shake256 = 0; pdf = pdf640;  o->maxnoise = 12; break;
    case 976:  o->logq = 16; o->b = 3; o->cb = 24; o->shake256 = 1; pdf = pdf976;  o->maxnoise = 10; break;
    case 1344: o->logq = 16; o->b = 4; o->cb = 32; o->shake256 = 1; pdf = pdf1344; o->maxnoise = 6; break;
    default: die("size"); return NULL;
    }
    // magnitude z takes pdf[z] of the 2^15 values of the top 15 bits (half of pdf[0] for z = 0); bit 0 is the sign
    int t = 0;
    for (int z = 0; z <= o->maxnoise; z++) {
        int cnt = z ? pdf[z] : pdf[0] / 2;
        for (int c = 0; c < cnt; c++, t++) {
            o->noise[2 * t] = (int16_t)z;
            o->noise[2 * t + 1] = (int16_t)-z;
        }
    }
    if (t != 32768) die("noise table");
    o->cbytes1 = (size_t)o->logq * n; // 8 rows of n coefficients, logq bits each, /8
    o->cbytes2 = (size_t)o->logq * OR_NB;
    o->pkb = 16 + o->cbytes1;
    o->ctb = o->cbytes1 + o->cbytes2;
    o->skb = o->cb + o->pkb + (size_t)2 * n * OR_NB + o->cb;
    o->rnd_key = 2 * o->cb + 16;
    o->rnd_enc = o->cb;
    o->A = xcalloc((size_t)n * n, 2);
    return o;
}
void or_free(oracle *o) { if (o) { free(o->A); free(o); } }

or_inter *or_inter_new(const oracle *o)
{
    or_inter *t = xcalloc(1, sizeof *t);
    size_t m = (size_t)o->n * OR_NB;
    t->raw = xcalloc(2 * m + 64, 2);
    t->S = xcalloc(m, 2); t->E = xcalloc(m, 2); t->Sp = xcalloc(m, 2); t->Ep = xcalloc(m, 2); t->Epp = xcalloc(64, 2);
    t->Bp = xcalloc(m, 2); t->V = xcalloc(64, 2); t->C = xcalloc(64, 2); t->W = xcalloc(64, 2);
    return t;
}
void or_inter_free(or_inter *t)
{
    if (!t) return;
    free(t->raw); free(t->S); free(t->E); free(t->Sp); free(t->Ep); free(t->Epp); free(t->Bp); free(t->V); free(t->C); free(t->W);
    free(t);
}

const uint16_t *or_A(oracle *o, const uint8_t *seedA)
{
    if (o->haveA && !memcmp(o->seedA, seedA, 16)) return o->A;
    int n = o->n;
    if (!o->gen_shake) {
        size_t len = (size_t)n * n * 2;
        uint8_t *in = xcalloc(len, 1), *out = xcalloc(len + 16, 1);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j += 8) {
                or_wr16(o, in + 2 * ((size_t)i * n + j), (uint16_t)i);
                or_wr16(o, in + 2 * ((size_t)i * n + j) + 2, (uint16_t)j);
            }
        EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
        int l = 0;
        if (!c || EVP_EncryptInit_ex(c, EVP_aes_128_ecb(), NULL, seedA, NULL) != 1) die("aes");
        EVP_CIPHER_CTX_set_padding(c, 0);
        if (EVP_EncryptUpdate(c, out, &l, in, (int)len) != 1 || (size_t)l != len) die("aes enc");
        EVP_CIPHER_CTX_free(c);
        for (size_t i = 0; i < (size_t)n * n; i++) o->A[i] = or_rd16(o, out + 2 * i);
        free(in); free(out);
    } else {
        uint8_t in[18], row[2 * OR_MAXN];
        memcpy(in + 2, seedA, 16);
        for (int i = 0; i < n; i++) {
            or_wr16(o, in, (uint16_t)i);
            or_shake(128, row, (size_t)2 * n, in, 18);
            for (int j = 0; j < n; j++) o->A[(size_t)i * n + j] = or_rd16(o, row + 2 * j);
        }
    }
    memcpy(o->seedA, seedA, 16);
    o->haveA = 1;
    return o->A;
}

// Coefficients are written most significant bit first, logq bits each.
void or_pack(const oracle *o, uint8_t *out, const uint16_t *in, size_t count)
{
    uint32_t acc = 0; int bits = 0; uint32_t q1 = (1u << o->logq) - 1;
    for (size_t i = 0; i < count; i++) {
        acc = (acc << o->logq) | (in[i] & q1);
        bits += o->logq;
        while (bits >= 8) { *out++ = (uint8_t)(acc >> (bits - 8)); bits -= 8; acc &= (1u << bits) - 1; }
    }
    if (bits) die("pack");
}
void or_unpack(const oracle *o, uint16_t *out, const uint8_t *in, size_t count)
{
    uint32_t acc = 0; int bits = 0;
    for (size_t i = 0; i < count; i++) {
        while (bits < o->logq) { acc = (acc << 8) | *in++; bits += 8; }
        out[i] = (uint16_t)(acc >> (bits - o->logq)); bits -= o->logq; acc &= (1u << bits) - 1;
    }
}

void or_encode(const oracle *o, uint16_t *C, const uint8_t *mu)
{
    for (int i = 0; i < 64; i++) {
        unsigned v = 0;
        for (int l = 0; l < o->b; l++) { int bit = i * o->b + l; v |= (unsigned)((mu[bit / 8] >> (bit % 8)) & 1) << l; }
        C[i] = (uint16_t)(v * (1u << (o->logq - o->b)));
    }
}
void or_decode(const oracle *o, uint8_t *mu, const uint16_t *W)
{
    uint32_t q = 1u << o->logq;
    memset(mu, 0, (size_t)o->b * 8);
    for (int i = 0; i < 64; i++) {
        // floor(W * 2^b / q + 1/2) mod 2^b
        uint32_t v = ((W[i] % q) * (2u << o->b) + q) / (2 * q) % (1u << o->b);
        for (int l = 0; l < o->b; l++) { int bit = i * o->b + l; mu[bit / 8] |= (uint8_t)(((v >> l) & 1) << (bit % 8)); }
    }
}

static void sample(const oracle *o, const uint16_t *raw, uint16_t *out, size_t count)
{
    for (size_t i = 0; i < count; i++) out[i] = (uint16_t)o->noise[raw[i]];
}
static void expand(const oracle *o, int tag, const uint8_t *seed, uint16_t *raw, size_t count)
{
    uint8_t in[33]; uint8_t *buf = xcalloc(count, 2);
    in[0] = (uint8_t)tag; memcpy(in + 1, seed, (size_t)o->cb);
    or_hash(o, buf, 2 * count, in, 1 + (size_t)o->cb);
    for (size_t i = 0; i < count; i++) raw[i] = or_rd16(o, buf + 2 * i);
    free(buf);
}

void or_keypair(oracle *o, const uint8_t *rnd, uint8_t *pk, uint8_t *sk, or_inter *t)
{
    size_t n = (size_t)o->n, m = n * OR_NB, cb = (size_t)o->cb;
    memcpy(t->s, rnd, cb); memcpy(t->seedSE, rnd + cb, cb); memcpy(t->z, rnd + 2 * cb, 16);
    or_hash(o, pk, 16, t->z, 16);
    t->nraw = 2 * m;
    expand(o, 0x5f, t->seedSE, t->raw, 2 * m);
    sample(o, t->raw, t->S, m);
    sample(o, t->raw + m, t->E, m);
    const uint16_t *A = or_A(o, pk);
    uint16_t *B = xcalloc(m, 2);
    for (size_t i = 0; i < n; i++)
        for (int k = 0; k < OR_NB; k++) {
            const uint16_t *a = A + i * n, *s = t->S + (size_t)k * n;
            uint16_t acc = t->E[i * OR_NB + k];
            for (size_t j = 0; j < n; j++) acc = (uint16_t)(acc + (uint32_t)a[j] * s[j]);
            B[i * OR_NB + k] = acc;
        }
    or_pack(o, pk + 16, B, m);
    free(B);
    memcpy(sk, t->s, cb);
    memcpy(sk + cb, pk, o->pkb);
    for (size_t i = 0; i < m; i++) or_wr16(o, sk + cb + o->pkb + 2 * i, t->S[i]);
    or_hash(o, t->pkh, cb, pk, o->pkb);
    memcpy(sk + cb + o->pkb + 2 * m, t->pkh, cb);
}

void or_enc_pkh(oracle *o, const uint8_t *pk, const uint8_t *pkh, const uint8_t *mu, uint8_t *ct, uint8_t *ss, or_inter *t)
{
    size_t n = (size_t)o->n, m = n * OR_NB, cb = (size_t)o->cb;
    uint8_t g[64], g2[64];
    memmove(t->pkh, pkh, cb); memmove(t->mu, mu, cb);
    memcpy(g, t->pkh, cb); memcpy(g + cb, t->mu, cb);
    or_hash(o, g2, 2 * cb, g, 2 * cb);
    memcpy(t->seedSE, g2, cb); memcpy(t->k, g2 + cb, cb);
    t->nraw = 2 * m + 64;
    expand(o, 0x96, t->seedSE, t->raw, 2 * m + 64);
    sample(o, t->raw, t->Sp, m); sample(o, t->raw + m, t->Ep, m); sample(o, t->raw + 2 * m, t->Epp, 64);
    const uint16_t *A = or_A(o, pk);
    for (int k = 0; k < OR_NB; k++) {
        uint16_t *out = t->Bp + (size_t)k * n;
        memcpy(out, t->Ep + (size_t)k * n, 2 * n);
        for (size_t j = 0; j < n; j++) {
            uint16_t s = t->Sp[(size_t)k * n + j]; const uint16_t *a = A + j * n;
            if (s) for (size_t i = 0; i < n; i++) out[i] = (uint16_t)(out[i] + (uint32_t)s * a[i]);
        }
    }
    uint16_t q1 = (uint16_t)((1u << o->logq) - 1);
    for (size_t i = 0; i < m; i++) t->Bp[i] &= q1;
    uint16_t *B = xcalloc(m, 2);
    or_unpack(o, B, pk + 16, m);
    uint16_t Cm[64];
    or_encode(o, Cm, t->mu);
    for (int k = 0; k < OR_NB; k++)
        for (int i = 0; i < OR_NB; i++) {
            uint32_t acc = t->Epp[k * OR_NB + i];
            for (size_t j = 0; j < n; j++) acc += (uint32_t)t->Sp[(size_t)k * n + j] * B[j * OR_NB + i];
            t->V[k * OR_NB + i] = (uint16_t)acc & q1;
            t->C[k * OR_NB + i] = (uint16_t)(acc + Cm[k * OR_NB + i]) & q1;
        }
    free(B);
    if (ct) {
        or_pack(o, ct, t->Bp, m);
        or_pack(o, ct + o->cbytes1, t->C, 64);
        uint8_t *f = xcalloc(o->ctb + cb, 1);
        memcpy(f, ct, o->ctb); memcpy(f + o->ctb, t->k, cb);
        or_hash(o, t->ss, cb, f, o->ctb + cb);
        if (ss) memcpy(ss, t->ss, cb);
        free(f);
    }
}
void or_enc(oracle *o, const uint8_t *pk, const uint8_t *mu, uint8_t *ct, uint8_t *ss, or_inter *t)
{
    uint8_t pkh[32];
    or_hash(o, pkh, (size_t)o->cb, pk, o->pkb);
    or_enc_pkh(o, pk, pkh, mu, ct, ss, t);
}

int or_dec(oracle *o, const uint8_t *sk, const uint8_t *ct, uint8_t *ss, or_inter *t)
{
    size_t n = (size_t)o->n, m = n * OR_NB, cb = (size_t)o->cb;
    uint16_t q1 = (uint16_t)((1u << o->logq) - 1);
    const uint8_t *pk = sk + cb, *Sb = pk + o->pkb, *pkh = Sb + 2 * m;
    uint16_t *Bp = xcalloc(m, 2), C[64];
    uint8_t mu[32];
    memcpy(t->s, sk, cb);
    for (size_t i = 0; i < m; i++) t->S[i] = or_rd16(o, Sb + 2 * i);
    or_unpack(o, Bp, ct, m);
    or_unpack(o, C, ct + o->cbytes1, 64);
    for (int i = 0; i < OR_NB; i++)
        for (int j = 0; j < OR_NB; j++) {
            uint32_t acc = 0;
            for (size_t k = 0; k < n; k++) acc += (uint32_t)Bp[(size_t)i * n + k] * t->S[(size_t)j * n + k];
            t->W[i * OR_NB + j] = (uint16_t)(C[i * OR_NB + j] - acc) & q1;
        }
    or_decode(o, mu, t->W);
    or_enc_pkh(o, pk, pkh, mu, NULL, NULL, t);
    t->accept = !memcmp(Bp, t->Bp, 2 * m) && !memcmp(C, t->C, sizeof C);
    uint8_t *f = xcalloc(o->ctb + cb, 1);
    memcpy(f, ct, o->ctb);
    memcpy(f + o->ctb, t->accept ? t->k : sk, cb);
    or_hash(o, t->ss, cb, f, o->ctb + cb);
    memcpy(ss, t->ss, cb);
    free(f); free(Bp);
    return t->accept;
}

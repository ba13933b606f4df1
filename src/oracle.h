// Independent executable model of FrodoKEM (written from the specification, not from /repo).
// SHAKE and AES come from OpenSSL; the noise table is expanded from the probability table, matrix products
// are done on whole matrices, packing is done with a bit accumulator.
#ifndef ORACLE_H
#define ORACLE_H
#include <stddef.h>
#include <stdint.h>

#define OR_NB 8
#define OR_MAXN 1344

typedef struct {
    int n, logq, b, cb;        // dimension, log2 q, bits per coefficient, security bytes
    int shake256;              // hash for the KEM: 0 = SHAKE128, 1 = SHAKE256
    int gen_shake;             // matrix A: 0 = AES128, 1 = SHAKE128
    int mirror;                // 1: every 16-bit little-endian field of the specification is big-endian instead
    size_t pkb, skb, ctb, cbytes1, cbytes2, rnd_key, rnd_enc;
    int16_t noise[65536];      // sample for each 16-bit input
    int maxnoise;
    uint8_t seedA[16]; int haveA; uint16_t *A;
} oracle;

typedef struct {               // everything secret (and more) that one operation computes
    uint8_t s[32], seedSE[32], z[16], mu[32], k[32], pkh[32], ss[32];
    uint16_t *raw;             // raw 16-bit noise inputs of the operation, as specified
    size_t nraw;
    uint16_t *S, *E;           // keygen: S^T (8 x n) and E (n x 8)
    uint16_t *Sp, *Ep, *Epp;   // S', E', E''
    uint16_t *Bp, *V, *C, *W;  // re-encryption (or encryption): B', V = S'B+E'', C; dec: W = C - B'S
    int accept;
} or_inter;

oracle *or_new(int n, int gen_shake, int mirror);
void or_free(oracle *o);
or_inter *or_inter_new(const oracle *o);
void or_inter_free(or_inter *t);
void or_hash(const oracle *o, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen);
void or_shake(int bits, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen);
const uint16_t *or_A(oracle *o, const uint8_t *seedA);
void or_pack(const oracle *o, uint8_t *out, const uint16_t *in, size_t count);
void or_unpack(const oracle *o, uint16_t *out, const uint8_t *in, size_t count);
void or_encode(const oracle *o, uint16_t *C, const uint8_t *mu);
void or_decode(const oracle *o, uint8_t *mu, const uint16_t *W);
void or_keypair(oracle *o, const uint8_t *rnd, uint8_t *pk, uint8_t *sk, or_inter *t);
void or_enc(oracle *o, const uint8_t *pk, const uint8_t *mu, uint8_t *ct, uint8_t *ss, or_inter *t);
// encryption with explicit pkh (what decapsulation re-computes)
void or_enc_pkh(oracle *o, const uint8_t *pk, const uint8_t *pkh, const uint8_t *mu, uint8_t *ct, uint8_t *ss, or_inter *t);
int or_dec(oracle *o, const uint8_t *sk, const uint8_t *ct, uint8_t *ss, or_inter *t);
// sk assembly and field access
uint16_t or_rd16(const oracle *o, const uint8_t *p);
void or_wr16(const oracle *o, uint8_t *p, uint16_t v);
#endif

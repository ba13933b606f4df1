#ifndef COMMON_H
#define COMMON_H
#define _GNU_SOURCE
#include "oracle.h"
#include <dlfcn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct {
    int n, gen_shake;
    void *h;
    const char *path;
    int (*keypair)(unsigned char *pk, unsigned char *sk);
    int (*enc)(unsigned char *ct, unsigned char *ss, const unsigned char *pk);
    int (*dec)(unsigned char *ss, const unsigned char *ct, const unsigned char *sk);
} impl;

static inline impl impl_load(const char *path, int n)
{
    impl m; char name[64];
    memset(&m, 0, sizeof m);
    m.n = n; m.path = path;
    m.h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
    if (!m.h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
    snprintf(name, sizeof name, "crypto_kem_keypair_Frodo%d", n); m.keypair = (int (*)(unsigned char *, unsigned char *))dlsym(m.h, name);
    snprintf(name, sizeof name, "crypto_kem_enc_Frodo%d", n); m.enc = (int (*)(unsigned char *, unsigned char *, const unsigned char *))dlsym(m.h, name);
    snprintf(name, sizeof name, "crypto_kem_dec_Frodo%d", n); m.dec = (int (*)(unsigned char *, const unsigned char *, const unsigned char *))dlsym(m.h, name);
    if (!m.keypair || !m.enc || !m.dec) { fprintf(stderr, "missing API symbol in %s\n", path); exit(3); }
    return m;
}

// ---- deterministic pseudo-random numbers -------------------------------------------------------------------------
typedef struct { uint64_t s; } prng;
static inline uint64_t rnd64(prng *p)
{
    uint64_t z = (p->s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static inline uint32_t rndn(prng *p, uint32_t n) { return (uint32_t)((rnd64(p) >> 32) * n >> 32); }
static inline void rndbuf(prng *p, uint8_t *b, size_t n)
{
    while (n) { uint64_t v = rnd64(p); size_t c = n < 8 ? n : 8; memcpy(b, &v, c); b += c; n -= c; }
}
static inline prng prng_mk(uint64_t seed, uint64_t stream)
{
    prng p = { seed * 0xd1342543de82ef95ULL + stream * 0x2545f4914f6cdd1dULL + 0x1234567 };
    rnd64(&p); rnd64(&p);
    return p;
}

// ---- the randomness the library is given: a byte stream, per thread -----------------------------------------------
typedef struct { const uint8_t *buf; size_t len, pos; int fail_at; int calls; int overrun; } rstream;
extern __thread rstream RS;
static inline void rs_set(const uint8_t *b, size_t n) { RS.buf = b; RS.len = n; RS.pos = 0; RS.fail_at = -1; RS.calls = 0; RS.overrun = 0; }

// ---- reporting ------------------------------------------------------------------------------------------------
static inline void hexcat(char *out, size_t cap, const uint8_t *b, size_t n)
{
    size_t l = strlen(out);
    for (size_t i = 0; i < n && l + 3 < cap; i++, l += 2) snprintf(out + l, cap - l, "%02x", b[i]);
}
extern long VIOLATIONS;
static inline void violation(const char *key, const char *fmt, ...)
{
    char msg[8192]; va_list ap;
    va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    for (char *c = msg; *c; c++) if (*c == '"' || *c == '\\' || *c == '\n' || (unsigned char)*c < 32) *c = ' ';
    __atomic_add_fetch(&VIOLATIONS, 1, __ATOMIC_RELAXED);
    printf("{\"ev\":\"violation\",\"key\":\"%s\",\"detail\":\"%s\"}\n", key, msg);
    fflush(stdout);
}
static inline void stat_out(const char *fmt, ...)
{
    va_list ap;
    printf("{\"ev\":\"stats\",");
    va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
    printf("}\n"); fflush(stdout);
}
static inline void sample_out(const char *fmt, ...)
{
    char msg[4096]; va_list ap;
    va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    printf("{\"ev\":\"sample\",\"text\":\"%s\"}\n", msg); fflush(stdout);
}
#endif

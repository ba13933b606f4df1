// API monitor: drives one build of the library with structured and hostile inputs and compares every call with the model.
// usage: kem_mon MODE LIB.so N aes|shake SEED ITERS
#include "gen.h"
#include <pthread.h>
#include <sys/resource.h>

static oracle *O; static or_inter *T; static impl M;
static prng P; static hset HS;
static const char *MODE; static uint64_t SEED; static long IT;
static long evals, calls, accepts, rejects, kinds[64];
static uint8_t *pk, *sk, *ct, *pk2, *sk2, *ct2, *alt; static uint8_t ss[32], ss2[32], ssx[32];

#define BAD(key, ...) do { char d_[2048]; snprintf(d_, sizeof d_, __VA_ARGS__); \
    violation(key, "mode=%s n=%d gen=%s lib=%s seed=%llu iter=%ld: %s", MODE, O->n, O->gen_shake ? "shake" : "aes", M.path, (unsigned long long)SEED, IT, d_); \
    if (VIOLATIONS > 20) finish(); } while (0)
static void finish(void)
{
    stat_out("\"evaluations\":%ld,\"calls\":%ld,\"distinct\":%zu,\"accepts\":%ld,\"rejects\":%ld", evals, calls, HS.n, accepts, rejects);
    exit(0);
}
static size_t diff_at(const uint8_t *a, const uint8_t *b, size_t n, size_t *cnt)
{
    size_t f = n; *cnt = 0;
    for (size_t i = 0; i < n; i++) if (a[i] != b[i]) { if (f == n) f = i; ++*cnt; }
    return f;
}
static void cmp(const char *key, const char *what, const uint8_t *got, const uint8_t *want, size_t n, const char *ctx)
{
    size_t c, f = diff_at(got, want, n, &c);
    if (c) BAD(key, "%s differs from the specification in %zu of %zu bytes, first at %zu (got %02x want %02x) [%s]", what, c, n, f, got[f], want[f], ctx);
}
static void junk(uint8_t *b, size_t n) { rndbuf(&P, b, n); }

static int do_keypair(const uint8_t *r, uint8_t *k, uint8_t *s)
{
    rs_set(r, O->rnd_key); calls++;
    return M.keypair(k, s);
}
static int do_enc(const uint8_t *mu, uint8_t *c, uint8_t *s, const uint8_t *k)
{
    rs_set(mu, O->rnd_enc); calls++;
    return M.enc(c, s, k);
}
static int do_dec(uint8_t *s, const uint8_t *c, const uint8_t *k)
{
    rs_set(NULL, 0); calls++;
    return M.dec(s, c, k);
}
static void reject_ss(uint8_t *out, const uint8_t *c, const uint8_t *s)
{
    uint8_t *f = malloc(O->ctb + 32);
    memcpy(f, c, O->ctb); memcpy(f + O->ctb, s, (size_t)O->cb);
    or_hash(O, out, (size_t)O->cb, f, O->ctb + (size_t)O->cb);
    free(f);
}

// C03
static void m_keypair(void)
{
    uint8_t r[80]; char ctx[64];
    int kind = gen_keyrnd(O, &P, r);
    snprintf(ctx, sizeof ctx, "randomness kind %d", kind);
    junk(pk, O->pkb); junk(sk, O->skb);
    int rc = do_keypair(r, pk, sk);
    if (rc) BAD("rc", "key generation returned %d", rc);
    if (RS.pos != O->rnd_key) BAD("randomness", "key generation drew %zu random bytes instead of %zu", RS.pos, O->rnd_key);
    or_keypair(O, r, pk2, sk2, T);
    cmp("pk", "public key", pk, pk2, O->pkb, ctx);
    cmp("sk", "secret key", sk, sk2, O->skb, ctx);
    hset_add(&HS, fnv(7, r, O->rnd_key)); evals++;
    if (evals == 1) { char h[200] = ""; hexcat(h, sizeof h, r, O->rnd_key); sample_out("keygen n=%d gen=%s randomness=%s", O->n, O->gen_shake ? "shake" : "aes", h); }
}
// C04
static void m_enc(void)
{
    uint8_t mu[32]; char ctx[64];
    int k1 = gen_pk(O, &P, pk, T, sk2), k2 = gen_mu(O, &P, pk, mu);
    snprintf(ctx, sizeof ctx, "pk kind %d, message kind %d", k1, k2);
    junk(ct, O->ctb); junk(ss, 32);
    int rc = do_enc(mu, ct, ss, pk);
    if (rc) BAD("rc", "encapsulation returned %d [%s]", rc, ctx);
    if (RS.pos != O->rnd_enc) BAD("randomness", "encapsulation drew %zu random bytes instead of %zu", RS.pos, O->rnd_enc);
    or_enc(O, pk, mu, ct2, ss2, T);
    cmp("ct", "ciphertext", ct, ct2, O->ctb, ctx);
    cmp("ss", "shared secret", ss, ss2, (size_t)O->cb, ctx);
    hset_add(&HS, fnv(fnv(9, pk, O->pkb), mu, O->rnd_enc)); evals++;
    if (evals == 1) { char h[80] = ""; hexcat(h, sizeof h, mu, O->rnd_enc); sample_out("enc n=%d gen=%s pk kind %d, message=%s", O->n, O->gen_shake ? "shake" : "aes", k1, h); }
}
static void check_dec(const char *ctx, int want_accept)
{
    junk(ss, 32);
    int acc = or_dec(O, sk, ct, ss2, T);
    if (want_accept >= 0 && acc != want_accept) { fprintf(stderr, "model disagrees with construction: %s\n", ctx); exit(3); }
    int rc = do_dec(ss, ct, sk);
    if (rc) BAD("rc", "decapsulation returned %d [%s]", rc, ctx);
    if (RS.pos) BAD("randomness", "decapsulation drew %zu random bytes", RS.pos);
    char c2[200]; snprintf(c2, sizeof c2, "%s, specification %s", ctx, acc ? "accepts" : "rejects");
    cmp("ss", "shared secret", ss, ss2, (size_t)O->cb, c2);
    if (acc) accepts++; else rejects++;
    hset_add(&HS, fnv(fnv(11, sk, O->skb), ct, O->ctb)); evals++;
    if (evals <= 2) sample_out("dec n=%d gen=%s %s", O->n, O->gen_shake ? "shake" : "aes", c2);
}
// C05
static void m_dec(void)
{
    size_t m = (size_t)O->n * 8, cb = (size_t)O->cb;
    uint8_t mu[32], r[80]; char ctx[128];
    int kind = (int)rndn(&P, 10);
    if (kind < 6) { // crafted key and ciphertext with a chosen decryption error
        uint16_t *ST = malloc(2 * m), err[64];
        int sk_kind = gen_matrix(O, &P, ST, m), em = (int)rndn(&P, 9), inside = 1;
        int lim = 1 << (O->logq - O->b - 1), q = 1 << O->logq;
        gen_field(&P, mu, cb, 1);
        for (int i = 0; i < 64; i++) {
            int mode = em == 5 ? 4 : em == 6 ? (int)rndn(&P, 4) : em == 7 ? 1 : em == 8 ? 6 : em;
            err[i] = gen_err(O, &P, mode);
        }
        if (em == 5 || em == 7) err[rndn(&P, 64)] = gen_err(O, &P, 5); // a single entry just outside
        for (int i = 0; i < 64; i++) { int e = ((int)err[i] % q + q) % q; if (e >= q / 2) e -= q; if (e < -lim || e >= lim) inside = 0; }
        int ck = -1; uint16_t C[64];
        if (rndn(&P, 3) == 0) { ck = gen_matrix(O, &P, C, 64); for (int i = 0; i < 64; i++) C[i] &= (uint16_t)(q - 1); }
        if (ck >= 0 ? craft_cs(O, &P, C, ST, err, mu, sk, ct, T) : craft(O, &P, ST, err, mu, sk, ct, T)) {
            snprintf(ctx, sizeof ctx, "crafted: S kind %d, error mode %d, C kind %d", sk_kind, em, ck);
            // outside the radius the decoded message differs, so the re-encryption cannot match
            check_dec(ctx, inside);
            kinds[em]++;
            if (inside && rndn(&P, 3) == 0) { // accepted ciphertext, rejection key or hash changed
                ct[rndn(&P, (uint32_t)O->ctb)] ^= (uint8_t)(1 + rndn(&P, 255));
                check_dec("crafted then altered", 0);
            }
        }
        free(ST);
        return;
    }
    gen_keyrnd(O, &P, r); or_keypair(O, r, pk, sk, T);
    gen_mu(O, &P, pk, mu); or_enc(O, pk, mu, ct, ss2, T);
    switch (kind) {
    case 6: check_dec("honest", 1); break;
    case 7: { // hostile secret key
        uint16_t *ST = malloc(2 * m); int h = (int)rndn(&P, 6);
        uint8_t *Sb = sk + cb + O->pkb;
        if (h == 0) rndbuf(&P, sk, O->skb);
        else if (h == 1) memset(sk, EXB[rndn(&P, NEXB)], O->skb);
        else if (h == 2) { gen_matrix(O, &P, ST, m); for (size_t i = 0; i < m; i++) or_wr16(O, Sb + 2 * i, ST[i]); }
        else if (h == 3) rndbuf(&P, sk + O->skb - cb, cb);
        else if (h == 4) gen_pk(O, &P, sk + cb, T, sk2);
        else sk[rndn(&P, (uint32_t)O->skb)] ^= (uint8_t)(1u << rndn(&P, 8));
        free(ST);
        snprintf(ctx, sizeof ctx, "hostile secret key kind %d", h); check_dec(ctx, -1); break; }
    case 8: { int h = (int)rndn(&P, 4);
        if (h == 0) rndbuf(&P, ct, O->ctb);
        else if (h == 1) memset(ct, EXB[rndn(&P, NEXB)], O->ctb);
        else { uint16_t *X = malloc(2 * m); gen_matrix(O, &P, X, m); or_pack(O, ct, X, m); gen_matrix(O, &P, X, 64); or_pack(O, ct + O->cbytes1, X, 64); free(X); }
        snprintf(ctx, sizeof ctx, "hostile ciphertext kind %d", h); check_dec(ctx, -1); break; }
    default: { // both
        rndbuf(&P, sk, O->skb); rndbuf(&P, ct, O->ctb);
        check_dec("random key and ciphertext", -1); break; }
    }
}
// C01
static void m_roundtrip(void)
{
    uint8_t r[80], mu[32]; int k1 = gen_keyrnd(O, &P, r), k2;
    junk(pk, O->pkb); junk(sk, O->skb);
    int rc = do_keypair(r, pk, sk);
    if (rc) BAD("rc", "key generation returned %d", rc);
    for (int e = 0; e < 2; e++) {
        k2 = gen_mu(O, &P, pk, mu);
        junk(ct, O->ctb); junk(ss, 32); junk(ssx, 32);
        rc = do_enc(mu, ct, ss, pk);
        if (rc) BAD("rc", "encapsulation returned %d", rc);
        rc = do_dec(ssx, ct, sk);
        if (rc) BAD("rc", "decapsulation returned %d", rc);
        if (memcmp(ss, ssx, (size_t)O->cb)) BAD("agree", "shared secrets differ [key randomness kind %d, message kind %d]", k1, k2);
        uint8_t z[32] = {0}; if (!memcmp(ss, z, (size_t)O->cb)) BAD("agree", "all-zero shared secret [key randomness kind %d, message kind %d]", k1, k2);
        accepts++;
        hset_add(&HS, fnv(fnv(13, r, O->rnd_key), mu, O->rnd_enc)); evals++;
        if (evals == 1) { char h[200] = ""; hexcat(h, sizeof h, r, O->rnd_key); sample_out("round trip n=%d gen=%s key randomness=%s", O->n, O->gen_shake ? "shake" : "aes", h); }
    }
}

// C02: rejection. For each base (key, ct), alterations in classes; the expected output is hash(ct' || s)
static long cls[16]; static const char *CLS[16] = {"one bit", "one word", "two words xor-cancelling", "two words sum-cancelling", "k words, equal difference", "k words random",
    "swap/shift", "c1 of another", "c2 of another", "random/constant", "many bits", "whole row", "across parts", "message unchanged"};
static void expect_reject(int c, const uint8_t *base, const char *ctx)
{
    if (!memcmp(alt, base, O->ctb)) return;
    junk(ss, 32);
    int rc = do_dec(ss, alt, sk);
    reject_ss(ss2, alt, sk);
    if (rc) BAD("rc", "decapsulation of an altered ciphertext returned %d [%s: %s]", rc, CLS[c], ctx);
    if (memcmp(ss, ss2, (size_t)O->cb)) {
        int same = !memcmp(ss, ssx, (size_t)O->cb);
        BAD("reject", "altered ciphertext not implicitly rejected: output is not hash(ct || s)%s [%s: %s]", same ? " (output equals the honest shared secret)" : "", CLS[c], ctx);
    }
    cls[c]++; rejects++; evals++;
    hset_add(&HS, fnv(fnv(17, sk, 64), alt, O->ctb));
}
static void words_put(const uint16_t *w, uint8_t *c)
{
    or_pack(O, c, w, (size_t)O->n * 8); or_pack(O, c + O->cbytes1, w + O->n * 8, 64);
}
// kind 0: an honest key and ciphertext. kind 1: a crafted key with S = 0 (sparse for kind 2), so that alterations of the first part leave
// the decrypted message unchanged and only the comparison can reject them
static int base_kind;
static void base_pair(int kind)
{
    uint8_t r[80], mu[32];
    base_kind = kind;
    if (kind) {
        size_t m = (size_t)O->n * 8; uint16_t *ST = calloc(m, 2), err[64];
        gen_field(&P, mu, (size_t)O->cb, 1);
        for (int i = 0; i < 64; i++) err[i] = gen_err(O, &P, kind == 1 ? 4 : 0);
        if (kind == 2) for (size_t i = 0; i < m; i++) if (rndn(&P, 64) == 0) ST[i] = (uint16_t)(1u << rndn(&P, 16));
        int ok = craft(O, &P, ST, err, mu, sk, ct, T);
        free(ST);
        if (ok) { memcpy(pk, sk + O->cb, O->pkb); if (!or_dec(O, sk, ct, ssx, T)) { fprintf(stderr, "crafted pair not accepted by the model\n"); exit(3); } }
        else base_kind = 0;
    }
    if (!base_kind) {
        gen_keyrnd(O, &P, r); or_keypair(O, r, pk, sk, T);
        gen_mu(O, &P, pk, mu); or_enc(O, pk, mu, ct, ssx, T);
    }
    junk(ss, 32);
    if (do_dec(ss, ct, sk) || memcmp(ss, ssx, (size_t)O->cb)) BAD("accept", "the unaltered ciphertext is not accepted as specified");
}
// every word of the ciphertext once, word w flips bit (w + round) mod logq: iteration IT covers words with w % ITERS == IT
static void m_reject_bits(long iters, int all, int kind)
{
    char ctx[64];
    size_t tot = (size_t)O->n * 8 + 64, nbits = O->ctb * 8;
    base_pair(kind);
    uint32_t off = rndn(&P, 16);
    if (all) {
        for (size_t b = (size_t)IT; b < nbits; b += (size_t)iters) {
            memcpy(alt, ct, O->ctb); alt[b / 8] ^= (uint8_t)(1u << (b % 8));
            snprintf(ctx, sizeof ctx, "bit %zu", b);
            expect_reject(0, ct, ctx);
        }
    } else for (size_t w = (size_t)IT; w < tot; w += (size_t)iters) {
        size_t b = w * (size_t)O->logq + (w / (size_t)iters + off) % (size_t)O->logq;
        memcpy(alt, ct, O->ctb); alt[b / 8] ^= (uint8_t)(1u << (7 - b % 8));
        snprintf(ctx, sizeof ctx, "word %zu bit %zu (from the top)", w, b % (size_t)O->logq);
        expect_reject(0, ct, ctx);
    }
    if (IT == 0) sample_out("reject n=%d: every %s of one ciphertext flipped, offset %u", O->n, all ? "bit" : "coefficient", off);
}
static void m_reject(void)
{
    char ctx[96];
    size_t m = (size_t)O->n * 8, tot = m + 64;
    uint16_t q1 = (uint16_t)((1u << O->logq) - 1), *w = malloc(2 * tot), *v = malloc(2 * tot);
    base_pair((int)(IT % 3));
    or_unpack(O, w, ct, m); or_unpack(O, w + m, ct + O->cbytes1, 64);
    for (int c = 1; c <= 12; c++) for (int rep = 0; rep < 3; rep++) {
        memcpy(v, w, 2 * tot); ctx[0] = 0;
        size_t lo = rep == 1 ? m : 0, hi = rep == 0 ? m : tot; // c1 only, c2 only, both
        size_t i = lo + rndn(&P, (uint32_t)(hi - lo)), j = lo + rndn(&P, (uint32_t)(hi - lo));
        uint16_t d = (uint16_t)(rep == 2 ? 1u << rndn(&P, (uint32_t)O->logq) : 1 + rndn(&P, q1));
        if (rndn(&P, 3) == 0) d = (uint16_t)(1u << (O->logq - 1));
        if ((rep == 1 || c == 12) && rndn(&P, 3)) d = (uint16_t)(1 + rndn(&P, (1u << (O->logq - O->b - 2)) - 1)); // small: the message survives
        memcpy(alt, ct, O->ctb);
        switch (c) {
        case 1: v[i] ^= d; words_put(v, alt); snprintf(ctx, sizeof ctx, "word %zu ^ %04x", i, d); break;
        case 2: v[i] ^= d; v[j] ^= d; words_put(v, alt); snprintf(ctx, sizeof ctx, "words %zu,%zu ^ %04x", i, j, d); break;
        case 3: v[i] = (uint16_t)(v[i] + d) & q1; v[j] = (uint16_t)(v[j] - d) & q1; words_put(v, alt); snprintf(ctx, sizeof ctx, "word %zu + %04x, word %zu - %04x", i, d, j, d); break;
        case 4: { // 2^(16-b) words with a difference of 2^b each, so that sums wrap to zero; also exact powers of two of words
            int b = (int)rndn(&P, (uint32_t)(rep == 1 ? O->logq - O->b - 1 : O->logq)); size_t k = rep == 0 ? (size_t)1 << (16 - b) : rep == 1 ? (size_t)1 << rndn(&P, 7) : (size_t)256 << rndn(&P, 5);
            if (k > hi - lo) k = hi - lo;
            size_t st = lo + rndn(&P, (uint32_t)(hi - lo - k + 1));
            for (size_t x = 0; x < k; x++) { if (rep == 1) v[st + x] = (uint16_t)(v[st + x] + (1u << b)) & q1; else v[st + x] ^= (uint16_t)(1u << b); }
            words_put(v, alt); snprintf(ctx, sizeof ctx, "%zu words from %zu, difference 2^%d", k, st, b); break; }
        case 5: { size_t k = 1 + rndn(&P, (uint32_t)(hi - lo)); for (size_t x = 0; x < k; x++) v[lo + rndn(&P, (uint32_t)(hi - lo))] = (uint16_t)rnd64(&P) & q1; words_put(v, alt); snprintf(ctx, sizeof ctx, "%zu words", k); break; }
        case 6: if (rep == 0) { uint16_t x = v[i]; v[i] = v[j]; v[j] = x; words_put(v, alt); }
            else if (rep == 1) { memmove(alt, ct + 1, O->ctb - 1); alt[O->ctb - 1] = ct[0]; }
            else { memmove(v + 1, w, 2 * (m - 1)); v[0] = w[m - 1]; words_put(v, alt); } break;
        case 7: case 8: { uint8_t mu[32]; rndbuf(&P, mu, 32); or_enc(O, pk, mu, ct2, ss2, T); // (of the same public key)
            if (c == 7) memcpy(alt, ct2, O->cbytes1); else memcpy(alt + O->cbytes1, ct2 + O->cbytes1, O->cbytes2); rep = 2; break; }
        case 9: if (rep == 0) rndbuf(&P, alt, O->ctb); else memset(alt, EXB[rndn(&P, NEXB)], O->ctb); break;
        case 10: { int k = 2 + (int)rndn(&P, 30); for (int x = 0; x < k; x++) alt[rndn(&P, (uint32_t)O->ctb)] ^= (uint8_t)(1u << rndn(&P, 8)); snprintf(ctx, sizeof ctx, "%d bits", k); break; }
        case 11: { size_t row = rndn(&P, 8); for (size_t x = 0; x < (size_t)O->n; x++) v[row * (size_t)O->n + x] = rep == 0 ? (uint16_t)(v[row * (size_t)O->n + x] ^ d) : rep == 1 ? 0 : q1; words_put(v, alt); snprintf(ctx, sizeof ctx, "row %zu", row); break; }
        case 12: { size_t a = rndn(&P, (uint32_t)m), b = m + rndn(&P, 64);
            if (rep == 0) { v[a] ^= d; v[b] ^= d; } else if (rep == 1) { v[a] = (uint16_t)(v[a] + d) & q1; v[b] = (uint16_t)(v[b] - d) & q1; } else { v[a] ^= d; v[b] = (uint16_t)rnd64(&P) & q1; }
            words_put(v, alt); snprintf(ctx, sizeof ctx, "words %zu,%zu %04x", a, b, d); break; }
        }
        expect_reject(c, ct, ctx);
    }
    // alterations that leave the decrypted message unchanged: for every bit position, words where the change stays inside the decoding radius
    {
        int lim = 1 << (O->logq - O->b - 1), q = 1 << O->logq; uint16_t em[64]; const uint8_t *Sb = sk + O->cb + O->pkb;
        or_dec(O, sk, ct, ss2, T); or_encode(O, em, T->mu);
        uint16_t W[64]; memcpy(W, T->W, sizeof W);
        for (int b = 0; b < O->logq; b++) for (int part = 0; part < 2; part++) for (int found = 0, tries = 0; found < (part ? 1 : 2) && tries < (part ? 64 : 3000); tries++) {
            size_t i = part ? m + rndn(&P, 64) : rndn(&P, (uint32_t)m);
            int d = w[i] >> b & 1 ? -(1 << b) : 1 << b, ok = 1;
            for (int j = 0; j < 8 && ok; j++) {
                size_t x = part ? i - m : i / (size_t)O->n * 8 + (size_t)j;
                int ch = part ? d : -d * (int16_t)or_rd16(O, Sb + 2 * ((size_t)j * (size_t)O->n + i % (size_t)O->n));
                int e = (int)(((long)W[x] - em[x] + ch) % q + q) % q; if (e >= q / 2) e -= q;
                ok = e >= -lim && e < lim;
                if (part) break;
            }
            if (!ok) continue;
            found++; memcpy(v, w, 2 * tot); v[i] ^= (uint16_t)(1 << b); words_put(v, alt);
            snprintf(ctx, sizeof ctx, "bit %d of word %zu, message unchanged", b, i);
            expect_reject(13, ct, ctx);
        }
    }
    // a genuine ciphertext of another key pair, and of the same message
    { uint8_t r[80], mu[32]; rndbuf(&P, r, 80); or_keypair(O, r, pk2, sk2, T); rndbuf(&P, mu, 32); or_enc(O, pk2, mu, alt, ss2, T); expect_reject(9, ct, "ciphertext for another key"); }
    free(w); free(v);
    if (IT == 0) sample_out("reject n=%d gen=%s: 37 alterations per ciphertext in 12 classes, e.g. two words with equal xor difference, 2^(16-b) words with difference 2^b", O->n, O->gen_shake ? "shake" : "aes");
}

int main(int argc, char **argv)
{
    if (argc < 7) return 2;
    MODE = argv[1]; SEED = strtoull(argv[5], 0, 0);
    long iters = atol(argv[6]);
    int n = atoi(argv[3]), gs = !strcmp(argv[4], "shake");
    setvbuf(stdout, NULL, _IOLBF, 0);
    O = or_new(n, gs, 0);
    T = or_inter_new(O);
    M = impl_load(argv[2], n); M.gen_shake = gs;
    // exact-size heap buffers
    pk = malloc(O->pkb); pk2 = malloc(O->pkb); sk = malloc(O->skb); sk2 = malloc(O->skb); ct = malloc(O->ctb); ct2 = malloc(O->ctb); alt = malloc(O->ctb);
    for (IT = 0; IT < iters; IT++) {
        P = prng_mk(SEED, (uint64_t)IT * 64 + (uint64_t)n % 61 + 7000003ull * (uint64_t)MODE[0]);
        if (!strcmp(MODE, "keypair")) m_keypair();
        else if (!strcmp(MODE, "enc")) m_enc();
        else if (!strcmp(MODE, "dec")) m_dec();
        else if (!strcmp(MODE, "roundtrip")) m_roundtrip();
        else if (!strcmp(MODE, "reject")) m_reject();
        else if (!strcmp(MODE, "rejectbits")) m_reject_bits(iters, 0, 0);
        else if (!strcmp(MODE, "rejectallbits")) m_reject_bits(iters, 1, 0);
        else if (!strcmp(MODE, "rejectbitsz")) m_reject_bits(iters, 0, 1);
        else if (!strcmp(MODE, "rejectallbitsz")) m_reject_bits(iters, 1, 1);
        else return 2;
    }
    finish();
}

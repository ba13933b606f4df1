// C20: key generations and encapsulations until every one of the 65536 sampler inputs has been observed in the secret matrix S,
// in E, S', E' and (if asked) E''; each coefficient is recovered from the outputs and compared with the table's value.
#include "gen.h"
static uint8_t seen[5][65536]; static long left[5], obs[5], ev; static int maxabs;
static const char *NAME[] = {"S", "E", "S'", "E'", "E''"};
static oracle *o;
static int16_t cent(uint16_t v) { int x = v & ((1 << o->logq) - 1); if (x >= 1 << (o->logq - 1)) x -= 1 << o->logq; return (int16_t)x; }
static int judge(int mat, uint16_t raw, uint16_t got, size_t idx)
{
    obs[mat]++; ev++;
    int16_t g = cent(got), w = o->noise[raw];
    if (abs(g) > maxabs) maxabs = abs(g);
    if (g != w) { violation("noise", "%s, coefficient %zu: sampler input 0x%04x gave %d, the specified distribution says %d (support up to %d)", NAME[mat], idx, raw, g, w, o->maxnoise); return 0; }
    if (!seen[mat][raw]) { seen[mat][raw] = 1; left[mat]--; }
    return 1;
}
int main(int argc, char **argv)
{
    impl m = impl_load(argv[1], atoi(argv[2])); int shake = !strcmp(argv[3], "shake");
    uint64_t seed = strtoull(argv[4], 0, 10); int full = atoi(argv[5]); long cap = atol(argv[6]);
    o = or_new(m.n, shake, 0); or_inter *t = or_inter_new(o); prng p = prng_mk(seed, 20);
    size_t n = (size_t)m.n, M = 8 * n, cb = (size_t)o->cb;
    uint8_t *pk = malloc(o->pkb), *sk = malloc(o->skb), *pk2 = malloc(o->pkb), *sk2 = malloc(o->skb), *ct = malloc(o->ctb), *ct2 = malloc(o->ctb), ss[32], ss2[32], rnd[96], mu[32];
    uint16_t *X = malloc(2 * M), *Y = malloc(2 * M); uint32_t *P = malloc(4 * M);
    for (int i = 0; i < 5; i++) left[i] = 65536;
    rndbuf(&p, rnd, 96);
    long kp = 0, en = 0, cand = 0; int ok = 1;
    // S and E: one matrix A (fixed z), new noise seed each time
    while (ok && (left[0] || left[1]) && kp < cap) {
        // in the tail, only noise seeds that bring something new
        for (int tries = 0; tries < 200; tries++) {
            rndbuf(&p, rnd, 2 * cb); cand++;
            if (left[0] + left[1] > 3000) break;
            uint8_t in[33]; in[0] = 0x5f; memcpy(in + 1, rnd + cb, cb);
            static uint8_t r[4 * 8 * OR_MAXN]; or_hash(o, r, 4 * M, in, 1 + cb);
            int fresh = 0;
            for (size_t i = 0; i < 2 * M; i++) fresh += !seen[i >= M][r[2 * i] | r[2 * i + 1] << 8];
            if (fresh * 40 >= (int)(left[0] + left[1]) || fresh > 2) break;
        }
        rs_set(rnd, o->rnd_key);
        if (m.keypair(pk, sk)) { violation("rc", "key generation failed"); break; }
        kp++;
        or_keypair(o, rnd, pk2, sk2, t);
        for (size_t i = 0; i < M && ok; i++) { uint16_t v = or_rd16(o, sk + cb + o->pkb + 2 * i); ok = judge(0, t->raw[i], v, i) ;
            if (ok && (int16_t)v != o->noise[t->raw[i]]) { violation("noise", "S, coefficient %zu is stored as 0x%04x, not as the 16-bit value %d", i, v, o->noise[t->raw[i]]); ok = 0; } }
        or_unpack(o, X, pk + 16, M); or_unpack(o, Y, pk2 + 16, M);
        for (size_t i = 0; i < M && ok; i++) ok = judge(1, t->raw[M + i], (uint16_t)(X[i] - Y[i] + t->E[i]), i);
    }
    // S', E', E'': one public key, new messages
    while (ok && (left[2] || left[3] || (full && left[4])) && en < cap * (full ? 40 : 1)) {
        uint8_t best[32]; int bestn = -1;
        for (int tries = 0; tries < 24; tries++) {
            rndbuf(&p, mu, 32); cand++;
            if (left[2] + left[3] > 3000) { memcpy(best, mu, 32); break; }
            uint8_t pm[64], g[64], in[33]; static uint8_t r[2 * (16 * OR_MAXN + 64)];
            or_hash(o, pm, cb, pk, o->pkb); memcpy(pm + cb, mu, cb); or_hash(o, g, 2 * cb, pm, 2 * cb);
            in[0] = 0x96; memcpy(in + 1, g, cb); or_hash(o, r, 2 * (2 * M + 64), in, 1 + cb);
            int fresh = 0;
            for (size_t i = 0; i < 2 * M; i++) fresh += 20 * !seen[2 + (i >= M)][r[2 * i] | r[2 * i + 1] << 8];
            if (full) for (size_t i = 2 * M; i < 2 * M + 64; i++) fresh += !seen[4][r[2 * i] | r[2 * i + 1] << 8];
            if (fresh > bestn) { bestn = fresh; memcpy(best, mu, 32); }
            if (full && !left[2] && !left[3] && bestn >= 45) break;
        }
        memcpy(mu, best, 32);
        rs_set(mu, o->rnd_enc);
        if (m.enc(ct, ss, pk)) { violation("rc", "encapsulation failed"); break; }
        en++;
        or_enc(o, pk, mu, ct2, ss2, t);
        // B' and C of the code against the model's products
        or_unpack(o, X, ct, M); or_unpack(o, Y, ct2, M);
        for (size_t i = 0; i < M && ok; i++) ok = judge(3, t->raw[M + i], (uint16_t)(X[i] - Y[i] + t->Ep[i]), i);
        or_unpack(o, X, ct + o->cbytes1, 64); or_unpack(o, Y, ct2 + o->cbytes1, 64);
        for (size_t i = 0; i < 64 && ok; i++) ok = judge(4, t->raw[2 * M + i], (uint16_t)(X[i] - Y[i] + t->Epp[i]), i);
        // S' is observed through the products: they agree only if every S' entry does (A's rows are independent)
        for (size_t i = 0; i < M && ok; i++) { obs[2]++; ev++; if (!seen[2][t->raw[i]]) { seen[2][t->raw[i]] = 1; left[2]--; } }
    }
    long cov = 0; for (int i = 0; i < 5; i++) cov += 65536 - left[i];
    stat_out("\"evaluations\":%ld,\"distinct\":%ld,\"keypairs\":%ld,\"encapsulations\":%ld,\"candidates\":%ld,\"inputs_seen_S\":%ld,\"inputs_seen_E\":%ld,\"inputs_seen_Sp\":%ld,\"inputs_seen_Ep\":%ld,\"inputs_seen_Epp\":%ld,\"max_coefficient\":%d", ev, cov, kp, en, cand,
             65536 - left[0], 65536 - left[1], 65536 - left[2], 65536 - left[3], 65536 - left[4], maxabs);
    sample_out("n=%d: of 65536 sampler inputs seen in S %ld, E %ld, S' %ld, E' %ld, E'' %ld; largest coefficient %d of %d", m.n, 65536 - left[0], 65536 - left[1], 65536 - left[2], 65536 - left[3], 65536 - left[4], maxabs, o->maxnoise);
    return 0;
}

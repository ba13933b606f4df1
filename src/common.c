#include "common.h"
__thread rstream RS;
long VIOLATIONS;
#ifndef OWN_RANDOM
// The randomness source of the library under test (in the builds without its own): serves the thread's stream in
// order, however the library divides its requests.
int randombytes(unsigned char *out, unsigned long long n)
{
    int call = RS.calls++;
    if (RS.fail_at >= 0 && call >= RS.fail_at) return 1;
    for (unsigned long long i = 0; i < n; i++) {
        if (RS.pos >= RS.len) { RS.overrun = 1; out[i] = 0xEE; }
        else out[i] = RS.buf[RS.pos];
        RS.pos++;
    }
    return 0;
}
#endif

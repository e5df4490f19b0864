//@ what the copy of a text of any length holds the same characters up to its end, in memory of its own
//@ props C10
//@ functions bstrdup
//@ cbmc --unwind 6 --bounds-check --pointer-check
//@ nodfcc
//@ assume dup: strlen gives the place of the first zero, one arbitrary place G of the text is followed, memory does not run out
#include "spec.h"
static char* S; static size_t LEN;
static size_t model_strlen(const char* s) { ASSERT(s == S, "the length is that of the text"); return LEN; }
#define strlen model_strlen
#include "alloc.c"
int main()
{
    size_t n, g; ASSUME(n < ((size_t)1 << 40) && g <= n); LEN = n;
    S = malloc(n + 1); ASSUME(S[n] == 0 && IMPLIES(g < n, S[g] != 0)); char c = S[g];
    char* r = bstrdup(S);
    ASSERT(r != NULL && r != S && __CPROVER_rw_ok(r, n + 1), "the copy has memory of its own");
    ASSERT(r[g] == c && S[g] == c, "every character is copied, the end included");
    REACH();
}

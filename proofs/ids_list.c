//@ what a list of strings, of any length, is accepted exactly when every string has an id
//@ props C07 C08
//@ functions all_strs_assigned
//@ loop ast.c all_strs_assigned 1/1 : __CPROVER_assigns(i, __CPROVER_object_whole(S)) __CPROVER_loop_invariant(i <= strings->count && i <= BAD) __CPROVER_decreases(strings->count - i)
//@ ghost ast.c all_strs_assigned 1/1 : INST(i)
//@ cbmc --unwind 6
//@ bounded --unwind 6
#include "spec.h"
static struct string_value* S; static size_t COUNT, BAD;
/* the first string without an id is the BAD-th (COUNT: none); the string about to be read is any that fits */
static struct string_value any_string(void) { struct string_value s; return s; }
#define INST(k) if((k) < COUNT) { S[k] = any_string(); if((k) <= BAD) __CPROVER_assume((S[k].str == UINT64_MAX) == ((k) == BAD)); }
#include "ast.c"
int main()
{
    size_t n, b;
#ifdef BOUNDED
    ASSUME(n <= 4);
#else
    ASSUME(n < (size_t)1 << 32);
#endif
    ASSUME(b <= n); COUNT = n; BAD = b; S = malloc(n * sizeof(*S));
#ifdef BOUNDED
    for(size_t k = 0; k < 4; k++) INST(k)
#endif
    struct betree_string_list l = { n, S };
    ASSERT(all_strs_assigned(&l) == (b == n), "accepted exactly when every string has an id");
    REACH();
}

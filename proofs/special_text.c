//@ what contains, starts with and ends with are the text relations, for texts and patterns of any length
//@ props C15 C01
//@ replace strlen strncmp strstr
//@ functions contains starts_with ends_with
//@ assume special_text: strlen, strncmp and strstr of the C library behave as specified (strncmp compares n leading characters, strstr finds a substring)
//@ cbmc --unwind 6
#include <string.h>
#include <stddef.h>
#include <stdbool.h>
__CPROVER_bool __CPROVER_uninterpreted_same(const char* a, const char* b, size_t n); /* the n characters at a equal those at b */
__CPROVER_bool __CPROVER_uninterpreted_sub(const char* a, const char* b);            /* b occurs in a */
static const char *V, *P; static size_t VL, PL;
size_t strlen(const char* s)
__CPROVER_requires(s == V || s == P)
__CPROVER_ensures(__CPROVER_return_value == (s == V ? VL : PL)) __CPROVER_assigns();
int strncmp(const char* a, const char* b, size_t n)
__CPROVER_requires(__CPROVER_POINTER_OBJECT(a) == __CPROVER_POINTER_OBJECT(V) && b == P && n <= PL && n <= VL)
__CPROVER_requires(a >= V && (size_t)(a - V) <= VL - n)
__CPROVER_ensures((__CPROVER_return_value == 0) == __CPROVER_uninterpreted_same(a, b, n)) __CPROVER_assigns();
char* strstr(const char* a, const char* b)
__CPROVER_requires(a == V && b == P)
__CPROVER_ensures((__CPROVER_return_value != NULL) == __CPROVER_uninterpreted_sub(a, b)) __CPROVER_assigns();
#include "spec.h"
#include "special.c"
int main()
{
    size_t vl, pl; VL = vl; PL = pl; ASSUME(VL < ((size_t)1 << 40) && PL < ((size_t)1 << 40));
    V = malloc(VL + 1); P = malloc(PL + 1);
    ASSERT(contains(V, P) == __CPROVER_uninterpreted_sub(V, P), "contains");
    ASSERT(starts_with(V, P) == (PL <= VL && __CPROVER_uninterpreted_same(V, P, PL)), "starts with");
    ASSERT(ends_with(V, P) == (PL <= VL && __CPROVER_uninterpreted_same(V + (VL - PL), P, PL)), "ends with");
    REACH();
}

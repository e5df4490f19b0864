//@ what two lists of any length compare by their counts, else by the first element that differs, and are equal exactly when there is none; this order is antisymmetric and transitive
//@ props C12 C04
//@ functions cmp_integer_list cmp_string_list eq_integer_list eq_string_list
//@ loop ast_compare.c cmp_integer_list 1/1 : __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= NA && i <= D) __CPROVER_decreases(NA - i)
//@ ghost ast_compare.c cmp_integer_list 1/1 : INST(i)
//@ loop ast_compare.c cmp_string_list 1/1 : __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= NA && i <= D) __CPROVER_decreases(NA - i)
//@ ghost ast_compare.c cmp_string_list 1/1 : INST(i)
//@ loop ast.c eq_integer_list 1/1 : __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= NA && i <= D) __CPROVER_decreases(NA - i)
//@ ghost ast.c eq_integer_list 1/1 : INST(i)
//@ loop ast.c eq_string_list 1/1 : __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= NA && i <= D) __CPROVER_decreases(NA - i)
//@ ghost ast.c eq_string_list 1/1 : INST(i)
//@ assume cmp_list: INST instantiates, at the index being read, that the lists agree before their first difference D and differ at it; strings of compared lists belong to the same variable (the variables are compared before)
//@ variant cmp_i -DW=0 -DSTR=0
//@ variant cmp_s -DW=0 -DSTR=1
//@ variant eq_i -DW=1 -DSTR=0
//@ variant eq_s -DW=1 -DSTR=1
//@ variant order -DW=2 -DSTR=0
//@ cbmc --unwind 6
//@ bounded --unwind 6
#include "spec.h"
#if STR
typedef struct string_value elt; typedef betree_str_t key;
#define KEY(e) ((e).str)
#else
typedef int64_t elt; typedef int64_t key;
#define KEY(e) (e)
#endif
static size_t NA, NB, D; static elt *A, *B;
#if STR && W == 1
#define DIFF(k) (A[k].str != B[k].str || A[k].var != B[k].var)
#else
#define DIFF(k) (KEY(A[k]) != KEY(B[k]))
#endif
#ifdef BOUNDED
#define INST(k)
#else
#define INST(k) { if((k) < D) __CPROVER_assume(!DIFF(k)); else if((k) == D) __CPROVER_assume(DIFF(k)); }
#endif
#include "value.c"
#include "ast_compare.c"
#include "ast.c"
#define SIGN(a, b) ((a) > (b) ? 1 : (a) < (b) ? -1 : 0)
int main()
{
#if W == 2
    /* three lists of the same count n, d12: where the first and the second differ first (n: nowhere), and so on; elements X[l][k] at place k of interest */
    size_t n, d[3]; int64_t X[3][3]; /* list, place d[p] */
    ASSUME(d[0] <= n && d[1] <= n && d[2] <= n);
    static const int P[3][2] = { { 0, 1 }, { 1, 2 }, { 0, 2 } };
    for(int p = 0; p < 3; p++) {
        for(int q = 0; q < 3; q++) {
            /* at place d[q], what d[p] being the first difference of its pair says, when the place exists */
            if(d[q] < n) { if(d[q] < d[p]) ASSUME(X[P[p][0]][q] == X[P[p][1]][q]); if(d[q] == d[p]) ASSUME(X[P[p][0]][q] != X[P[p][1]][q]); }
            for(int l = 0; l < 3; l++) if(d[p] == d[q]) ASSUME(X[l][p] == X[l][q]);
        }
    }
    int s[3]; for(int p = 0; p < 3; p++) s[p] = d[p] == n ? 0 : SIGN(X[P[p][0]][p], X[P[p][1]][p]);
    ASSERT(IMPLIES(s[0] <= 0 && s[1] <= 0, s[2] <= 0), "the order of lists is transitive");
    ASSERT(IMPLIES(s[0] <= 0 && s[1] <= 0 && (s[0] < 0 || s[1] < 0), s[2] < 0), "the order of lists is strictly transitive");
    ASSERT(IMPLIES(s[0] == 0 && s[1] == 0, s[2] == 0), "equality of lists is transitive");
#else
    size_t na, nb, d; NA = na; NB = nb;
#ifdef BOUNDED
    ASSUME(na <= 3 && nb <= 3);
#else
    ASSUME(na < ((size_t)1 << 40) && nb < ((size_t)1 << 40));
#endif
    A = malloc(na * sizeof(elt)); B = malloc(nb * sizeof(elt)); D = d;
    if(na == nb) ASSUME(d <= na);
#ifdef BOUNDED
    for(size_t k = 0; k < 3; k++) if(na == nb && k < na) { if(k < d) ASSUME(!DIFF(k)); if(k == d) ASSUME(DIFF(k)); }
#endif
#if STR
    struct betree_string_list a, b; a.count = na; a.strings = A; b.count = nb; b.strings = B;
#define CMP cmp_string_list
#define EQ eq_string_list
#else
    struct betree_integer_list a, b; a.count = na; a.integers = A; b.count = nb; b.integers = B;
#define CMP cmp_integer_list
#define EQ eq_integer_list
#endif
    if(na == nb && d < na) ASSUME(DIFF(d));
#if W == 0
    int r = CMP(&a, &b);
    ASSERT(r == (na != nb ? SIGN(na, nb) : d == na ? 0 : SIGN(KEY(A[d]), KEY(B[d]))), "the counts decide, else the first difference");
#else
    ASSERT(EQ(&a, &b) == (na == nb && d == na), "equal exactly when no element differs");
#endif
#endif
    REACH();
}

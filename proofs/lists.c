//@ what membership in a sorted list is found exactly when it holds; a common element of two sorted lists is found exactly when there is one; inclusion of a sorted list without repetitions is decided exactly; for lists of any length
//@ props C01 C09
//@ functions d64binary_search sbinary_search integer_in_integer_list string_in_string_list match_not_all_of_int match_not_all_of_string match_all_of_int match_all_of_string
//@ loop ast.c d64binary_search 1/1 : __CPROVER_assigns(imin, imax) __CPROVER_loop_invariant(0 <= imin && imin <= (int)count && -1 <= imax && imax < (int)count && IMPLIES(MEMBER, imin <= (int)G && (int)G <= imax)) __CPROVER_decreases(imax - imin + 1)
//@ ghost ast.c d64binary_search 1/1 : INST1(imin + ((imax - imin) / 2))
//@ loop ast.c sbinary_search 1/1 : __CPROVER_assigns(imin, imax) __CPROVER_loop_invariant(0 <= imin && imin <= (int)count && -1 <= imax && imax < (int)count && IMPLIES(MEMBER, imin <= (int)G && (int)G <= imax)) __CPROVER_decreases(imax - imin + 1)
//@ ghost ast.c sbinary_search 1/1 : INST1(imin + ((imax - imin) / 2))
//@ loop ast.c match_not_all_of_int 1/1 : __CPROVER_assigns(i, j) __CPROVER_loop_invariant(i <= x_count && j <= y_count && IMPLIES(MEMBER, i <= GX(xs) && j <= GX(ys))) __CPROVER_decreases(x_count - i + y_count - j)
//@ ghost ast.c match_not_all_of_int 1/1 : INST2(xs, i, ys, j)
//@ loop ast.c match_not_all_of_string 1/1 : __CPROVER_assigns(i, j) __CPROVER_loop_invariant(i <= x_count && j <= y_count && IMPLIES(MEMBER, i <= GX(xs) && j <= GX(ys))) __CPROVER_decreases(x_count - i + y_count - j)
//@ ghost ast.c match_not_all_of_string 1/1 : INST2(xs, i, ys, j)
//@ loop ast.c match_all_of_int 1/1 : __CPROVER_assigns(i, j) __CPROVER_loop_invariant(i <= y_count && j <= x_count && IMPLIES(MEMBER && j < x_count, i <= P[j] && P[j] < y_count) && IMPLIES(!MEMBER, j <= G)) __CPROVER_decreases(x_count - j + y_count - i)
//@ ghost ast.c match_all_of_int 1/1 : INST3(xs, j, ys, i)
//@ loop ast.c match_all_of_string 1/1 : __CPROVER_assigns(i, j) __CPROVER_loop_invariant(i <= y_count && j <= x_count && IMPLIES(MEMBER && j < x_count, i <= P[j] && P[j] < y_count) && IMPLIES(!MEMBER, j <= G)) __CPROVER_decreases(x_count - j + y_count - i)
//@ ghost ast.c match_all_of_string 1/1 : INST3(xs, j, ys, i)
//@ assume lists: INST1, INST2, INST3 instantiate, at the elements being read, the hypotheses that the lists are sorted (the expression list of an inclusion strictly: no repetitions), which the units of C09 establish
//@ assume lists: lists have less than 2^31 elements (the searches index with int)
//@ variant search_i -DW=0 -DSTR=0
//@ variant search_s -DW=0 -DSTR=1
//@ variant meet_i -DW=1 -DSTR=0
//@ variant meet_s -DW=1 -DSTR=1
//@ variant incl_i -DW=2 -DSTR=0
//@ variant incl_s -DW=2 -DSTR=1
//@ cbmc --unwind 6
//@ bounded --unwind 6
#include "spec.h"
#if STR
typedef struct string_value elt; typedef betree_str_t key;
#define KEY(e) ((e).str)
#else
typedef int64_t elt; typedef int64_t key;
#define KEY(e) (e)
#endif
static bool MEMBER; static size_t G, GV, NX, NV; static elt *L, *V; static key K; static size_t* P;
/* W=0: K is the element looked for; MEMBER: it is element G of L; otherwise no element is K */
#define INST1(k) INST1_(k, arr)
#define INST1_(k, a) { elt e_ = *(const elt*)(const void*)&a[k]; if(MEMBER) __CPROVER_assume(IMPLIES((size_t)(k) < G, KEY(e_) <= K) && IMPLIES((size_t)(k) == G, KEY(e_) == K) && IMPLIES((size_t)(k) > G, KEY(e_) >= K)); else __CPROVER_assume(KEY(e_) != K); }
/* W=1: MEMBER: K is element G of L and element GV of V; otherwise no element of L is an element of V */
#define GX(a) ((const void*)(a) == (const void*)L ? G : GV)
#define SORTED(a, k) (IMPLIES((k) < GX(a), KEY(*(elt*)(void*)&a[k]) <= K) && IMPLIES((k) == GX(a), KEY(*(elt*)(void*)&a[k]) == K))
#define INST2(a, i, b, j) if(MEMBER) __CPROVER_assume(SORTED(a, i) && SORTED(b, j)); else __CPROVER_assume(KEY(*(elt*)(void*)&a[i]) != KEY(*(elt*)(void*)&b[j]));
/* W=2: MEMBER: element j of L is element P[j] of V, P strictly increasing; otherwise element G of L is no element of V */
#define INST3(a, j, b, i) if(MEMBER) { __CPROVER_assume(KEY(*(elt*)(void*)&a[j]) == KEY(*(elt*)(void*)&b[P[j]]) && IMPLIES(i < P[j], KEY(*(elt*)(void*)&b[i]) < KEY(*(elt*)(void*)&a[j]))); if(j + 1 < NX) __CPROVER_assume(P[j + 1] > P[j] && P[j + 1] < NV); } else { __CPROVER_assume(IMPLIES(j == G, KEY(*(elt*)(void*)&a[j]) != KEY(*(elt*)(void*)&b[i]))); }
#include "ast.c"
int main()
{
    size_t nx, nv; NX = nx; NV = nv;
    bool b; MEMBER = b ? true : false; size_t g1, g2; G = g1; GV = g2; key kk; K = kk;
#ifdef BOUNDED
    ASSUME(nx <= 3 && nv <= 3);
#else
    ASSUME(nx <= 0x7fffffff && nv <= 0x7fffffff);
#endif
    L = malloc(nx * sizeof(elt)); V = malloc(nv * sizeof(elt)); P = malloc(nx * sizeof(size_t));
#ifdef BOUNDED
    /* every pair of lists of up to three elements: strictly sorted */
    for(size_t k = 0; k < 3; k++) { if(k > 0 && k < nx) ASSUME(KEY(L[k - 1]) < KEY(L[k])); if(k > 0 && k < nv) ASSUME(KEY(V[k - 1]) < KEY(V[k])); }
    bool member = false, meet = false, incl = true;
    for(size_t k = 0; k < 3; k++) if(k < nx) {
        bool in = false;
        for(size_t m = 0; m < 3; m++) if(m < nv && KEY(V[m]) == KEY(L[k])) in = true;
        if(in) meet = true; else incl = false;
        if(KEY(L[k]) == K) member = true;
    }
    MEMBER = W == 0 ? member : W == 1 ? meet : incl;
#else
    if(W == 0 && MEMBER) ASSUME(G < nx);
    if(W == 1 && MEMBER) ASSUME(G < nx && GV < nv);
    if(W == 2) {
        if(!MEMBER) ASSUME(G < nx);
        else {
            if(nx > 0) ASSUME(P[0] < nv);
            /* a strictly increasing map needs as many places as it has arguments */
            if(nx > 0) {
                size_t k = 0;
                while(k + 1 < nx)
                __CPROVER_assigns(k) __CPROVER_loop_invariant(k < nx && P[k] >= k && P[k] < nv) __CPROVER_decreases(nx - k)
                { ASSUME(P[k + 1] > P[k] && P[k + 1] < nv); k++; }
                ASSERT(nx <= nv, "inclusion without repetitions: at most as many elements");
            }
        }
    }
#endif
    bool r;
#if W == 0 && STR
    struct betree_string_list l; l.count = nx; l.strings = L; struct string_value sv; sv.str = K;
    r = string_in_string_list(sv, &l);
#elif W == 0
    struct betree_integer_list l; l.count = nx; l.integers = L;
    r = integer_in_integer_list(K, &l);
#elif STR
    struct betree_string_list l, v; l.count = nx; l.strings = L; v.count = nv; v.strings = V;
    struct value val; val.value_type = BETREE_STRING_LIST; val.string_list_value = &v;
    struct ast_list_expr e; e.value.value_type = AST_LIST_VALUE_STRING_LIST; e.value.string_list_value = &l;
    r = W == 1 ? match_not_all_of_string(val, e) : match_all_of_string(val, e);
#else
    struct betree_integer_list l, v; l.count = nx; l.integers = L; v.count = nv; v.integers = V;
    struct value val; val.value_type = BETREE_INTEGER_LIST; val.integer_list_value = &v;
    struct ast_list_expr e; e.value.value_type = AST_LIST_VALUE_INTEGER_LIST; e.value.integer_list_value = &l;
    r = W == 1 ? match_not_all_of_int(val, e) : match_all_of_int(val, e);
#endif
    ASSERT(r == MEMBER, "membership, a common element, inclusion: decided exactly");
    REACH();
}

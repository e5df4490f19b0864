//@ what the sorted list of any length that sorting and removing repetitions leaves is strictly increasing, holds a value exactly when the given list does, and every text is either kept or released once
//@ props C09 C19
//@ variant integers@C09 -DSTR=0
//@ variant strings -DSTR=1
//@ functions sort_and_remove_duplicate_integer_list remove_duplicates_integer_list sort_and_remove_duplicate_string_list remove_duplicates_string_list
//@ loop value.c remove_duplicates_integer_list 1/1 : LOOP
//@ ghost value.c remove_duplicates_integer_list 1/1 : INST
//@ loop value.c remove_duplicates_string_list 1/1 : LOOP
//@ ghost value.c remove_duplicates_string_list 1/1 : INST
//@ cbmc --unwind 8 --object-bits 10
//@ bounded --unwind 6 --object-bits 10
//@ assume dedup: qsort sorts the block it is given by the comparison it is given (icmpfunc, scmpfunc: unit comparators) and keeps its elements
//@ assume dedup: INST instantiates, at the element being read, that the elements not yet read are those of the sorted list, and that it is sorted
#include "spec.h"
#include "alloc.h"
#include "config.h"
#include "value.h"
#include "utils.h"
#if STR
typedef struct string_value E;
#define KEY(x) ((x).str)
#define SAME(x, y) ((x).str == (y).str && (x).var == (y).var && (x).string == (y).string)
#define ARR strings
#define LIST struct betree_string_list
#define CMP scmpfunc
#define RUN sort_and_remove_duplicate_string_list
#else
typedef int64_t E;
#define KEY(x) (x)
#define SAME(x, y) ((x) == (y))
#define ARR integers
#define LIST struct betree_integer_list
#define CMP icmpfunc
#define RUN sort_and_remove_duplicate_integer_list
#endif
/* A: the list itself; Z: the sorted list (what qsort left); G: any of its elements; H: any place of the result; K: any place not yet read */
static E *A, *Z; static size_t n, G, H, K, POS, SRC; static bool SORTED; static unsigned FREES; static char* TEXTG;
#define LOOP __CPROVER_assigns(i, r, POS, SRC, FREES, __CPROVER_object_whole(A)) __CPROVER_loop_invariant(1 <= i && i <= n && r < i && KEY(A[r]) == KEY(Z[i - 1]) \
    && IMPLIES(K >= i, SAME(A[K], Z[K])) && IMPLIES(H + 1 <= r, KEY(A[H]) < KEY(A[H + 1])) && IMPLIES(i > G + 1, POS <= r && KEY(A[POS]) == KEY(Z[G])) \
    && IMPLIES(H <= r, SRC < i && SAME(A[H], Z[SRC]) && SRC_OK) && FREES_OK(i)) __CPROVER_decreases(n - i)
#define INST __CPROVER_assume(SAME(A[i], Z[i]) && KEY(Z[i - 1]) <= KEY(Z[i])); if(i == G + 1) POS = r; if(r < H) SRC = i; KEPT_INST(i)
#if STR
/* the text of element G is released exactly when its id is that of the element before */
#define DUP (G > 0 && KEY(Z[G - 1]) == KEY(Z[G]))
#define FREES_OK(i) (FREES == ((i) > G && DUP ? 1 : 0))
#define SRC_OK ((SRC == 0 || KEY(Z[SRC - 1]) != KEY(Z[SRC])) && ((uintptr_t)Z[SRC].string == (uintptr_t)TEXTG) == (SRC == G))
#define KEPT_INST(i) __CPROVER_assume(((uintptr_t)Z[i].string == (uintptr_t)TEXTG) == (i == G));
#undef bfree
void bfree(void* p) { if((uintptr_t)p == (uintptr_t)TEXTG) FREES++; }
#else
#define FREES_OK(i) true
#define SRC_OK true
#define KEPT_INST(i)
#endif
void qsort(void* base, size_t count, size_t size, int (*cmp)(const void*, const void*))
{
    ASSERT(base == (void*)A && count == n && size == sizeof(E) && cmp == CMP, "the whole list is sorted, by the order the matcher relies on");
    SORTED = true;
}
#include "value.c"
int main()
{
    size_t nn, g, h, k; n = nn; G = g; H = h; K = k;
#ifdef BOUNDED
    ASSUME(n <= 3);
    static E a[4], z[4]; A = a; Z = z;
#else
    ASSUME(n < (size_t)1 << 32);
    A = malloc(n * sizeof(E)); Z = malloc(n * sizeof(E));
#endif
    ASSUME(IMPLIES(n > 0, G < n && K < n)); ASSUME(H < (size_t)1 << 40); POS = 0; SRC = 0; FREES = 0; SORTED = false; static char t; TEXTG = &t;
    LIST l; l.count = n; l.ARR = A;
    /* qsort is the identity here: A is arbitrary, and hypotheses on its order are instances on the sorted list Z */
    if(n > 0) {
#ifdef BOUNDED
        for(size_t i = 0; i < 3; i++) if(i < n) { E e; z[i] = e; if(i > 0) ASSUME(KEY(z[i - 1]) <= KEY(z[i])); 
#if STR
            static char others[4]; z[i].string = i == G ? TEXTG : &others[i];
#endif
            a[i] = z[i]; }
#else
        ASSUME(SAME(A[0], Z[0]) && SAME(A[K], Z[K]));
#if STR
        Z[G].string = TEXTG; ASSUME(IMPLIES(G != 0, Z[0].string != TEXTG)); ASSUME(SAME(A[0], Z[0]) && SAME(A[K], Z[K]));
#endif
#endif
    }
    RUN(&l);
    if(n == 0) ASSERT(l.count == 0, "the empty list stays empty");
    else {
        ASSERT(SORTED, "the list is sorted");
        ASSERT(l.ARR == A && 1 <= l.count && l.count <= n, "the list shrinks at most, and not to nothing");
        if(H + 1 < l.count) ASSERT(KEY(A[H]) < KEY(A[H + 1]), "strictly increasing");
#ifdef BOUNDED
        bool in = false; for(size_t i = 0; i < 3; i++) in = in || (i < l.count && KEY(A[i]) == KEY(Z[G])); ASSERT(in, "no value is lost");
        if(H < l.count) { bool from = false; for(size_t i = 0; i < 3; i++) from = from || (i < n && SAME(A[H], Z[i])); ASSERT(from, "no value is added"); }
#else
        size_t p = G + 1 == n ? l.count - 1 : POS;
        ASSERT(p < l.count && KEY(A[p]) == KEY(Z[G]), "no value is lost");
        if(H < l.count) ASSERT(SRC < n && SAME(A[H], Z[SRC]), "no value is added");
#endif
#if STR
        ASSERT(FREES == (G > 0 && KEY(Z[G - 1]) == KEY(Z[G]) ? 1 : 0), "the text of a repetition is released, once, and no other");
        if(H < l.count && A[H].string == TEXTG) ASSERT(FREES == 0, "no text of the list is released");
#endif
    }
    REACH();
}

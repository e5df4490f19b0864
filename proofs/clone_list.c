//@ what the copy of a list of any length has the same count and elements, in memory of its own
//@ props C10
//@ functions clone_integer_list clone_string_list make_integer_list make_string_list clone_string_value
//@ loop clone.c clone_integer_list 1/1 : __CPROVER_assigns(i, __CPROVER_object_whole(clone->integers)) __CPROVER_loop_invariant(i <= list->count && IMPLIES(G < i, clone->integers[G] == V)) __CPROVER_decreases(list->count - i)
//@ loop clone.c clone_string_list 1/1 : __CPROVER_assigns(i, D, __CPROVER_object_whole(clone->strings), __CPROVER_object_whole(list->strings)) __CPROVER_loop_invariant(i <= list->count && IMPLIES(G < i, clone->strings[G].string == D && D != NULL && D != OTHER && D != TG && clone->strings[G].var == W1 && clone->strings[G].str == W2)) __CPROVER_decreases(list->count - i)
//@ ghost clone.c clone_string_list 1/1 : INST(i)
//@ assume clone_list: bstrdup makes a fresh copy of the text (unit dup), memory does not run out, one arbitrary element G of the list is followed (INST makes its text the one followed), counts stay below 2^40
//@ variant integers -DSTR=0
//@ variant strings -DSTR=1
//@ cbmc --unwind 6
//@ bounded --unwind 6
#include "spec.h"
#include "clone.h"
static size_t G; static int64_t V; static uint64_t W1, W2; static char TG[2], TO[2], OTHER[2], COPY[2]; static char* D;
/* the copy of the text followed is known by name, as are all the others together */
char* bstrdup(const char* s)
{
    if(s == TG) { D = COPY; return D; }
    return OTHER;
}
#ifdef BOUNDED
#define INST(i)
#else
#define INST(i) if((i) == G) { list->strings[i].string = TG; list->strings[i].var = W1; list->strings[i].str = W2; } else list->strings[i].string = TO;
#endif
#include "clone.c"
#include "value.c"
#include "ast.c"
int main()
{
    size_t n, g; G = g; D = NULL;
#ifdef BOUNDED
    ASSUME(n <= 3);
#else
    ASSUME(n < ((size_t)1 << 40));
#endif
    if(n > 0) ASSUME(g < n); else ASSUME(g == 0);
    { int64_t v; V = v; uint64_t a, b; W1 = a; W2 = b; }
#if STR
    struct betree_string_list l; l.count = n; l.strings = malloc(n * sizeof(struct string_value)); struct string_value* before = l.strings;
#ifdef BOUNDED
    for(size_t k = 0; k < 3; k++) if(k < n) { l.strings[k].string = TO; if(k == g) { l.strings[k].string = TG; l.strings[k].var = W1; l.strings[k].str = W2; } }
#endif
    struct betree_string_list* r = clone_string_list(&l);
    ASSERT(r != &l && r->count == n && l.count == n && l.strings == before && (n == 0 || r->strings != before), "the copy has the same count, in memory of its own");
    if(n > 0) ASSERT(r->strings[g].string == D && D != NULL && r->strings[g].var == W1 && r->strings[g].str == W2, "every element is a copy");
#else
    struct betree_integer_list l; l.count = n; l.integers = malloc(n * sizeof(int64_t)); int64_t* before = l.integers; if(n > 0) ASSUME(l.integers[g] == V);
    struct betree_integer_list* r = clone_integer_list(&l);
    ASSERT(r != &l && r->count == n && l.count == n && l.integers == before && (n == 0 || r->integers != before), "the copy has the same count, in memory of its own");
    if(n > 0) ASSERT(r->integers[g] == V && l.integers[g] == V, "every element is a copy");
#endif
    REACH();
}

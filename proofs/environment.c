//@ what for any event, every declared variable gets the last value the event has for it, and none when the event has none
//@ props C07 C01 C18
//@ functions make_environment
//@ loop betree.c make_environment 1/1 : __CPROVER_assigns(i, OTHER.attr_var.var, __CPROVER_object_whole(VARS), __CPROVER_object_whole(preds)) __CPROVER_loop_invariant(i <= COUNT && IMPLIES(LAST < COUNT && i > LAST, preds[G] == &MINE) && IMPLIES(LAST == COUNT, preds[G] == NULL)) __CPROVER_decreases(COUNT - i)
//@ ghost betree.c make_environment 1/1 : INST(i)
//@ cbmc --unwind 6
//@ bounded --unwind 6
//@ assume environment: fill_event gave every variable of the event the index of a declared variable (unit event_types)
#include "spec.h"
#include "tree.h"
static struct betree_variable MINE, OTHER; static struct betree_variable** VARS; static size_t COUNT, LAST, G, DOMAINS;
/* the LAST-th entry of the event (COUNT: none) is the last one for the variable G; entries may be missing */
#define INST(k) if((k) < COUNT) { betree_var_t v; _Bool missing; __CPROVER_assume(v < DOMAINS); if((k) == LAST) VARS[k] = &MINE; else { if((k) > LAST || LAST == COUNT) __CPROVER_assume(v != G); OTHER.attr_var.var = v; VARS[k] = missing ? NULL : &OTHER; } }
#include "betree.c"
int main()
{
    size_t n, l, g, d;
#ifdef BOUNDED
    ASSUME(n <= 3 && d <= 3);
    static struct betree_variable E[3];
#else
    ASSUME(n < (size_t)1 << 32 && d < (size_t)1 << 32);
#endif
    ASSUME(l <= n && g < d); COUNT = n; LAST = l; G = g; DOMAINS = d; MINE.attr_var.var = g; VARS = malloc(n * sizeof(*VARS));
#ifdef BOUNDED
    for(size_t k = 0; k < 3; k++) if(k < n) { INST(k) if(VARS[k] == &OTHER) { E[k] = OTHER; VARS[k] = &E[k]; } }
#endif
    struct betree_event e; e.variable_count = n; e.variables = VARS;
    const struct betree_variable** preds = make_environment(d, &e);
    ASSERT(preds[G] == (LAST < COUNT ? &MINE : NULL), "a declared variable has the value of the event, if it gives one");
    REACH();
}

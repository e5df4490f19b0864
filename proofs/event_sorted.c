//@ what every list of an event is put into order and rid of repetitions, exactly once, for an event of any number of variables; no other value is touched
//@ props C09
//@ enforce sort_event_lists/sorted
//@ functions sort_event_lists
//@ rewrite tree.c struct betree_variable\* pred = event->variables\[([^\]]+)\] => struct betree_variable* pred = VAR(event, \1)
//@ loop tree.c sort_event_lists 1/1 : __CPROVER_assigns(i, MI, MS, OI, OS) __CPROVER_loop_invariant(i <= COUNT && DONE(i)) __CPROVER_decreases(COUNT - i)
//@ cbmc --unwind 6 --object-bits 10
//@ assume event_sorted: sorting one list is unit dedup (a stub here, which counts the calls); the variables of the event are read through VAR, which stands for them by two: one arbitrary one (G) and one for all the others
//@ bounded --unwind 6 --unwinding-assertions
#include "spec.h"
#include "value.h"
#include "utils.h"
static struct betree_integer_list IM, IO; static struct betree_string_list SM, SO; static struct betree_variable MINE, OTHER; static size_t COUNT, G; static int MI, MS; static bool OI, OS, NOTHING; static int T;
#define DONE(i) (MI == ((i) > G && G < COUNT && !NOTHING && T == BETREE_INTEGER_LIST ? 1 : 0) && MS == ((i) > G && G < COUNT && !NOTHING && T == BETREE_STRING_LIST ? 1 : 0) && WF_BOOL(OI) && WF_BOOL(OS))
static const struct betree_event* EV;
static struct betree_variable* var_at(const struct betree_event* e, size_t i);
#define VAR(e, i) var_at(e, i)
#include "tree.c"
static bool any(void) { bool b; return b ? true : false; }
static struct betree_variable* var_at(const struct betree_event* e, size_t i)
{
    ASSERT(e == EV && i < COUNT, "inside of the event");
    if(i == G) return NOTHING ? NULL : &MINE;
    bool none; return none ? NULL : &OTHER;
}
void sort_and_remove_duplicate_integer_list(struct betree_integer_list* l) { ASSERT(l == &IM || l == &IO, "a list of the event"); if(l == &IM) { ASSERT(T == BETREE_INTEGER_LIST, "of integers"); MI++; } else OI = true; }
void sort_and_remove_duplicate_string_list(struct betree_string_list* l) { ASSERT(l == &SM || l == &SO, "a list of the event"); if(l == &SM) { ASSERT(T == BETREE_STRING_LIST, "of strings"); MS++; } else OS = true; }
void sorted(struct betree_event* event)
__CPROVER_requires(event == EV && DONE(0))
__CPROVER_ensures(DONE(COUNT))
__CPROVER_assigns(MI, MS, OI, OS);
int main()
{
    size_t n, g; ASSUME(n < (size_t)1 << 40);
#ifdef BOUNDED
    ASSUME(n <= 4);
#endif
    COUNT = n; G = g; MI = MS = 0; OI = OS = false; NOTHING = any();
    int t, u; ASSUME(t >= BETREE_BOOLEAN && t <= BETREE_INTEGER_ENUM && u >= BETREE_BOOLEAN && u <= BETREE_INTEGER_ENUM); T = t;
    MINE.value.value_type = t; OTHER.value.value_type = u;
    if(t == BETREE_INTEGER_LIST) MINE.value.integer_list_value = &IM; else MINE.value.string_list_value = &SM;
    if(u == BETREE_INTEGER_LIST) OTHER.value.integer_list_value = &IO; else OTHER.value.string_list_value = &SO;
    struct betree_event e; e.variable_count = n; EV = &e;
#ifdef BOUNDED
    static struct betree_variable* vs[4]; for(size_t k = 0; k < 4; k++) { bool none; vs[k] = k == g ? (NOTHING ? NULL : &MINE) : none ? NULL : &OTHER; } e.variables = vs;
#endif
    sort_event_lists(&e);
    ASSERT(DONE(n), "every list of the event is sorted, once");
    ASSERT(MINE.value.value_type == t && OTHER.value.value_type == u, "no value is touched");
    REACH();
}

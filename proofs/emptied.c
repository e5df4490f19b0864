//@ what releasing a list of integers, strings, segments or frequency caps, of any length, releases each of its elements with their texts, its array and itself, each exactly once, and nothing else
//@ props C10 C19
//@ functions free_integer_list free_string_list free_segments free_frequency_caps free_frequency_cap free_segment free_value
//@ rewrite value.c value->strings\[([^\]]+)\] => (*STR(value, \1))
//@ rewrite value.c value->content\[([^\]]+)\] => ELEM(value, \1)
//@ loop value.c free_string_list 1/1 : __CPROVER_assigns(i, ME, OT) __CPROVER_loop_invariant(i <= COUNT && ME == (i > G && G < COUNT)) __CPROVER_decreases(COUNT - i)
//@ loop value.c free_segments 1/1 : __CPROVER_assigns(i, ME, OT) __CPROVER_loop_invariant(i <= COUNT && ME == (i > G && G < COUNT)) __CPROVER_decreases(COUNT - i)
//@ loop value.c free_frequency_caps 1/1 : __CPROVER_assigns(i, ME, OT, MN) __CPROVER_loop_invariant(i <= COUNT && ME == (i > G && G < COUNT) && MN == ME) __CPROVER_decreases(COUNT - i)
//@ cbmc --unwind 16 --object-bits 10
//@ bounded --unwind 6 --unwinding-assertions --bounds-check --pointer-check
//@ assume emptied: the elements are read through STR and ELEM, which stand for them by two: one arbitrary one (G) and one for all the others; the bounded run keeps the array
//@ variant integers -DV=0
//@ variant strings -DV=1
//@ variant segments -DV=2
//@ variant caps -DV=3
#include "spec.h"
#include "alloc.h"
static size_t G, COUNT, OT; static int ME, MN, ARR, SELF; static char TG, TO, TN; static struct string_value SG, SO;
static struct betree_integer_list LI; static struct betree_string_list LS; static struct betree_segments LG; static struct betree_frequency_caps LF;
static struct betree_segment GG, GO; static struct betree_frequency_cap FG, FO;
static char ARRAY[64]; static struct string_value ARRS[4]; static void* ARRP[4];
#define THE_ARRAY (V == 1 ? (void*)ARRS : V == 0 ? (void*)ARRAY : (void*)ARRP)
#define THE_LIST (V == 0 ? (void*)&LI : V == 1 ? (void*)&LS : V == 2 ? (void*)&LG : (void*)&LF)
#define THE_G (V == 1 ? (void*)&TG : V == 2 ? (void*)&GG : (void*)&FG)
#define THE_O (V == 1 ? (void*)&TO : V == 2 ? (void*)&GO : (void*)&FO)
void model_free(void* p)
{
    ASSERT(SELF == 0, "the list is the last");
    if(p == THE_LIST) { ASSERT(ARR == 1, "after its array"); SELF++; }
    else if(p == THE_ARRAY) ARR++;
    else if(V == 3 && p == &TG) { ASSERT(ME == 0, "the text before its cap"); MN++; }
    else if(V == 3 && p == &TO) ;
    else if(V != 0 && p == THE_G) { ASSERT(ARR == 0, "an element, before the array"); ME++; }
    else { ASSERT(V != 0 && p == THE_O && ARR == 0, "nothing else is released"); OT++; }
}
#undef bfree
#define bfree model_free
static struct string_value* str_at(const void* l, size_t k) { ASSERT(V == 1 && l == &LS && k < COUNT && ARR == 0, "inside of the list"); return k == G ? &SG : &SO; }
static void* elem_at(const void* l, size_t k) { ASSERT(V >= 2 && l == THE_LIST && k < COUNT && ARR == 0, "inside of the list"); return k == G ? THE_G : THE_O; }
#define STR(l, k) str_at(l, k)
#define ELEM(l, k) elem_at(l, k)
#include "value.c"
int main()
{
    size_t n, g; ASSUME(n < (size_t)1 << 40); G = g; COUNT = n; OT = 0; ME = MN = ARR = SELF = 0; SG.string = &TG; SO.string = &TO; FG.namespace.string = &TG; FO.namespace.string = &TO;
#ifdef BOUNDED
    ASSUME(n <= 4);
    for(size_t k = 0; k < 4; k++) { ARRS[k].string = k == g ? &TG : &TO; ARRP[k] = k == g ? THE_G : THE_O; }
#endif
    struct value v; bool whole; 
    LI.count = n; LI.integers = (void*)ARRAY; LS.count = n; LS.strings = ARRS; LG.size = n; LG.content = (void*)ARRP; LF.size = n; LF.content = (void*)ARRP;
    if(V == 0) { v.value_type = BETREE_INTEGER_LIST; v.integer_list_value = &LI; } else if(V == 1) { v.value_type = BETREE_STRING_LIST; v.string_list_value = &LS; }
    else if(V == 2) { v.value_type = BETREE_SEGMENTS; v.segments_value = &LG; } else { v.value_type = BETREE_FREQUENCY_CAPS; v.frequency_caps_value = &LF; }
    free_value(v);
    ASSERT(SELF == 1 && ARR == 1, "the list and its array are released, once");
    ASSERT(ME == (V != 0 && g < n), "so is every element, once");
    ASSERT(IMPLIES(V == 3, MN == (g < n)), "with its text");
    REACH();
}

//@ what every value of an event, however many and whatever its type, gets the index and the type of its variable and the ids its strings and integer enums already have; it creates none
//@ props C07 C08
//@ rewrite tree.c (?m)^betree_var_t try_get_id_for_attr\( => betree_var_t original_try_get_id_for_attr(
//@ functions fill_event convert_value is_empty_list
//@ cbmc --unwind 10 --object-bits 12
//@ assume event_types: the look-ups of the dictionaries keep their contracts (units dictionary, dictionary_ienum)
//@ assume event_types: the event uses declared variables only (the library ends the program otherwise)
//@ loop tree.c fill_event 1/3 : __CPROVER_assigns(i, MINE.attr_var.var, MINE.value, OTHER.attr_var.var, OTHER.value, __CPROVER_object_whole(VARS) EXTRA) __CPROVER_loop_invariant(i <= COUNT && IMPLIES(i > G, DONE) && PEQ(CAP.namespace.string, NAME)) __CPROVER_decreases(COUNT - i)
//@ ghost tree.c fill_event 1/3 : INST(i)
//@ loop tree.c fill_event 2/3 : __CPROVER_assigns(j EXTRA) __CPROVER_loop_invariant(j <= NS && IMPLIES(i > G || (i == G && j > H), STR_DONE)) __CPROVER_decreases(NS - j)
//@ ghost tree.c fill_event 2/3 : GHOST_STR
//@ loop tree.c fill_event 3/3 : __CPROVER_assigns(j EXTRA) __CPROVER_loop_invariant(j <= NS && IMPLIES(i > G || (i == G && j > H), CAP_DONE) && PEQ(CAP.namespace.string, NAME)) __CPROVER_decreases(NS - j)
//@ ghost tree.c fill_event 3/3 : GHOST_CAP
#define V 0
#include "spec.h"
#include "tree.h"
/* MINE is the G-th value of the event, of type T0, for a variable of type T; OTHER stands for any other value (its lists are empty) */
static struct betree_variable MINE, OTHER; static struct betree_variable** VARS; static size_t COUNT, G, H, NS; static int T, T0; static bool CONV, EMPTY;
static struct string_value* STRS; static struct betree_frequency_cap** CAPS; static struct betree_frequency_cap CAP, OCAP;
static struct betree_string_list ML, NOTHING; static struct betree_frequency_caps MC;
static const char *MYNAME, *OTHERNAME, *NAME; static betree_var_t VARM, OVAR; static int64_t MYINT; static betree_ienum_t MYIENUM; static betree_str_t MYSTR;
static struct value SAVED;
#if V == 0
#define EXTRA
#define GHOST_STR
#define GHOST_CAP
#elif V == 1
#define EXTRA , __CPROVER_object_whole(STRS)
#define GHOST_STR if(i == G && j == H) STRS[j].string = NAME;
#define GHOST_CAP
#else
#define EXTRA , __CPROVER_object_whole(CAPS), CAP.namespace.var, CAP.namespace.str, OCAP.namespace.var, OCAP.namespace.str
#define GHOST_STR
#define GHOST_CAP if(i == G && j < NS) CAPS[j] = j == H ? &CAP : &OCAP;
#endif
#define PEQ(a, b) ((uintptr_t)(a) == (uintptr_t)(b))
#define STR_DONE IMPLIES(V == 1 && H < NS, PEQ(STRS[H].string, NAME) && STRS[H].var == VARM && STRS[H].str == MYSTR)
#define CAP_DONE IMPLIES(V == 2 && H < NS, PEQ(CAP.namespace.string, NAME) && CAP.namespace.var == VARM && CAP.namespace.str == MYSTR)
#define DONE (MINE.attr_var.var == VARM && MINE.value.value_type == (CONV ? T : T0) && STR_DONE && CAP_DONE && \
    IMPLIES(V == 0 && CONV && T == BETREE_STRING, PEQ(MINE.value.string_value.string, NAME) && MINE.value.string_value.var == VARM && MINE.value.string_value.str == MYSTR) && \
    IMPLIES(V == 0 && CONV && T == BETREE_INTEGER_ENUM, MINE.value.integer_enum_value.integer == MYINT && MINE.value.integer_enum_value.var == VARM && MINE.value.integer_enum_value.ienum == MYIENUM) && \
    IMPLIES(V == 0 && T0 == BETREE_INTEGER && (T == BETREE_INTEGER || !CONV), MINE.value.integer_value == MYINT) && \
    IMPLIES(V == 0 && T0 == BETREE_INTEGER && T == BETREE_FLOAT, MINE.value.float_value == (double)MYINT) && \
    IMPLIES(V == 1, PEQ(MINE.value.string_list_value, &ML)) && IMPLIES(V == 2, PEQ(MINE.value.frequency_caps_value, &MC)))
static struct value other_value(void) { struct value v; int t; __CPROVER_assume(t >= BETREE_BOOLEAN && t <= (V == 0 ? BETREE_INTEGER_ENUM : BETREE_FLOAT)); v.value_type = t; if(t >= BETREE_INTEGER_LIST && t <= BETREE_FREQUENCY_CAPS) v.string_list_value = &NOTHING; return v; }
#define INST(k) if((k) < COUNT) { _Bool missing; OTHER.value = other_value(); if((k) == G) { MINE.value = SAVED; VARS[k] = &MINE; } else VARS[k] = missing ? NULL : &OTHER; }
#include "var.c"
#include "tree.c"
#define IS_LIST(t) ((t) == BETREE_INTEGER_LIST || (t) == BETREE_STRING_LIST || (t) == BETREE_SEGMENTS || (t) == BETREE_FREQUENCY_CAPS)
#define CONVERTS(t, o, empty) ((o) == (t) || ((o) == BETREE_INTEGER && ((t) == BETREE_FLOAT || (t) == BETREE_INTEGER_ENUM)) || (IS_LIST(t) && IS_LIST(o) && (empty)))
/* contracts of the dictionaries (units dictionary_*): they look up and change nothing */
betree_var_t try_get_id_for_attr(const struct config* config, const char* attr) { ASSERT(PEQ(attr, MYNAME) || PEQ(attr, OTHERNAME), "the name of the variable is looked up"); return PEQ(attr, MYNAME) ? VARM : OVAR; }
betree_ienum_t try_get_id_for_ienum(const struct config* config, struct attr_var attr_var, int64_t integer) { betree_ienum_t r; return attr_var.var == VARM && integer == MYINT ? MYIENUM : r; }
betree_str_t try_get_id_for_string(const struct config* config, struct attr_var attr_var, const char* string) { betree_str_t r; return attr_var.var == VARM && PEQ(string, NAME) ? MYSTR : r; }
int main()
{
    size_t n, g, h, ns, d; ASSUME(n < (size_t)1 << 32 && ns < (size_t)1 << 32 && d < (size_t)1 << 32); ASSUME(g < n); COUNT = n; G = g; H = h; NS = ns;
    betree_var_t vm, vo; ASSUME(vm < d && vo < d); VARM = vm; OVAR = vo; int64_t i; MYINT = i; betree_ienum_t mi; MYIENUM = mi; betree_str_t ms; MYSTR = ms;
    static char n1, n2, n3; OTHER.attr_var.attr = &n2; MYNAME = &n1; OTHERNAME = &n2; NAME = &n3; NOTHING.count = 0; NOTHING.strings = NULL;
    int t, t0; ASSUME(t >= BETREE_BOOLEAN && t <= BETREE_INTEGER_ENUM && t0 >= BETREE_BOOLEAN && t0 <= BETREE_INTEGER_ENUM); T = t; T0 = t0; _Bool e; EMPTY = e ? true : false;
    STRS = malloc(ns * sizeof(*STRS)); CAPS = malloc(ns * sizeof(*CAPS)); VARS = malloc(n * sizeof(*VARS)); ML.count = MC.size = ns; ML.strings = STRS; MC.content = CAPS; CAP.namespace.string = NAME;
    MINE.attr_var.attr = MYNAME; SAVED.value_type = t0; double f;
    if(V == 1) { ASSUME(t == BETREE_STRING_LIST && t0 == t); SAVED.string_list_value = &ML; EMPTY = ns == 0; }
    else if(V == 2) { ASSUME(t == BETREE_FREQUENCY_CAPS && t0 == t); SAVED.frequency_caps_value = &MC; EMPTY = ns == 0; }
    else {
        if(t0 == BETREE_INTEGER) SAVED.integer_value = MYINT; else if(t0 == BETREE_FLOAT) { ASSUME(f == f); SAVED.float_value = f; } else if(t0 == BETREE_STRING) SAVED.string_value.string = NAME; else if(t0 == BETREE_INTEGER_ENUM) SAVED.integer_enum_value.integer = MYINT;
        else if(t0 >= BETREE_INTEGER_LIST && t0 <= BETREE_FREQUENCY_CAPS) { SAVED.string_list_value = &NOTHING; EMPTY = true; }
    }
    MINE.value = SAVED; CONV = CONVERTS(t, t0, EMPTY && IS_LIST(t0)) ? true : false;
    static struct attr_domain DM, DO; int to; ASSUME(to >= BETREE_BOOLEAN && to <= BETREE_INTEGER_ENUM); DM.bound.value_type = t; DO.bound.value_type = to;
    struct attr_domain** DOMS = malloc(d * sizeof(*DOMS)); DOMS[vo] = &DO; DOMS[vm] = &DM;
    struct config c; c.attr_domain_count = d; c.attr_domains = DOMS; struct betree_event ev; ev.variable_count = n; ev.variables = VARS;
    fill_event(&c, &ev);
    ASSERT(DONE, "every value gets the index and type of its variable and the ids of its strings");
    REACH();
}

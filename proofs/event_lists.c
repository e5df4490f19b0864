//@ what every string of a list and every namespace of the frequency caps of an event, however many, gets the id it already has for its variable
//@ props C07 C08
//@ rewrite tree.c ([\w.>-]+)->strings\[(\w+)\] => (*STR(\1, \2))
//@ rewrite tree.c ([\w.>-]+)->content\[(\w+)\] => CAP(\1, \2)
//@ cut tree.c (?<!betree_var_t )\btry_get_id_for_attr\( => looked_up(
//@ functions fill_event convert_value is_empty_list
//@ loop tree.c fill_event 1/3 : __CPROVER_assigns(i, MINE.attr_var.var, SG.var, SG.str, SO.var, SO.str, SO.string, CG.namespace.var, CG.namespace.str, CO.namespace.var, CO.namespace.str, CO.namespace.string) __CPROVER_loop_invariant(i <= 1 && IMPLIES(i == 1, MINE.attr_var.var == VARM && STR_DONE && CAP_DONE)) __CPROVER_decreases(1 - i)
//@ loop tree.c fill_event 2/3 : __CPROVER_assigns(j, SG.var, SG.str, SO.var, SO.str, SO.string) __CPROVER_loop_invariant(j <= NS && IMPLIES(j > H, STR_DONE)) __CPROVER_decreases(NS - j)
//@ loop tree.c fill_event 3/3 : __CPROVER_assigns(j, CG.namespace.var, CG.namespace.str, CO.namespace.var, CO.namespace.str, CO.namespace.string) __CPROVER_loop_invariant(j <= NS && IMPLIES(j > H, CAP_DONE)) __CPROVER_decreases(NS - j)
//@ cbmc --unwind 16 --object-bits 12
//@ bounded --unwind 6 --unwinding-assertions --object-bits 12
//@ assume event_lists: the look-ups of the dictionaries keep their contracts (units dictionary, dictionary_ienum, names)
//@ assume event_lists: the elements of a list are read and written through STR and CAP, which stand for them by two: one arbitrary one (H) and one for all the others, of any text; the bounded run keeps the arrays
//@ assume event_lists: one variable at a time (unit event_types treats any number); the event uses declared variables only (the library ends the program otherwise)
//@ variant strings -DV=1
//@ variant caps -DV=2
#include "spec.h"
#include "tree.h"
/* a variable with the layout of struct betree_variable, with a value known to be a list */
struct lvar { struct attr_var attr_var; struct { enum betree_value_type_e value_type; void* list; char pad[sizeof(struct value)]; } value; };
static struct lvar MINE; static struct betree_variable* VARS[1]; static size_t H, NS; static int T;
static struct string_value SG, SO, STRS[4]; static struct betree_frequency_cap CG, CO, CELLS[4], *CAPS[4];
static struct betree_string_list ML; static struct betree_frequency_caps MC;
static const char *MYNAME, *NAME; static betree_var_t VARM; static betree_str_t MYSTR; static const struct config* CONF;
#ifdef BOUNDED
#define THE_STR STRS[H]
#define THE_CAP CELLS[H]
#else
#define THE_STR SG
#define THE_CAP CG
#endif
#define STR_DONE IMPLIES(V == 1 && H < NS, THE_STR.string == NAME && THE_STR.var == VARM && THE_STR.str == MYSTR)
#define CAP_DONE IMPLIES(V == 2 && H < NS, THE_CAP.namespace.string == NAME && THE_CAP.namespace.var == VARM && THE_CAP.namespace.str == MYSTR)
static struct string_value* str_at(const void* l, size_t j) { ASSERT(V == 1 && l == &ML && j < NS, "inside of the list"); const char* any; SO.string = any; return j == H ? &SG : &SO; }
static struct betree_frequency_cap* cap_at(const void* l, size_t j) { ASSERT(V == 2 && l == &MC && j < NS, "inside of the caps"); const char* any; CO.namespace.string = any; return j == H ? &CG : &CO; }
#define STR(l, j) str_at(l, j)
#define CAP(l, j) cap_at(l, j)
static betree_var_t looked_up(const struct config* config, const char* attr) { ASSERT(attr == MYNAME && config == CONF, "the name of the variable is looked up"); return VARM; }
#include "var.c"
#include "tree.c"
/* contracts of the dictionaries (units dictionary_*): they look up and change nothing */
betree_ienum_t try_get_id_for_ienum(const struct config* config, struct attr_var attr_var, int64_t integer) { ASSERT(0, "no integer is looked up"); return 0; }
betree_str_t try_get_id_for_string(const struct config* config, struct attr_var attr_var, const char* string) { ASSERT(config == CONF && attr_var.var == VARM, "the dictionary of the variable"); betree_str_t r; return string == NAME ? MYSTR : r; }
int main()
{
    size_t h, ns, d; ASSUME(ns < (size_t)1 << 40 && d < (size_t)1 << 32);
#ifdef BOUNDED
    ASSUME(ns <= 4 && h < 4);
#endif
    H = h; NS = ns; betree_var_t vm; ASSUME(vm < d); VARM = vm; betree_str_t ms; MYSTR = ms;
    static char n1, n3, n4; MYNAME = &n1; NAME = &n3; SG.string = CG.namespace.string = NAME;
    VARS[0] = (struct betree_variable*)&MINE; ML.count = MC.size = ns; ML.strings = STRS; MC.content = CAPS;
    for(size_t k = 0; k < 4; k++) { bool b; const char* other = b ? NAME : &n4; STRS[k].string = k == h ? NAME : other; CELLS[k].namespace.string = k == h ? NAME : other; CAPS[k] = &CELLS[k]; }
    T = V == 1 ? BETREE_STRING_LIST : BETREE_FREQUENCY_CAPS; MINE.attr_var.attr = MYNAME; MINE.value.value_type = T; MINE.value.list = V == 1 ? (void*)&ML : (void*)&MC;
    static struct attr_domain DM; DM.bound.value_type = T;
    struct attr_domain** DOMS = malloc(d * sizeof(*DOMS)); DOMS[vm] = &DM;
    struct config c; CONF = &c; c.attr_domain_count = d; c.attr_domains = DOMS; struct betree_event ev; ev.variable_count = 1; ev.variables = VARS;
    fill_event(&c, &ev);
    ASSERT(MINE.attr_var.var == VARM && MINE.value.value_type == T && STR_DONE && CAP_DONE, "every value gets the index and type of its variable and the ids of its strings");
    ASSERT(ML.count == ns && MC.size == ns, "no value is lost");
    REACH();
}

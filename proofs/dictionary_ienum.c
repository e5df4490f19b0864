//@ what the dictionary of integer enums: looking up gives the id the value has for its variable and changes nothing; asking for an id gives the one it has, or the next unused one if there is room, and touches no other value and no other variable, for any number of variables and values
//@ props C08 C07
//@ functions try_get_id_for_ienum get_id_for_ienum get_attr_domain
//@ variant look_up -DLOOK=1 -DALWAYS=0
//@ variant get -DLOOK=0 -DALWAYS=0
//@ variant always -DLOOK=0 -DALWAYS=1
//@ replace add_integer_map add_to_integer_map
//@ rewrite config.c config->integer_maps\[([^\]]+)\] => AT(config, \1)
//@ loop config.c try_get_id_for_ienum 1/2 : __CPROVER_assigns(i, OTHER.attr_var.var) __CPROVER_loop_invariant(i <= C && i <= M) __CPROVER_decreases(C - i)
//@ ghost config.c try_get_id_for_ienum 1/2 : INST(i)
//@ loop config.c try_get_id_for_ienum 2/2 : __CPROVER_assigns(j) __CPROVER_loop_invariant(j <= COUNT && IMPLIES(KNOWN, j <= ID)) __CPROVER_decreases(COUNT - j)
//@ ghost config.c try_get_id_for_ienum 2/2 : INSTV(j)
//@ loop config.c get_id_for_ienum 1/2 : __CPROVER_assigns(i, integer_map, OTHER.attr_var.var) __CPROVER_loop_invariant(i <= C && i <= M && integer_map == NULL) __CPROVER_decreases(C - i)
//@ ghost config.c get_id_for_ienum 1/2 : INST(i)
//@ loop config.c get_id_for_ienum 2/2 : __CPROVER_assigns(j) __CPROVER_loop_invariant(j <= COUNT && IMPLIES(KNOWN, j <= ID)) __CPROVER_decreases(COUNT - j)
//@ ghost config.c get_id_for_ienum 2/2 : INSTV(j)
//@ cbmc --unwind 8
//@ bounded --unwind 6
//@ assume dictionary_ienum: the array of dictionaries is read and written through AT, which stands for its elements by two: the one followed (M) and one for all the others, whose variable INST chooses at every access; the bounded run keeps the array
//@ assume dictionary_ienum: a variable has at most one dictionary (INST makes the M-th the one of the variable at hand, C: it has none); a new dictionary is empty and the others stay (unit growth)
#include "spec.h"
#include "config.h"
static struct integer_map MINE, OTHER; static size_t C, M; static betree_var_t VAR; static int64_t VALUE; static bool KNOWN, ADDED; static betree_ienum_t ID; static size_t COUNT; static int64_t* VALS;
#ifdef BOUNDED
static struct integer_map MAPS[4];
#define MAP(k) MAPS[k]
#else
static struct integer_map* at(const struct config* config, size_t k) { ASSERT(k < config->integer_map_count, "inside of the array of dictionaries"); return k == M ? &MINE : &OTHER; }
#define AT(c, k) (*at(c, k))
#define MAP(k) MINE
#endif
/* the dictionary about to be read belongs to another variable, unless it is the M-th */
#define INST(k) { betree_var_t other; __CPROVER_assume(other != VAR); OTHER.attr_var.var = other; }
/* the value sought is the ID-th of the dictionary, or not there */
#define INSTV(k) if((k) < COUNT) __CPROVER_assume(IMPLIES(!KNOWN || (k) <= ID, (VALS[k] == VALUE) == (KNOWN && (k) == ID)));
static void add_to_integer_map(struct integer_map* integer_map, int64_t integer)
__CPROVER_requires(!LOOK && !ADDED && !KNOWN && integer_map == &MAP(M) && integer == VALUE && integer_map->integer_value_count == COUNT)
__CPROVER_ensures(ADDED == true && integer_map->integer_value_count == COUNT + 1)
__CPROVER_assigns(ADDED, integer_map->integer_value_count);
static void add_integer_map(struct attr_var attr_var, struct config* config)
__CPROVER_requires(!LOOK && M == C && attr_var.var == VAR && config->integer_map_count == C)
__CPROVER_ensures(config->integer_map_count == C + 1)
__CPROVER_assigns(config->integer_map_count);
#include "config.c"
int main()
{
    size_t c, m, n, d; ASSUME(c < (size_t)1 << 32 && d < (size_t)1 << 32); ASSUME(m <= c); C = c; M = m;
#ifdef BOUNDED
    ASSUME(c <= 3);
#endif
    betree_var_t v; ASSUME(v < d); VAR = v; int64_t w; VALUE = w; ADDED = false;
    /* COUNT values have the ids 0 .. COUNT - 1 (the state every call keeps) */
    ASSUME(n < (size_t)1 << 32);
#ifdef BOUNDED
    ASSUME(n <= 4);
#endif
    COUNT = m == c ? 0 : n; bool k; KNOWN = k && m < c; betree_ienum_t id; ID = id; ASSUME(IMPLIES(KNOWN, ID < COUNT));
    MAP(m).attr_var.var = VAR; MAP(m).integer_value_count = COUNT; VALS = malloc(COUNT * sizeof(*VALS)); MAP(m).integer_values = VALS;
    struct config conf;
#ifdef BOUNDED
    for(size_t i = 0; i < 4; i++) ASSUME((MAPS[i].attr_var.var == VAR) == (i == m));
    for(size_t i = 0; i < 4; i++) INSTV(i)
    conf.integer_maps = MAPS;
#else
    struct integer_map o; OTHER = o; conf.integer_maps = NULL;
#endif
    static struct attr_domain D; size_t sm; D.bound.smax = sm; struct attr_domain** doms = malloc(d * sizeof(*doms)); doms[v] = &D;
    conf.attr_domain_count = d; conf.attr_domains = doms; conf.integer_map_count = c;
    struct attr_var a; a.var = VAR;
#if LOOK
    betree_ienum_t r = try_get_id_for_ienum(&conf, a, VALUE);
    ASSERT(r == (KNOWN ? ID : INVALID_IENUM), "the id the value has, none otherwise");
    ASSERT(!ADDED && conf.integer_map_count == c && MAP(m).integer_value_count == COUNT, "nothing changes");
#else
    betree_ienum_t r = get_id_for_ienum(&conf, a, VALUE, ALWAYS);
    bool room = ALWAYS || COUNT <= sm; if(sm == SIZE_MAX) room = ALWAYS;
    ASSERT(r == (KNOWN ? ID : room ? COUNT : INVALID_IENUM), "the id it has, else the next one if there is room");
    ASSERT(ADDED == (!KNOWN && room), "it is stored when it is new and there is room");
    ASSERT(MAP(m).integer_value_count == COUNT + (ADDED ? 1 : 0), "the number of values is kept");
    ASSERT(IMPLIES(ADDED && !ALWAYS, COUNT + 1 <= sm + 1), "a variable never has more values than it may");
#endif
#ifndef BOUNDED
    ASSERT(OTHER.integer_value_count == o.integer_value_count, "the dictionaries of other variables are left alone");
#endif
    REACH();
}

//@ what the dictionary of strings: looking up gives the id the value has for its variable and changes nothing; asking for an id gives the one it has, or the next unused one if there is room, and touches no other value and no other variable, for any number of variables and values
//@ props C08 C07
//@ functions try_get_id_for_string get_id_for_string add_to_string_map get_attr_domain
//@ variant look_up -DLOOK=1 -DALWAYS=0
//@ variant get -DLOOK=0 -DALWAYS=0
//@ variant always -DLOOK=0 -DALWAYS=1
//@ replace add_string_map
//@ rewrite config.c config->string_maps\[([^\]]+)\] => AT(config, \1)
//@ loop config.c try_get_id_for_string 1/1 : __CPROVER_assigns(i, MINE.m.ref, OTHER.attr_var.var) __CPROVER_loop_invariant(i <= C && i <= M) __CPROVER_decreases(C - i)
//@ ghost config.c try_get_id_for_string 1/1 : INST(i)
//@ loop config.c get_id_for_string 1/1 : __CPROVER_assigns(i, string_map, MINE.m.ref, OTHER.attr_var.var) __CPROVER_loop_invariant(i <= C && i <= M && string_map == NULL) __CPROVER_decreases(C - i)
//@ ghost config.c get_id_for_string 1/1 : INST(i)
//@ cbmc --unwind 8
//@ bounded --unwind 6
//@ assume dictionary: the array of dictionaries is read and written through AT, which stands for its elements by two: the one followed (M) and one for all the others, whose variable INST chooses at every access; the bounded run keeps the array
//@ assume dictionary: a map finds under a text what was last stored under it (units map_chain, hash_map); a variable has at most one dictionary (INST makes the M-th the one of the variable at hand, C: it has none); a new dictionary is empty and the others stay (unit growth)
#include "spec.h"
#include "config.h"
static struct string_map MINE, OTHER; static size_t C, M; static betree_var_t VAR; static const char* TEXT; static bool KNOWN, ADDED; static betree_str_t ID, ADDED_ID; static size_t COUNT;
#ifdef BOUNDED
static struct string_map MAPS[4];
#define MAP(k) MAPS[k]
#else
static struct string_map* at(const struct config* config, size_t k) { ASSERT(k < config->string_map_count, "inside of the array of dictionaries"); return k == M ? &MINE : &OTHER; }
#define AT(c, k) (*at(c, k))
#define MAP(k) MINE
#endif
/* the dictionary about to be read belongs to another variable, unless it is the M-th */
#define INST(k) { betree_var_t other; __CPROVER_assume(other != VAR); OTHER.attr_var.var = other; }
void* map_get_(map_base_t* m, const char* key)
{
    ASSERT(key == TEXT, "the value asked for is looked up");
    ASSERT(M < C && m == &MAP(M).m.base, "in the dictionary of the variable");
    return KNOWN ? &ID : NULL;
}
int map_set_(map_base_t* m, const char* key, void* value, int vsize)
{
    ASSERT(!LOOK, "a look-up stores nothing");
    ASSERT(!ADDED && !KNOWN && key == TEXT && m == &MAP(M).m.base && vsize == (int)sizeof(betree_str_t), "the value asked for is stored once, in the dictionary of the variable");
    ADDED = true; ADDED_ID = *(betree_str_t*)value; return 0;
}
static void add_string_map(struct attr_var attr_var, struct config* config)
__CPROVER_requires(!LOOK && M == C && attr_var.var == VAR && config->string_map_count == C)
__CPROVER_ensures(config->string_map_count == C + 1)
__CPROVER_assigns(config->string_map_count);
#include "config.c"
int main()
{
    size_t c, m, n, d; ASSUME(c < (size_t)1 << 32 && d < (size_t)1 << 32); ASSUME(m <= c); C = c; M = m;
#ifdef BOUNDED
    ASSUME(c <= 3);
#endif
    betree_var_t v; ASSUME(v < d); VAR = v; static char t; TEXT = &t; ADDED = false; ADDED_ID = 0;
    /* COUNT values have the ids 0 .. COUNT - 1 (the state every call keeps) */
    ASSUME(n < (size_t)1 << 40); COUNT = m == c ? 0 : n; bool k; KNOWN = k && m < c; betree_str_t id; ID = id; ASSUME(IMPLIES(KNOWN, ID < COUNT));
    MAP(m).attr_var.var = VAR; MAP(m).string_value_count = COUNT;
    struct config conf;
#ifdef BOUNDED
    for(size_t i = 0; i < 4; i++) ASSUME((MAPS[i].attr_var.var == VAR) == (i == m));
    conf.string_maps = MAPS;
#else
    struct string_map o; OTHER = o; conf.string_maps = NULL;
#endif
    static struct attr_domain D; size_t sm; D.bound.smax = sm; struct attr_domain** doms = malloc(d * sizeof(*doms)); doms[v] = &D;
    conf.attr_domain_count = d; conf.attr_domains = doms; conf.string_map_count = c;
    struct attr_var a; a.var = VAR;
#if LOOK
    betree_str_t r = try_get_id_for_string(&conf, a, TEXT);
    ASSERT(r == (KNOWN ? ID : INVALID_STR), "the id the value has, none otherwise");
    ASSERT(!ADDED && conf.string_map_count == c && MAP(m).string_value_count == COUNT, "nothing changes");
#else
    betree_str_t r = get_id_for_string(&conf, a, TEXT, ALWAYS);
    bool room = ALWAYS || COUNT <= sm; if(sm == SIZE_MAX) room = ALWAYS;
    ASSERT(r == (KNOWN ? ID : room ? COUNT : INVALID_STR), "the id it has, else the next one if there is room");
    ASSERT(ADDED == (!KNOWN && room) && IMPLIES(ADDED, ADDED_ID == r), "it is stored when it is new and there is room");
    ASSERT(MAP(m).string_value_count == COUNT + (ADDED ? 1 : 0), "the number of values is kept");
    ASSERT(IMPLIES(ADDED && !ALWAYS, COUNT + 1 <= sm + 1), "a variable never has more values than it may");
#endif
#ifndef BOUNDED
    ASSERT(OTHER.string_value_count == o.string_value_count, "the dictionaries of other variables are left alone");
#endif
    REACH();
}

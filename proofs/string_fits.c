//@ what a string fits a variable exactly when it has an id there already or the variable has room for one more value (none is limited when its bound says so), for any number of variables and dictionaries
//@ props C07
//@ functions str_valid get_attr_string_bound get_string_map_for_attr space_left_in_map
//@ rewrite ast.c config->string_maps\[([^\]]+)\] => AT(config, \1)
//@ rewrite ast.c config->attr_domains\[([^\]]+)\] => DOMAIN(config, \1)
//@ loop ast.c get_attr_string_bound 1/1 : __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= D && i <= V) __CPROVER_decreases(D - i)
//@ loop ast.c get_string_map_for_attr 1/1 : __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= C && i <= M) __CPROVER_decreases(C - i)
//@ cbmc --unwind 8
//@ bounded --unwind 6
//@ assume string_fits: the arrays of variables and of dictionaries are read through DOMAIN and AT, which stand for their elements by two: the one of the variable (if there is one) and one for all the others; the bounded run keeps the arrays
//@ assume string_fits: strcmp gives zero exactly on equal texts; variables have different names; a map finds what was stored (units map_chain, hash_map)
#include "spec.h"
#include "config.h"
#include <stdio.h>
static const char *ATTR, *OTHER_ATTR, *TEXT; static bool KNOWN; static struct string_map MINE, OTHER; static struct attr_domain DMINE, DOTHER; static size_t C, M, D, V; static betree_str_t ID;
#ifdef BOUNDED
static struct string_map MAPS[4]; static struct attr_domain DS[4], *DOMS[4];
#define MAP MAPS[M]
#else
static struct string_map* at(const struct config* config, size_t k) { ASSERT(k < config->string_map_count, "inside of the array of dictionaries"); return k == M ? &MINE : &OTHER; }
static struct attr_domain* domain(const struct config* config, size_t k) { ASSERT(k < config->attr_domain_count, "inside of the array of variables"); return k == V ? &DMINE : &DOTHER; }
#define AT(c, k) (*at(c, k))
#define DOMAIN(c, k) domain(c, k)
#define MAP MINE
#endif
int strcmp(const char* a, const char* b) { ASSERT((a == ATTR || a == OTHER_ATTR) && (b == ATTR || b == OTHER_ATTR), "names of variables are compared"); int r; ASSUME((r == 0) == (a == b)); return r; }
void* map_get_(map_base_t* m, const char* key) { ASSERT(key == TEXT && M < C && m == &MAP.m.base, "the text is looked up in the dictionary of the variable"); return KNOWN ? &ID : NULL; }
int fprintf(FILE* f, const char* fmt, ...) { int r; return r; }
#include "ast.c"
int main()
{
    size_t c, m, d, v, n, sm; bool k;
#ifdef BOUNDED
    ASSUME(c <= 3 && d <= 3);
#else
    ASSUME(c < (size_t)1 << 32 && d < (size_t)1 << 32);
#endif
    ASSUME(m <= c && v <= d); C = c; M = m; D = d; V = v; static char a, o, t; ATTR = &a; OTHER_ATTR = &o; TEXT = &t; KNOWN = k && m < c;
    struct config conf; conf.string_map_count = c; conf.attr_domain_count = d;
#ifdef BOUNDED
    for(size_t i = 0; i < 4; i++) { MAPS[i].attr_var.attr = i == m ? ATTR : OTHER_ATTR; DS[i].attr_var.attr = i == v ? ATTR : OTHER_ATTR; DOMS[i] = &DS[i]; }
    conf.string_maps = MAPS; conf.attr_domains = DOMS; MAPS[m].string_value_count = n; DS[v].bound.smax = sm;
#else
    MINE.attr_var.attr = ATTR; DMINE.attr_var.attr = ATTR; OTHER.attr_var.attr = DOTHER.attr_var.attr = OTHER_ATTR; MINE.string_value_count = n; DMINE.bound.smax = sm;
#endif
    size_t used = m < c ? n : 0; bool unlimited = v == d || sm == SIZE_MAX;
    ASSUME(used < (size_t)1 << 40);
    bool r = str_valid(&conf, ATTR, TEXT);
    ASSERT(r == (KNOWN || unlimited || used <= sm), "it fits exactly when it has an id or there is room for one more");
    REACH();
}

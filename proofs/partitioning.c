//@ what a leaf that is too full gives subscriptions only to the index of an attribute they use, each to the place the index has for it; nothing else leaves it, no attribute is used twice on a path, and it always ends
//@ props C05 C16 C02
//@ replace get_next_highest_score_unused_attr count_subs_with_variable create_pdir insert_cdir move space_clustering sub_has_attribute update_cluster_capacity
//@ functions space_partitioning is_overflowed
//@ loop tree.c space_partitioning 1/2 : __CPROVER_assigns(FOUND, NEXT_MOVED, PLACED, DONE, CUR_HAS, W, COUNT, DIR, __CPROVER_object_whole(&L), __CPROVER_object_whole(BASE)) __CPROVER_loop_invariant(lnode == &L && L.subs == BASE && L.sub_count <= CAP && !DIR && !DONE) __CPROVER_decreases(L.sub_count)
//@ loop tree.c space_partitioning 2/2 : __CPROVER_assigns(i, NEXT_MOVED, PLACED, CUR_HAS, __CPROVER_object_whole(&L), __CPROVER_object_whole(BASE)) __CPROVER_loop_invariant(lnode == &L && pnode == &PN && var == VAR && L.subs == BASE && i <= L.sub_count && L.sub_count <= COUNT && (NEXT_MOVED ? L.sub_count < COUNT : L.sub_count == COUNT && i <= W && W < COUNT)) __CPROVER_decreases(L.sub_count - i)
//@ ghost tree.c space_partitioning 2/2 : INST(i);
//@ cbmc --unwind 12 --object-bits 10
//@ bounded --unwind 4 --object-bits 12
//@ assume partitioning: INST lets the subscription being read be any, with or without the attribute; a subscription with the attribute exists (contract of get_next_highest_score_unused_attr, unit next_attribute); move, insert_cdir and create_pdir follow the contracts of units leaf, descend and index_nodes
#include "spec.h"
#include "config.h"
#include "tree.h"
static struct lnode L, DL; static struct cnode C, DC; static struct cdir TOP, DEST; static struct pnode PN; static struct attr_domain AD; static struct betree_sub CUR; static struct betree_sub** BASE;
static size_t VAR, CAP, W, COUNT; static bool FOUND, NEXT_MOVED, PLACED, DONE, CUR_HAS, DIR; static const struct config* CONF;
static bool any(void) { bool b; return b ? true : false; }
#ifdef BOUNDED
static struct betree_sub S3[3]; static bool H3[3];
#define IS_CUR(s) ((s) == &S3[0] || (s) == &S3[1] || (s) == &S3[2])
#define HAS(s) ((s) == &S3[0] ? H3[0] : (s) == &S3[1] ? H3[1] : H3[2])
#define IN_LEAF(s) ((L.sub_count > 0 && L.subs[0] == (s)) || (L.sub_count > 1 && L.subs[1] == (s)) || (L.sub_count > 2 && L.subs[2] == (s)))
#define SOME (HAS(L.subs[0]) || (L.sub_count > 1 && HAS(L.subs[1])) || (L.sub_count > 2 && HAS(L.subs[2])))
#define INST(i)
#else
#define SOME true
#define IS_CUR(s) ((s) == &CUR)
#define HAS(s) CUR_HAS
#define IN_LEAF(s) true
#define INST(i) BASE[i] = &CUR; CUR_HAS = any(); if(!NEXT_MOVED && (i) == W) CUR_HAS = true; PLACED = false
#endif
static bool get_next_highest_score_unused_attr(const struct config* config, const struct lnode* lnode, betree_var_t* var)
__CPROVER_requires(config == CONF && lnode == &L && L.sub_count > 0)
__CPROVER_ensures(WF_BOOL(__CPROVER_return_value) && FOUND == __CPROVER_return_value && NEXT_MOVED == false && DIR == false)
__CPROVER_ensures(IMPLIES(__CPROVER_return_value, *var == VAR && COUNT == L.sub_count && W < COUNT && SOME))
__CPROVER_assigns(*var, FOUND, NEXT_MOVED, W, COUNT, DIR);
static size_t count_subs_with_variable(const struct betree_sub** subs, size_t sub_count, betree_var_t variable_id)
__CPROVER_requires(subs == (const struct betree_sub**)L.subs && sub_count == L.sub_count && FOUND && variable_id == VAR)
__CPROVER_ensures(__CPROVER_return_value >= 1 && __CPROVER_return_value <= sub_count)
__CPROVER_assigns();
struct pnode* create_pdir(const struct config* config, const char* attr, betree_var_t variable_id, struct cnode* cnode)
__CPROVER_requires(FOUND && !DIR && config == CONF && attr == AD.attr_var.attr && variable_id == VAR && cnode == &C)
__CPROVER_ensures(__CPROVER_pointer_equals(__CPROVER_return_value, &PN) && DIR == true)
__CPROVER_assigns(DIR);
bool sub_has_attribute(const struct betree_sub* sub, betree_var_t variable_id)
__CPROVER_requires(IS_CUR(sub) && variable_id == VAR)
__CPROVER_ensures(__CPROVER_return_value == HAS(sub))
__CPROVER_assigns();
static struct cdir* insert_cdir(const struct config* config, const struct betree_sub* sub, struct cdir* cdir)
__CPROVER_requires(IS_CUR(sub) && config == CONF && cdir == &TOP)
__CPROVER_ensures(__CPROVER_pointer_equals(__CPROVER_return_value, &DEST) && PLACED == true)
__CPROVER_assigns(PLACED);
static void move(const struct betree_sub* sub, struct lnode* origin, struct lnode* destination)
__CPROVER_requires(IS_CUR(sub) && HAS(sub) && IN_LEAF(sub) && DIR && PLACED && origin == &L && destination == &DL && L.sub_count > 0)
__CPROVER_ensures(L.sub_count == __CPROVER_old(L.sub_count) - 1 && NEXT_MOVED == true && PLACED == false)
#ifdef BOUNDED /* the leaf is any leaf: which subscription takes the place of the moved one does not matter */
__CPROVER_assigns(L.sub_count, NEXT_MOVED, PLACED);
#else
__CPROVER_assigns(L.sub_count, NEXT_MOVED, PLACED, __CPROVER_object_whole(BASE));
#endif
static void space_clustering(const struct config* config, struct cdir* cdir)
__CPROVER_requires(config == CONF && cdir == &TOP && DIR && NEXT_MOVED)
__CPROVER_ensures(DIR == false)
__CPROVER_assigns(DIR);
static void update_cluster_capacity(const struct config* config, struct lnode* lnode)
__CPROVER_requires(config == CONF && lnode == &L && !DIR)
__CPROVER_ensures(DONE == true && L.max >= 1)
__CPROVER_assigns(DONE, L.max);
#include "tree.c"
bool test_bit(const uint64_t* bits, size_t i) { return any(); }
int main()
{
    struct config conf; CONF = &conf; size_t n, var, max, nv, min;
    ASSUME(nv < ((size_t)1 << 30) && var < nv); VAR = var; conf.attr_domain_count = nv; conf.attr_domains = malloc(nv * sizeof(*conf.attr_domains)); conf.attr_domains[var] = &AD; conf.partition_min_size = min;
    ASSUME(n < ((size_t)1 << 40)); CAP = n; L.sub_count = n; L.max = max; BASE = malloc(n * sizeof(*BASE)); L.subs = BASE; L.parent = &C; C.lnode = &L;
    PN.cdir = &TOP; DEST.cnode = &DC; DC.lnode = &DL; FOUND = NEXT_MOVED = PLACED = DONE = DIR = false; AD.attr_var.var = var;
    static char name[4]; AD.attr_var.attr = name;
#ifdef BOUNDED
    ASSUME(n <= 2); static struct betree_sub* b3[3]; BASE = b3; L.subs = b3; for(size_t k = 0; k < 3; k++) { size_t j; b3[k] = j == 0 ? &S3[0] : j == 1 ? &S3[1] : &S3[2]; H3[k] = any(); }
#endif
    space_partitioning(&conf, &C);
    ASSERT(DONE, "the capacity of what is left is updated");
    ASSERT(!DIR, "an index is looked into once its subscriptions are there");
    ASSERT(L.sub_count <= n, "no subscription is added");
    REACH();
}

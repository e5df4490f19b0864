//@ what a subscription is made with masks, and a search with a set of undefined variables, that every reader and writer of them stays inside of, for any number of variables
//@ props C03 C18
//@ replace short_circuit_for_node fill_pred match_node
//@ functions make_sub fill_short_circuit make_undefined try_short_circuit match_sub set_bit
//@ loop tree.c fill_short_circuit 1/1 : __CPROVER_assigns(i, __CPROVER_object_whole(sub->short_circuit.pass), __CPROVER_object_whole(sub->short_circuit.fail)) __CPROVER_loop_invariant(i <= config->attr_domain_count) __CPROVER_decreases(config->attr_domain_count - i)
//@ ghost tree.c fill_short_circuit 1/1 : INST(i)
//@ loop tree.c make_undefined 1/1 : __CPROVER_assigns(i, __CPROVER_object_whole(undefined)) __CPROVER_loop_invariant(i <= attr_domain_count) __CPROVER_decreases(attr_domain_count - i)
//@ loop tree.c try_short_circuit 1/1 : __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= count) __CPROVER_decreases(count - i)
//@ cbmc --unwind 6
//@ bounded --unwind 67 --object-bits 12
//@ assume sub_masks: INST takes the declared variable being read to be an arbitrary one; memory does not run out
#include "spec.h"
#include "config.h"
#include "tree.h"
static struct attr_domain D; static struct attr_domain** g_domains; static const struct ast_node* gexpr; static size_t n;
#define INST(i) __CPROVER_assume(config->attr_domains[i] == &D);
enum short_circuit_e;
static enum short_circuit_e short_circuit_for_node(betree_var_t id, bool inverted, const struct ast_node* node)
__CPROVER_requires(node == gexpr && inverted == 0)
__CPROVER_ensures(__CPROVER_return_value <= 2)
__CPROVER_assigns();
static betree_var_t g_var;
void fill_pred(struct betree_sub* sub, const struct ast_node* expr)
__CPROVER_requires(expr == gexpr && __CPROVER_w_ok(&sub->attr_vars[g_var / 64], sizeof(uint64_t)))
__CPROVER_ensures(true)
__CPROVER_assigns(__CPROVER_object_whole(sub->attr_vars));
bool match_node(const struct betree_variable** preds, const struct ast_node* node, struct memoize* memoize, struct report* report)
__CPROVER_requires(node == gexpr)
__CPROVER_ensures(true)
__CPROVER_assigns();
#include "tree.c"
#include "memoize.c"
int main()
{
    struct config c; struct ast_node e; struct memoize m; struct report rep; bool au; betree_sub_t id;
    size_t nn; n = nn; betree_var_t v; g_var = v;
#ifdef BOUNDED
    ASSUME(n == 1 || n == 64);
#else
    ASSUME(n < ((size_t)1 << 40));
#endif
    ASSUME(g_var < n);
    struct attr_domain** a = malloc(n * sizeof(*a)); c.attr_domain_count = n; c.attr_domains = a; g_domains = a; D.allow_undefined = au ? true : false;
    gexpr = &e;
#ifdef BOUNDED
    for(size_t i = 0; i < n; i++) a[i] = &D;
#endif
    const struct betree_variable** preds = malloc(n * sizeof(*preds));
    struct betree_sub* s = make_sub(&c, id, &e);
    ASSERT(s->id == id && s->expr == &e, "the subscription has its id and expression");
    uint64_t* u = make_undefined(n, preds);
    match_sub(n, preds, s, &rep, &m, u);
    REACH();
}

//@ what bit k of a mask is set exactly when variable k being undefined decides the expression, for every k
//@ props C03
//@ replace short_circuit_for_node
//@ functions fill_short_circuit set_bit
//@ loop tree.c fill_short_circuit 1/1 : __CPROVER_assigns(i, __CPROVER_object_whole(sub->short_circuit.pass), __CPROVER_object_whole(sub->short_circuit.fail))
//@ + __CPROVER_loop_invariant(i <= config->attr_domain_count && G_INV(i)) __CPROVER_decreases(config->attr_domain_count - i)
//@ assume sc_fill: the declared variables are numbered by their position (config.c add_attr_domain)
//@ goto -DGHOST_ELEMENT
//@ cbmc --unwind 6 --no-pointer-check
//@ bounded --unwind 5 --no-pointer-check
#include "spec.h"
static size_t g; static uint64_t *gp, *gf; static bool may, wp, wf;
unsigned char __CPROVER_uninterpreted_sc(betree_var_t v);
#define BIT(A, k) (((A)[(k) / 64] >> ((k) % 64)) & 1)
#define G_INV(i) (BIT(gp, g) == (g < (i) && wp) && BIT(gf, g) == (g < (i) && wf))
enum short_circuit_e;
static const struct ast_node* gexpr;
static enum short_circuit_e short_circuit_for_node(betree_var_t id, bool inverted, const struct ast_node* node)
__CPROVER_requires(node == gexpr && inverted == 0)
__CPROVER_ensures(__CPROVER_return_value == __CPROVER_uninterpreted_sc(id) && __CPROVER_return_value <= 2)
__CPROVER_assigns();
#include "tree.c"
#include "memoize.c"
int main()
{
    struct config c; struct betree_sub s; struct attr_domain d; struct ast_node e;
    size_t n;
#ifdef BOUNDED
    ASSUME(n <= 3);
#else
    ASSUME(n < ((size_t)1 << 40));
#endif
    c.attr_domain_count = n;
    struct attr_domain** a = malloc(n * sizeof(*a)); c.attr_domains = a; size_t gg; g = gg; ASSUME(g < n);
    bool au; d.allow_undefined = au ? true : false; may = d.allow_undefined; d.attr_var.var = g; a[g] = &d;
    size_t words = n / 64 + 1;
    gp = calloc(words, 8); gf = calloc(words, 8); s.short_circuit.pass = gp; s.short_circuit.fail = gf; s.expr = &e; gexpr = &e;
    wp = may && __CPROVER_uninterpreted_sc(g) == 0; wf = may && __CPROVER_uninterpreted_sc(g) == 1;
    fill_short_circuit(&c, &s);
    ASSERT(BIT(gp, g) == (may && __CPROVER_uninterpreted_sc(g) == SHORT_CIRCUIT_PASS), "pass mask");
    ASSERT(BIT(gf, g) == (may && __CPROVER_uninterpreted_sc(g) == SHORT_CIRCUIT_FAIL), "fail mask");
    REACH();
}

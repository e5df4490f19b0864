//@ what the masks of a subscription and the set of undefined variables decide only what holds; a search takes that decision or evaluates
//@ props C03
//@ replace match_node
//@ functions try_short_circuit match_sub
//@ loop tree.c try_short_circuit 1/1 : __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= count) __CPROVER_decreases(count - i)
//@ ghost tree.c try_short_circuit 1/1 : INST(i)
//@ cbmc --unwind 6
//@ bounded --unwind 6
//@ assume sc_mask: INST instantiates the hypothesis on the masks (unit sc_fill, for every bit; units sc_node, sc_undef) at the word being read
#include "spec.h"
#include "tree.h"
/* hypothesis, for every word k: a bit common to the pass mask and the undefined set implies that the
 * expression is true, a bit common to the fail mask and the undefined set that it is false */
static size_t g_words; static uint64_t *gp, *gf, *gu; static bool SEM; static const struct ast_node* gexpr;
#define HYP(k) (IMPLIES((gp[k] & gu[k]) != 0, SEM) && IMPLIES((gf[k] & gu[k]) != 0, !SEM))
#define INST(k) __CPROVER_assume(IMPLIES((k) < g_words, HYP(k)));
bool match_node(const struct betree_variable** preds, const struct ast_node* node, struct memoize* memoize, struct report* report)
__CPROVER_requires(node == gexpr)
__CPROVER_ensures(__CPROVER_return_value == SEM)
__CPROVER_assigns();
#include "tree.c"
int main()
{
    size_t n;
#ifdef BOUNDED
    ASSUME(n < 64 * 3);
#else
    ASSUME(n < ((size_t)1 << 40));
#endif
    g_words = n / 64 + 1; bool b; SEM = b ? true : false;
    struct betree_sub s; struct ast_node e; s.expr = &e; gexpr = &e;
    gp = malloc(g_words * 8); gf = malloc(g_words * 8); gu = malloc(g_words * 8);
    s.short_circuit.pass = gp; s.short_circuit.fail = gf;
#ifdef BOUNDED
    for(size_t k = 0; k < 3; k++) if(k < g_words) ASSUME(HYP(k));
#endif
    struct report rep, rep0 = rep; bool has; struct memoize m; const struct betree_variable** preds;
    bool r = match_sub(n, preds, &s, has ? &rep : NULL, &m, gu);
    ASSERT(r == SEM, "a subscription decided without evaluating it gets the result of evaluating it");
    ASSERT(rep.matched == rep0.matched && rep.evaluated == rep0.evaluated && rep.subs == rep0.subs, "deciding a subscription does not touch the matches of the report");
    REACH();
}

//@ what bit k of the undefined set is set exactly when the event leaves variable k undefined, for every k
//@ props C03
//@ functions make_undefined set_bit
//@ loop tree.c make_undefined 1/1 : __CPROVER_assigns(i, __CPROVER_object_whole(undefined)) __CPROVER_loop_invariant(i <= attr_domain_count && BIT(undefined, g) == (g < i && gnull)) __CPROVER_decreases(attr_domain_count - i)
//@ cbmc --unwind 6
//@ bounded --unwind 6
#include "spec.h"
static size_t g; static bool gnull;
#define BIT(A, k) (((A)[(k) / 64] >> ((k) % 64)) & 1)
#include "tree.c"
#include "memoize.c"
int main()
{
    size_t n;
#ifdef BOUNDED
    ASSUME(n <= 4);
#else
    ASSUME(n < ((size_t)1 << 40));
#endif
    const struct betree_variable** preds = malloc(n * sizeof(*preds));
    size_t gg; g = gg; ASSUME(g < n); gnull = preds[g] == NULL;
    uint64_t* u = make_undefined(n, preds);
    ASSERT(BIT(u, g) == (preds[g] == NULL), "undefined set");
    REACH();
}

//@ what an event is accepted exactly when every variable that must be defined is, and every value has the type of its variable, for any number of variables
//@ props C07
//@ functions validate_variables
//@ loop tree.c validate_variables 1/1 : __CPROVER_assigns(i, DOM, VAR, __CPROVER_object_whole(DOMS), __CPROVER_object_whole(VARS)) __CPROVER_loop_invariant(i <= COUNT && i <= BAD) __CPROVER_decreases(COUNT - i)
//@ ghost tree.c validate_variables 1/1 : INST(i)
//@ cbmc --unwind 6
//@ bounded --unwind 6
#include "spec.h"
#include "tree.h"
static struct attr_domain DOM; static struct betree_variable VAR; static struct attr_domain** DOMS; static const struct betree_variable** VARS; static size_t COUNT, BAD;
static struct attr_domain any_domain(void) { struct attr_domain d; _Bool u; d.allow_undefined = u ? true : false; return d; }
static struct betree_variable any_variable(void) { struct betree_variable d; return d; }
/* the BAD-th (COUNT: none) is the first variable that is missing but must be defined, or of another type */
#define WRONG(k) (VARS[k] == NULL ? !DOMS[k]->allow_undefined : VARS[k]->value.value_type != DOMS[k]->bound.value_type)
#ifdef BOUNDED
static struct attr_domain D[4]; static struct betree_variable V[4];
#define OBJ_D(k) (&D[k])
#define OBJ_V(k) (&V[k])
#else
#define OBJ_D(k) (&DOM)
#define OBJ_V(k) (&VAR)
#endif
#define INST(k) if((k) < COUNT) { _Bool missing; *OBJ_D(k) = any_domain(); *OBJ_V(k) = any_variable(); DOMS[k] = OBJ_D(k); VARS[k] = missing ? NULL : OBJ_V(k); if((k) <= BAD) __CPROVER_assume(WRONG(k) == ((k) == BAD)); }
#include "tree.c"
int main()
{
    size_t n, b;
#ifdef BOUNDED
    ASSUME(n <= 4);
#else
    ASSUME(n < (size_t)1 << 32);
#endif
    ASSUME(b <= n); COUNT = n; BAD = b; DOMS = malloc(n * sizeof(*DOMS)); VARS = malloc(n * sizeof(*VARS));
#ifdef BOUNDED
    for(size_t k = 0; k < 4; k++) INST(k)
#endif
    struct config c; c.attr_domain_count = n; c.attr_domains = DOMS;
    bool r = validate_variables(&c, VARS);
    ASSERT(r == (b == n), "refused exactly when a variable is missing or of another type");
    REACH();
}

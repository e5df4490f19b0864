//@ what the index of an attribute is the one in the directory, found whatever the number of indexes, and none when there is none
//@ props C05
//@ functions search_pdir
//@ rewrite tree.c struct pnode\* pnode = pdir->pnodes\[([^\]]+)\];(?=\s*if\(variable_id ==) => struct pnode* pnode = INDEX(pdir, \1);
//@ loop tree.c search_pdir 1/1 : __CPROVER_assigns(i, PO.attr_var.var) __CPROVER_loop_invariant(i <= COUNT && IMPLIES(PRESENT, i <= G)) __CPROVER_decreases(COUNT - i)
//@ cbmc --unwind 16 --object-bits 10
//@ bounded --unwind 6 --unwinding-assertions --bounds-check --pointer-check
//@ assume index_lookup: the indexes are read through INDEX, which stands for them by two: the one of the attribute, if there is one (G), and one for all the others; the bounded run keeps the array
#include "spec.h"
#include "tree.h"
static struct pnode PX, PO, PS[4]; static size_t G, COUNT, VAR; static bool PRESENT; static const struct pdir* DIR;
static struct pnode* index_at(const struct pdir* d, size_t k) { ASSERT(d == DIR && k < COUNT, "inside of the directory"); if(PRESENT && k == G) return &PX; size_t v; ASSUME(v != VAR); PO.attr_var.var = v; return &PO; }
#define INDEX(d, k) index_at(d, k)
#include "tree.c"
int main()
{
    size_t n, g, v; ASSUME(n < (size_t)1 << 40); COUNT = n; G = g; VAR = v; bool p; PRESENT = p && g < n; PX.attr_var.var = v; struct pdir d; DIR = &d; d.pnode_count = n; bool none;
#ifdef BOUNDED
    ASSUME(n <= 4); static struct pnode* a[4]; for(size_t k = 0; k < 4; k++) { size_t w; ASSUME(w != v); PS[k].attr_var.var = w; a[k] = PRESENT && k == g ? &PX : &PS[k]; } d.pnodes = a;
#endif
    ASSERT(search_pdir(v, none ? NULL : &d) == (PRESENT && !none ? &PX : NULL), "the index of the attribute, when there is one");
    REACH();
}

//@ what releasing a subscription, an event, a value of an event, a leaf or a node of the index releases each block it owns and each thing below it exactly once, the block itself last, and nothing else, whatever the number of its parts (induction over the index: what is below is released by the same contract)
//@ props C19
//@ functions free_sub free_pred free_event free_lnode free_cnode free_pdir free_cdir free_pnode free_memoize free_attr_var
//@ cut tree.c (?<!void )\bfree_sub\( => b_sub(
//@ cut tree.c (?<!void )\bfree_pred\( => b_pred(
//@ cut tree.c (?<!void )\bfree_lnode\( => b_lnode(
//@ cut tree.c (?<!void )\bfree_pdir\( => b_pdir(
//@ cut tree.c (?<!void )\bfree_cnode\( => b_cnode(
//@ cut tree.c (?<!void )\bfree_cdir\( => b_cdir(
//@ cut tree.c (?<!void )\bfree_pnode\( => b_pnode(
//@ rewrite tree.c (?<![\w>.])(\w+)->(variables|subs|pnodes)\[([^\]]+)\] => (*(__typeof__(\1->\2[0])*)cell_at(\1, \3))
//@ loop tree.c free_event 1/1 : __CPROVER_assigns(i, T) __CPROVER_loop_invariant(i <= COUNT && T.me == (i > G && G < COUNT && !GNULL)) __CPROVER_decreases(COUNT - i)
//@ loop tree.c free_lnode 1/1 : __CPROVER_assigns(i, T) __CPROVER_loop_invariant(i <= COUNT && T.me == (i > G && G < COUNT)) __CPROVER_decreases(COUNT - i)
//@ loop tree.c free_pdir 1/1 : __CPROVER_assigns(i, T) __CPROVER_loop_invariant(i <= COUNT && T.me == (i > G && G < COUNT)) __CPROVER_decreases(COUNT - i)
//@ cbmc --unwind 16 --object-bits 10
//@ bounded --unwind 6 --unwinding-assertions --bounds-check --pointer-check
//@ assume given_back: the elements of an array are read through cell_at, which stands for them by two: one arbitrary one (G) and one for all the others; the bounded run keeps the array; expressions and values are released by units released and emptied
//@ variant sub -DV=0
//@ variant value -DV=1
//@ variant event -DV=2
//@ variant leaf -DV=3
//@ variant cnode -DV=4
//@ variant pdir -DV=5
//@ variant cdir -DV=6
//@ variant pnode -DV=7
//@ variant memoize -DV=8
//@ variant attr_var -DV=9
#include "spec.h"
#include "alloc.h"
#include "tree.h"
static size_t G, COUNT; static bool GNULL; static struct { int me; unsigned other; } T; static int CNT[5]; static void* OWN[5];
static char B1, B2, B3, B4, XG, XO; static void* ARR[4];
/* OWN[0] is the thing itself, OWN[1] its array if it has one */
static void give(const void* p)
{
    if(p == NULL) return;
    ASSERT(CNT[0] == 0, "the block itself is the last");
    if(V == 2 || V == 3 || V == 5) {
        if(p == &XG) { ASSERT(CNT[1] == 0, "an element, before the array"); T.me++; return; }
        if(p == &XO) { ASSERT(CNT[1] == 0, "an element, before the array"); T.other++; return; }
    }
    if(p == OWN[0]) CNT[0]++; else if(p == OWN[1]) CNT[1]++; else if(p == OWN[2]) CNT[2]++; else if(p == OWN[3]) CNT[3]++;
    else { ASSERT(p == OWN[4], "nothing else is released"); CNT[4]++; }
}
void model_free(void* p) { give(p); }
void b_sub(struct betree_sub* x) { give(x); }
void b_pred(struct betree_variable* x) { give(x); }
void b_lnode(struct lnode* x) { give(x); }
void b_pdir(struct pdir* x) { give(x); }
void b_cnode(struct cnode* x) { give(x); }
void b_cdir(struct cdir* x) { give(x); }
void b_pnode(struct pnode* x) { give(x); }
#undef bfree
#define bfree model_free
static void *PG, *PO;
static void** cell_at(const void* l, size_t k) { ASSERT(l == OWN[0] && k < COUNT && CNT[1] == 0, "inside of the array"); return k == G ? &PG : &PO; }
#include "tree.c"
void free_ast_node(struct ast_node* n) { give(n); }
void free_value(struct value v) { give(v.string_value.string); }
static bool any(void) { bool b; return b ? true : false; }
#define MAYBE(p) (any() ? (void*)(p) : NULL)
int main()
{
    size_t n, g; ASSUME(n < (size_t)1 << 40); G = g; COUNT = n; T.me = T.other = 0; GNULL = V == 2 ? any() : false; for(int k = 0; k < 5; k++) { CNT[k] = 0; OWN[k] = NULL; }
#ifdef BOUNDED
    ASSUME(n <= 4); for(size_t k = 0; k < 4; k++) ARR[k] = k == g ? (GNULL ? NULL : &XG) : &XO;
#endif
    PG = GNULL ? NULL : &XG; PO = &XO; bool nothing = V < 8 && V != 7 ? any() : false;
#if V == 0
    static struct betree_sub s; OWN[0] = &s; s.attr_vars = OWN[1] = MAYBE(&B1); s.expr = OWN[2] = MAYBE(&B2); s.short_circuit.pass = OWN[3] = MAYBE(&B3); s.short_circuit.fail = OWN[4] = MAYBE(&B4);
    free_sub(nothing ? NULL : &s);
#elif V == 1
    static struct betree_variable s; OWN[0] = &s; s.attr_var.attr = OWN[1] = MAYBE(&B1); s.value.value_type = BETREE_STRING; s.value.string_value.string = OWN[2] = MAYBE(&B2);
    free_pred(nothing ? NULL : &s);
#elif V == 2
    static struct betree_event s; OWN[0] = &s; s.variable_count = n; s.variables = OWN[1] = ARR;
    free_event(nothing ? NULL : &s);
#elif V == 3
    static struct lnode s; OWN[0] = &s; s.sub_count = n; s.subs = OWN[1] = ARR;
    free_lnode(nothing ? NULL : &s);
#elif V == 4
    static struct cnode s; OWN[0] = &s; s.lnode = OWN[1] = MAYBE(&B1); s.pdir = OWN[2] = MAYBE(&B2);
    free_cnode(nothing ? NULL : &s);
#elif V == 5
    static struct pdir s; OWN[0] = &s; s.pnode_count = n; s.pnodes = OWN[1] = ARR;
    free_pdir(nothing ? NULL : &s);
#elif V == 6
    static struct cdir s; OWN[0] = &s; s.attr_var.attr = OWN[1] = MAYBE(&B1); s.cnode = OWN[2] = MAYBE(&B2); s.lchild = OWN[3] = MAYBE(&B3); s.rchild = OWN[4] = MAYBE(&B4);
    free_cdir(nothing ? NULL : &s);
#elif V == 7
    static struct pnode s; OWN[0] = &s; s.attr_var.attr = OWN[1] = MAYBE(&B1); s.cdir = OWN[2] = MAYBE(&B2);
    free_pnode(&s);
#elif V == 8
    struct memoize m; m.pass = OWN[1] = MAYBE(&B1); m.fail = OWN[2] = MAYBE(&B2); free_memoize(m);
#else
    struct attr_var a; a.attr = OWN[1] = MAYBE(&B1); free_attr_var(a);
#endif
    ASSERT(CNT[0] == (V < 8 && !nothing), "the block itself is released, once");
    ASSERT(CNT[1] == (OWN[1] != NULL && !nothing), "and its first part"); ASSERT(CNT[2] == (OWN[2] != NULL && !nothing), "and its second part");
    ASSERT(CNT[3] == (OWN[3] != NULL && !nothing), "and its third part"); ASSERT(CNT[4] == (OWN[4] != NULL && !nothing), "and its fourth part");
    if(V == 2 || V == 3 || V == 5) ASSERT(T.me == (g < n && !GNULL && !nothing), "and each of its elements, once");
    REACH();
}

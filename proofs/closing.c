//@ what closing a tree releases its index, its declared variables, dictionaries and shared predicates with their names and contents, its configuration and itself, each exactly once and nothing else, whatever their number; so does releasing a report, a constant, a list of constants, a value of an event
//@ props C19
//@ functions betree_free betree_deinit free_config free_pred_map free_report betree_free_constant betree_free_constants betree_free_variable betree_free_event
//@ cut config.c (?<!void )\bfree_pred_map\( => b_pred_map(
//@ cut betree.c (?<!void )\bbetree_free_constant\( => b_constant(
//@ rewrite config.c (?<![\w>.])(\w+)->(attr_domains|integer_maps|string_maps)\[([^\]]+)\] => (*(__typeof__(&\1->\2[0]))cell_at(\1->\2, \3))
//@ rewrite betree.c (?<![\w>.])constants\[i\] => (*(__typeof__(&constants[0]))cell_at(constants, i))
//@ loop config.c free_config 1/3 : __CPROVER_assigns(i, T) __CPROVER_loop_invariant(i <= COUNT[0] && T.me[0] == (i > G && G < COUNT[0]) && T.name[0] == T.me[0] && T.me[1] == 0 && T.me[2] == 0 && T.name[1] == 0 && T.name[2] == 0) __CPROVER_decreases(COUNT[0] - i)
//@ loop config.c free_config 2/3 : __CPROVER_assigns(i, T) __CPROVER_loop_invariant(i <= COUNT[1] && T.me[1] == (i > G && G < COUNT[1]) && T.name[1] == T.me[1] && T.me[0] == (HAS[0] && G < COUNT[0]) && T.name[0] == T.me[0] && T.me[2] == 0 && T.name[2] == 0) __CPROVER_decreases(COUNT[1] - i)
//@ loop config.c free_config 3/3 : __CPROVER_assigns(i, T) __CPROVER_loop_invariant(i <= COUNT[2] && T.me[2] == (i > G && G < COUNT[2]) && T.name[2] == T.me[2] && T.me[0] == (HAS[0] && G < COUNT[0]) && T.name[0] == T.me[0] && T.me[1] == (HAS[1] && G < COUNT[1]) && T.name[1] == T.me[1]) __CPROVER_decreases(COUNT[2] - i)
//@ loop betree.c betree_free_constants 1/1 : __CPROVER_assigns(i, T) __CPROVER_loop_invariant(i <= COUNT[0] && T.me[0] == (i > G && G < COUNT[0] && !GNULL)) __CPROVER_decreases(COUNT[0] - i)
//@ cbmc --unwind 16 --object-bits 10
//@ bounded --unwind 8 --unwinding-assertions --bounds-check --pointer-check
//@ assume closing: the elements of an array are read through cell_at, which stands for them by two: one arbitrary one (G) and one for all the others; the bounded run keeps the arrays; the index is released by unit given_back, a dictionary by unit map_growth, the values by units released and emptied, the shared predicates by the bounded unit ordered_set
//@ variant config -DV=0
//@ variant tree -DV=1
//@ variant preds -DV=2
//@ variant report -DV=3
//@ variant constant -DV=4
//@ variant constants -DV=5
//@ variant value -DV=6
//@ variant event -DV=7
#include "spec.h"
#include "alloc.h"
#include "tree.h"
#include "hashmap.h"
static size_t G, COUNT[3]; static bool GNULL, HAS[3]; static struct { int me[3], name[3]; unsigned other; } T; static int CNT[6]; static void* OWN[6];
static char B1, B2, B3, B4, B5, NG[3], NO, XG, XO; static struct attr_domain DG, DO; static struct integer_map IG, IO; static struct string_map SG, SO; static char VG, VO;
static void give(const void* p)
{
    if(p == NULL) return;
    ASSERT(CNT[0] == 0, "the block itself is the last");
    if(V == 0) {
        if(p == &NO || p == &DO || p == &VO || p == &SO.m) { T.other++; return; }
        if(p == &NG[0]) { ASSERT(CNT[1] == 0 && T.me[0] == 0, "a name, before what it names"); T.name[0]++; return; }
        if(p == &NG[1]) { ASSERT(CNT[2] == 0, "a name, before the array"); T.name[1]++; return; }
        if(p == &NG[2]) { ASSERT(CNT[3] == 0, "a name, before the array"); T.name[2]++; return; }
        if(p == &DG) { ASSERT(CNT[1] == 0, "a declared variable, before the array"); T.me[0]++; return; }
        if(p == &VG) { ASSERT(CNT[2] == 0, "the values, before the array"); T.me[1]++; return; }
        if(p == &SG.m) { ASSERT(CNT[3] == 0, "a dictionary, before the array"); T.me[2]++; return; }
    }
    if(V == 5) { if(p == &XG) T.me[0]++; else { ASSERT(p == &XO, "nothing else is released"); T.other++; } return; }
    if(p == OWN[0]) CNT[0]++; else if(p == OWN[1]) CNT[1]++; else if(p == OWN[2]) CNT[2]++; else if(p == OWN[3]) CNT[3]++; else if(p == OWN[4]) CNT[4]++;
    else { ASSERT(p == OWN[5], "nothing else is released"); CNT[5]++; }
}
void model_free(void* p) { give(p); }
void b_pred_map(struct pred_map* x) { give(x); }
void b_constant(struct betree_constant* x) { give(x); }
#undef bfree
#define bfree model_free
static struct attr_domain *PDG, *PDO; static struct betree_constant *PG, *PO;
static void* cell_at(const void* l, size_t k)
{
    if(V == 5) { ASSERT(l == OWN[1] && k < COUNT[0], "inside of the array"); return k == G ? &PG : &PO; }
    if(l == OWN[1]) { ASSERT(k < COUNT[0] && CNT[1] == 0, "inside of the array"); return k == G ? &PDG : &PDO; }
    if(l == OWN[2]) { ASSERT(k < COUNT[1] && CNT[2] == 0, "inside of the array"); return k == G ? &IG : &IO; }
    ASSERT(l == OWN[3] && k < COUNT[2] && CNT[3] == 0, "inside of the array"); return k == G ? &SG : &SO;
}
#include "config.c"
#include "betree.c"
#include "hashmap.c"
void free_value(struct value v) { give(v.string_value.string); }
void free_cnode(struct cnode* x) { give(x); }
void free_event(struct betree_event* x) { give(x); }
void map_deinit_(map_base_t* m) { give(m); }
void jsw_rbdelete(struct jsw_rbtree* x) { give(x); }
static bool any(void) { bool b; return b ? true : false; }
#define MAYBE(p) (any() ? (void*)(p) : NULL)
int main()
{
    size_t g; G = g; T.other = 0; GNULL = false; for(int k = 0; k < 3; k++) { size_t n; ASSUME(n < (size_t)1 << 40); COUNT[k] = n; T.me[k] = T.name[k] = 0; HAS[k] = any(); } for(int k = 0; k < 6; k++) { CNT[k] = 0; OWN[k] = NULL; }
#ifdef BOUNDED
    static struct attr_domain* AD[3]; static struct integer_map AI[3]; static struct string_map AS[3]; static struct betree_constant* AC[3];
#else
    static struct attr_domain* AD[1]; static struct integer_map AI[1]; static struct string_map AS[1]; static struct betree_constant* AC[1];
#endif
    bool nothing = false;
    DG.attr_var.attr = &NG[0]; IG.attr_var.attr = &NG[1]; SG.attr_var.attr = &NG[2]; DO.attr_var.attr = IO.attr_var.attr = SO.attr_var.attr = &NO; IG.integer_values = (void*)&VG; IO.integer_values = (void*)&VO; PDG = &DG; PDO = &DO;
#if V == 0
#ifdef BOUNDED
    /* the dictionaries are told apart by their address: one element each */
    ASSUME(COUNT[0] <= 3 && COUNT[1] <= 3 && COUNT[2] == 0 && g < 3); for(size_t k = 0; k < 3; k++) { AD[k] = k == g ? &DG : &DO; AI[k] = k == g ? IG : IO; AS[k] = k == g ? SG : SO; }
#endif
    static struct config s; OWN[0] = &s; nothing = any(); s.attr_domain_count = COUNT[0]; s.integer_map_count = COUNT[1]; s.string_map_count = COUNT[2];
    s.attr_domains = OWN[1] = HAS[0] ? AD : NULL; s.integer_maps = OWN[2] = HAS[1] ? AI : NULL; s.string_maps = OWN[3] = HAS[2] ? AS : NULL; s.pred_map = OWN[4] = MAYBE(&B4);
    free_config(nothing ? NULL : &s);
    for(int k = 0; k < 3; k++) { ASSERT(T.me[k] == (!nothing && HAS[k] && g < COUNT[k]), "each element with what it holds, once"); ASSERT(T.name[k] == T.me[k], "and its name"); }
#elif V == 1
    static struct betree s; static struct config c; bool alone = any(); OWN[0] = alone ? &c : (void*)&s; s.cnode = OWN[1] = MAYBE(&B1); s.config = &c; if(!alone) OWN[5] = &c;
    c.attr_domains = NULL; c.integer_maps = NULL; c.string_maps = NULL; c.pred_map = OWN[4] = MAYBE(&B4);
    if(alone) betree_deinit(&s); else betree_free(&s);
#elif V == 2
    static struct pred_map s; OWN[0] = &s; s.m = OWN[1] = (void*)&B1; free_pred_map(&s);
#elif V == 3
    static struct report s; OWN[0] = &s; s.subs = OWN[1] = MAYBE(&B1); free_report(&s);
#elif V == 4
    static struct betree_constant s; OWN[0] = &s; s.name = OWN[1] = MAYBE(&B1); s.value.string_value.string = OWN[2] = MAYBE(&B2); betree_free_constant(&s);
#elif V == 5
    GNULL = any(); PG = GNULL ? NULL : (void*)&XG; PO = (void*)&XO; OWN[1] = AC;
#ifdef BOUNDED
    ASSUME(COUNT[0] <= 3); for(size_t k = 0; k < 3; k++) AC[k] = k == g ? PG : PO;
#endif
    betree_free_constants(COUNT[0], AC); OWN[1] = NULL;
    ASSERT(T.me[0] == (g < COUNT[0] && !GNULL), "each constant, once; the array is its owner's");
#elif V == 6
    static struct betree_variable s; OWN[0] = &s; s.attr_var.attr = OWN[1] = MAYBE(&B1); s.value.string_value.string = OWN[2] = MAYBE(&B2); betree_free_variable(&s);
#else
    OWN[0] = &B1; betree_free_event((void*)&B1);
#endif
    ASSERT(CNT[0] == (OWN[0] != NULL && !nothing), "the block itself is released, once");
    for(int k = 1; k < 6; k++) ASSERT(CNT[k] == (OWN[k] != NULL && !nothing), "and each of its parts, once");
    REACH();
}

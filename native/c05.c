/* C05: after each insertion the leaves hold the subscriptions they held and the new one, each once. */
#include "trees.h"
const char* family_name = "C05 insertion";
static const struct betree_sub* before[2 * MAXSUB]; static const struct betree_sub* after[2 * MAXSUB];
static int cmp_p(const void* a, const void* b) { uintptr_t x = (uintptr_t)*(void* const*)a, y = (uintptr_t)*(void* const*)b; return x < y ? -1 : x > y; }
void family_round(void)
{
    static struct world w; int caps[] = { 1, 1, 2, 3, 3, 4, 7, 0 };
    w_open(&w, (struct schema_opt){ .max_each = 2, .specials = coin(30), .one_type = coin(40), .extreme = coin(30), .all_undef = coin(50) }, caps[rn(8)], rn(4));
    int total = 10 + rn(120); int only = coin(60) ? rn(w.s.n) : -1; size_t nb = 0;
    for(int i = 0; i < total; i++) {
        betree_sub_t id = coin(15) && i ? 1 + (betree_sub_t)rn(i) : coin(10) ? rnd() : (betree_sub_t)i + 1;
        struct ex* e = coin(30) && w.n ? ex_copy(w.sub[rn(w.n)].e) : gen_expr(&w.s, (struct ex_opt){ .depth = rn(3), .nulls = coin(30), .specials = true, .lit_pct = 3, .only_var = only });
        bool ok = w_add(&w, id, e, coin(10));
        size_t na = walk_subs(w.t->cnode, after, 2 * MAXSUB); if(na > 2 * MAXSUB) na = 2 * MAXSUB;
        if(na != nb + (ok ? 1 : 0)) sfail("the tree held %zu subscriptions and holds %zu after an insertion that %s", nb, na, ok ? "succeeded" : "was refused");
        qsort(after, na, sizeof *after, cmp_p);
        size_t a = 0, b = 0, fresh = 0;
        while(a < na) {
            if(a && after[a] == after[a - 1]) sfail("subscription %llu is in the tree twice", (unsigned long long)after[a]->id);
            if(b < nb && before[b] == after[a]) { a++; b++; continue; }
            fresh++; if(after[a]->id != id) sfail("subscription %llu appeared, %llu was inserted", (unsigned long long)after[a]->id, (unsigned long long)id);
            a++;
        }
        if(b != nb) sfail("a subscription of the tree was lost");
        if(fresh != (ok ? 1u : 0u)) sfail("%zu new subscriptions in the tree", fresh);
        memcpy(before, after, na * sizeof *after); nb = na;
    }
    /* they hold the expressions they were given */
    w_nodes(&w);
    for(size_t k = 0; k < nb; k++) {
        bool same = false;
        for(int i = 0; i < w.n && !same; i++) same = w.sub[i].id == before[k]->id && eq_expr(w.sub[i].node, before[k]->expr);
        if(!same) sfail("subscription %llu does not hold the expression it was given", (unsigned long long)before[k]->id);
    }
    w_close(&w);
}

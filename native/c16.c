/* C16: insertion always ends, with no abort, for the widest and narrowest domains and any parameters; halves of a range. */
#include "trees.h"
const char* family_name = "C16 splitting";
static void chk_cnode(const struct cnode* c);
static void chk_cdir(const struct cdir* d)
{
    if(!d) return;
    const struct cdir *l = d->lchild, *r = d->rchild; const char* nm = d->attr_var.attr;
    if((l == NULL) != (r == NULL)) sfail("only one half of a range of %s", nm);
    if(l) {
        switch(d->bound.value_type) {
#define HALVES(mn, mx, T, disc) do { T a = d->bound.mn, b = d->bound.mx, la = l->bound.mn, lb = l->bound.mx, ra = r->bound.mn, rb = r->bound.mx; \
            if(la != a || rb != b) sfail("halves of a range of %s don't reach its ends", nm); \
            if(lb > ra) sfail("halves of a range of %s overlap", nm); \
            if(disc && lb != ra && lb + 1 != ra) sfail("halves of a range of %s leave values out", nm); \
            if(lb < la || rb < ra || lb >= b || ra <= a) sfail("a half of a range of %s is not smaller than it", nm); } while(0)
            case BETREE_INTEGER: case BETREE_INTEGER_LIST: HALVES(imin, imax, int64_t, 1); break;
            case BETREE_FLOAT: HALVES(fmin, fmax, double, 0); break;
            case BETREE_BOOLEAN: HALVES(bmin, bmax, int, 1); break;
            default: HALVES(smin, smax, size_t, 1); break;
        }
    }
    chk_cnode(d->cnode); chk_cdir(l); chk_cdir(r);
}
static void chk_cnode(const struct cnode* c) { if(c && c->pdir) for(size_t i = 0; i < c->pdir->pnode_count; i++) chk_cdir(c->pdir->pnodes[i]->cdir); }
void family_round(void)
{
    static struct world w; static const int64_t caps[] = { 0, 1, 2, 3, 5, 255, 256, 257, 300, 512, 65536, 4294967296ll, -1 }; static const int64_t parts[] = { 0, 1, 2, 3, 255, 256, 1000, -1 };
    memset(&w, 0, sizeof w); gen_schema(&w.s, (struct schema_opt){ .max_each = 2, .specials = coin(30), .extreme = true, .one_type = coin(60), .all_undef = coin(60) }); log_schema(&w.s);
    if(coin(25)) { w.t = betree_make(); slog("tree with default parameters\n"); }
    else { int64_t c = caps[coin(60) ? rn(5) : rn(13)], p = parts[coin(70) ? 0 : rn(8)]; slog("tree with parameters %llu %llu\n", (unsigned long long)c, (unsigned long long)p); w.t = betree_make_with_parameters((uint64_t)c, (uint64_t)p); }
    apply_schema(w.t, &w.s); w.c = make_consts();
    int total = 5 + rn(coin(10) ? 300 : 60), only = coin(60) ? rn(w.s.n) : -1; struct ex* rep = NULL;
    for(int i = 0; i < total; i++) {
        struct ex* e = rep && coin(50) ? ex_copy(rep) : gen_expr(&w.s, (struct ex_opt){ .depth = coin(70) ? 0 : rn(4), .nulls = true, .specials = true, .lit_pct = 2, .only_var = only });
        if(!rep || coin(5)) { if(rep) free_ex(rep); rep = ex_copy(e); }
        if(coin(4)) { char* tx = ex_text(&w.s, e); slog("change boundaries: %s\n", tx); betree_change_boundaries(w.t, tx); free(tx); }
        w_add(&w, (betree_sub_t)i + 1, e, coin(10));
        chk_cnode(w.t->cnode);
    }
    if(rep) free_ex(rep);
    const struct betree_sub* all[MAXSUB]; size_t n = walk_subs(w.t->cnode, all, MAXSUB); if((int)n != w.n) sfail("%d subscriptions were accepted, the tree holds %zu", w.n, n);
    static struct oevent ev; for(int j = 0; j < 3; j++) { gen_event(&w.s, &ev, 20); struct report* r = w_search(&w, &ev, false); if(!r) sfail("search refused"); free_report(r); }
    w_close(&w);
}

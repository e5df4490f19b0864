/* C11: boundaries only widen, cover the constants used, and stay put for variables not used. */
#include "trees.h"
const char* family_name = "C11 boundaries";
struct need { bool any; int64_t lo, hi; double flo, fhi; };
static struct need nd[MAXV];
static void ni(int v, int64_t x) { struct need* n = &nd[v]; if(!n->any) { n->lo = n->hi = x; n->any = true; } else { if(x < n->lo) n->lo = x; if(x > n->hi) n->hi = x; } }
static void nf(int v, double x) { struct need* n = &nd[v]; if(!n->any) { n->flo = n->fhi = x; n->any = true; } else { if(x < n->flo) n->flo = x; if(x > n->fhi) n->fhi = x; } }
static void walk(const struct schema* s, const struct ex* e, bool inv)
{
    switch(e->k) {
        case O_AND: case O_OR: walk(s, e->l, inv); walk(s, e->r_, inv); return;
        case O_NOT: walk(s, e->l, !inv); return;
        case O_CMP: {
            int op = e->op; if(inv) { static const int r[] = { 3, 2, 1, 0 }; op = r[op]; }
            if(e->isf) nf(e->v, op == 0 ? e->f - DBL_EPSILON : op == 2 ? e->f + DBL_EPSILON : e->f);
            else ni(e->v, op == 0 ? (e->i == INT64_MIN ? e->i : e->i - 1) : op == 2 ? (e->i == INT64_MAX ? e->i : e->i + 1) : e->i);
            return; }
        case O_EQ: case O_INVAR: if(e->is_s || s->v[e->v].t == BETREE_INTEGER_ENUM) nd[e->v].any = true; else if(e->isf) nf(e->v, e->f); else ni(e->v, e->i); return;
        case O_VARIN: case O_LIST: nd[e->v].any = nd[e->v].any || e->is_s; if(!e->is_s) for(int j = 0; j < e->n; j++) ni(e->v, e->il[j]); return;
        default: return;
    }
}
static bool strs_fit(const struct world* w, const struct ex* e)
{
    if(!e) return true;
    if(!strs_fit(w, e->l) || !strs_fit(w, e->r_)) return false;
    if(e->v < 0) return true;
    int v = e->v; const struct attr_domain* d = w->t->config->attr_domains[v];
    if(e->is_s && (e->k == O_EQ || e->k == O_INVAR || e->k == O_VARIN || e->k == O_LIST)) {
        int n = e->k == O_VARIN || e->k == O_LIST ? e->n : 1;
        for(int j = 0; j < n; j++) { betree_str_t id = try_get_id_for_string(w->t->config, d->attr_var, pool[n == 1 && e->k != O_VARIN && e->k != O_LIST ? e->s : e->sl[j]]); if(id == INVALID_STR || id > d->bound.smax) return false; }
    }
    if(e->k == O_EQ && w->s.v[v].t == BETREE_INTEGER_ENUM) { betree_ienum_t id = try_get_id_for_ienum(w->t->config, d->attr_var, e->i); if(id == INVALID_IENUM || id > d->bound.smax) return false; }
    return true;
}
static int64_t lo_lim(int64_t x) { return x == INT64_MIN ? x + 1 : x; }
static int64_t hi_lim(int64_t x) { return x == INT64_MAX ? x - 1 : x; }
static void extreme(struct ex* e, const struct schema* s)
{
    if(!e) return;
    extreme(e->l, s); extreme(e->r_, s);
    if((e->k == O_CMP || e->k == O_EQ) && e->v >= 0 && !e->isf && !e->is_s && s->v[e->v].t == BETREE_INTEGER && coin(8)) { static const int64_t x[] = { INT64_MAX, INT64_MIN + 1, INT64_MAX - 1, INT64_MIN + 2 }; e->i = x[rn(4)]; }
}
void family_round(void)
{
    static struct world w; w_open(&w, (struct schema_opt){ .max_each = 2, .specials = true, .all_undef = true, .extreme = coin(30), .tight_strings = coin(50) }, 0, 0);
    static struct value_bound old[MAXV];
    for(int i = 0; i < 25; i++) {
        struct ex* e = gen_expr(&w.s, (struct ex_opt){ .depth = rn(4), .nulls = true, .specials = true, .lit_pct = 3, .only_var = coin(30) ? rn(w.s.n) : -1 }); extreme(e, &w.s);
        memset(nd, 0, sizeof nd); walk(&w.s, e, false);
        for(int v = 0; v < w.s.n; v++) old[v] = w.t->config->attr_domains[v]->bound;
        char* tx = ex_text(&w.s, e); bool ok; int how = rn(3);
        slog("%s: %s\n", how ? "change boundaries" : "make_sub", tx);
        if(how) ok = betree_change_boundaries(w.t, tx); else { const struct betree_sub* x = betree_make_sub(w.t, (betree_sub_t)i, w.c.n, (const struct betree_constant**)w.c.c, tx); ok = x != NULL; if(x) betree_insert_sub(w.t, x); }
        free(tx);
        if(how && !ok) sfail("refused");
        for(int v = 0; v < w.s.n; v++) {
            const struct value_bound *o = &old[v], *b = &w.t->config->attr_domains[v]->bound; const char* nm = w.s.v[v].name; struct need* n = &nd[v];
            if(b->value_type != o->value_type) sfail("type of %s changed", nm);
            switch(w.s.v[v].t) {
                case BETREE_INTEGER: case BETREE_INTEGER_LIST:
                    if((!n->any || !ok) && (b->imin != o->imin || b->imax != o->imax)) sfail("boundaries of %s, not used, changed", nm);
                    if((o->imin != INT64_MIN && b->imin > o->imin) || (o->imax != INT64_MAX && b->imax < o->imax)) sfail("boundaries of %s got narrower: [%lld, %lld]", nm, (long long)b->imin, (long long)b->imax);
                    if(ok && n->any && (b->imin > lo_lim(n->lo) || b->imax < hi_lim(n->hi))) sfail("boundaries of %s, [%lld, %lld], don't cover the constants", nm, (long long)b->imin, (long long)b->imax);
                    break;
                case BETREE_FLOAT:
                    if((!n->any || !ok) && (b->fmin != o->fmin || b->fmax != o->fmax)) sfail("boundaries of %s, not used, changed", nm);
                    if((o->fmin != -DBL_MAX && b->fmin > o->fmin) || (o->fmax != DBL_MAX && b->fmax < o->fmax)) sfail("boundaries of %s got narrower: [%g, %g]", nm, b->fmin, b->fmax);
                    if(ok && n->any && (b->fmin > n->flo || b->fmax < n->fhi)) sfail("boundaries of %s, [%g, %g], don't cover the constants", nm, b->fmin, b->fmax);
                    break;
                case BETREE_STRING: case BETREE_STRING_LIST: case BETREE_INTEGER_ENUM:
                    if((!n->any || !ok) && (b->smin != o->smin || b->smax != o->smax)) sfail("boundaries of %s, not used, changed", nm);
                    if(b->smin > o->smin || (o->smax < SIZE_MAX - 1 && b->smax < o->smax)) sfail("boundaries of %s got narrower", nm);
                    break;
                default: if(memcmp(b, o, sizeof *b)) sfail("boundaries of %s changed", nm);
            }
        }
        if(ok && !strs_fit(&w, e)) sfail("the boundaries don't cover a value of the expression");
        free_ex(e);
    }
    w_close(&w);
}

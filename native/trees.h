/* A tree with its subscriptions, and how each was put in. */
#ifndef TREES_H
#define TREES_H
#include "common.h"
#define MAXSUB 400
struct world { struct schema s; struct betree* t; struct consts c; int n; struct { betree_sub_t id; struct ex* e; struct ast_node* node; } sub[MAXSUB]; };
static inline void w_open(struct world* w, struct schema_opt so, int cap, int part)
{
    memset(w, 0, sizeof *w); gen_schema(&w->s, so); log_schema(&w->s);
    if(cap == 0) { w->t = betree_make(); slog("tree with default parameters\n"); }
    else { w->t = betree_make_with_parameters((uint64_t)cap, (uint64_t)part); slog("tree with parameters %d %d\n", cap, part); }
    apply_schema(w->t, &w->s); w->c = make_consts();
}
/* how: 0 insert, 1 make_sub + insert_sub */
static inline bool w_add(struct world* w, betree_sub_t id, struct ex* e, int how)
{
    char* tx = ex_text(&w->s, e); bool ok;
    slog("insert%s %llu: %s\n", how ? " (make_sub)" : "", (unsigned long long)id, tx);
    if(how == 0) ok = betree_insert_with_constants(w->t, id, w->c.n, (const struct betree_constant**)w->c.c, tx);
    else { const struct betree_sub* x = betree_make_sub(w->t, id, w->c.n, (const struct betree_constant**)w->c.c, tx); ok = x && betree_insert_sub(w->t, x); }
    free(tx);
    if(!ok) { slog("  refused\n"); free_ex(e); return false; }
    w->sub[w->n].id = id; w->sub[w->n].e = e; w->sub[w->n].node = NULL; w->n++;
    return true;
}
static inline void w_nodes(struct world* w) { for(int i = 0; i < w->n; i++) if(!w->sub[i].node) w->sub[i].node = direct_node(w->t, w->sub[i].e, &w->s); }
static inline void w_close(struct world* w)
{
    for(int i = 0; i < w->n; i++) { free_ex(w->sub[i].e); if(w->sub[i].node) free_ast_node(w->sub[i].node); }
    free_consts(&w->c); betree_free(w->t);
}
/* search by text or by api; -1 refused */
static inline struct report* w_search(struct world* w, const struct oevent* ev, bool text)
{
    struct report* r = make_report(); bool ok;
    if(text) { char* et = event_text(&w->s, ev); ok = betree_search(w->t, et, r); free(et); }
    else { struct betree_event* a = event_api(w->t, &w->s, ev); ok = betree_search_with_event(w->t, a, r); betree_free_event(a); }
    if(!ok) { free_report(r); return NULL; }
    return r;
}
static inline bool w_exists(struct world* w, const struct oevent* ev, bool text)
{
    bool ok;
    if(text) { char* et = event_text(&w->s, ev); ok = betree_exists(w->t, et); free(et); }
    else { struct betree_event* a = event_api(w->t, &w->s, ev); ok = betree_exists_with_event(w->t, a); betree_free_event(a); }
    return ok;
}
static inline void log_event(const struct world* w, const struct oevent* ev) { char* et = event_text(&w->s, ev); slog("event: %s\n", et); free(et); }
#endif

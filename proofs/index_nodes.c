//@ what a new index of a node covers the whole domain of its attribute, is added after the others, which stay, and starts with an empty leaf; a half has the range given; every node knows its parent
//@ props C05 C18 C02
//@ functions create_pdir create_cdir create_cdir_with_pnode_parent create_cdir_with_cdir_parent make_cnode make_lnode
//@ loop tree.c create_pdir 1/1 : __CPROVER_assigns(i, found, bound, CELL, CELLD) __CPROVER_loop_invariant(i <= V && !found) __CPROVER_decreases(NV - i)
//@ rewrite tree.c (?<![\w>])config->attr_domains\[([^\]]+)\] => DOM(config, \1)
//@ cbmc --unwind 8 --object-bits 10 --bounds-check --pointer-check
//@ bounded --unwind 5 --object-bits 10 --bounds-check --pointer-check
//@ assume index_nodes: realloc gives back a block of the size asked for that holds what the old one held (one arbitrary element is followed), malloc and calloc do not fail; the i-th domain is that of attribute i (unit growth, variant domains)
//@ variant first -DFIRST=1
//@ variant another -DFIRST=0
//@ variant half -DFIRST=2
#include "spec.h"
#include "config.h"
#include "tree.h"
typedef struct pnode* E;
static size_t N, G, V, NV; static E* BASE; static const struct config* CONF; static struct value_bound BV; static struct attr_domain CELLD; static struct attr_domain* CELL;
void* model_realloc(void* p, size_t size)
{
    ASSERT(p == BASE, "the block that grows is the one of the indexes");
    E* q = malloc(size); if(p != NULL && (G + 1) * sizeof(E) <= size) q[G] = ((E*)p)[G];
    free(p); return q;
}
#define realloc model_realloc
#ifndef BOUNDED
static struct attr_domain** dom_at(const struct config* c, size_t i)
{
    ASSERT(c == CONF && i < NV, "the domain read is a declared one");
    CELLD.attr_var.var = i; struct value_bound b; CELLD.bound = b; if(i == V) CELLD.bound = BV;
    CELL = &CELLD; return &CELL;
}
#define DOM(c, i) (*dom_at(c, i))
#endif
char* bstrdup(const char* s) { char* r = malloc(3); r[0] = s[0]; r[1] = s[1]; r[2] = 0; return r; }
#include "tree.c"
#define SAME_BOUND(a) ((a).value_type == BV.value_type && (a).smin == BV.smin && (a).smax == BV.smax)
int main()
{
    struct config conf; CONF = &conf; size_t n, g, v, nv; N = n; G = g; V = v; NV = nv; uint8_t cap; conf.lnode_max_cap = cap; conf.attr_domain_count = nv;
    ASSUME(v < nv && nv < ((size_t)1 << 32) && n < ((size_t)1 << 32) && cap >= 1); struct value_bound b; BV = b; CELL = NULL; BASE = NULL;
#ifdef BOUNDED
    ASSUME(nv <= 3 && n <= 3); static struct attr_domain d3[3]; static struct attr_domain* p3[3]; for(size_t i = 0; i < 3; i++) { d3[i].attr_var.var = i; p3[i] = &d3[i]; if(i == v) d3[i].bound = BV; } conf.attr_domains = p3;
#endif
    struct cnode c; struct pdir d; c.pdir = FIRST == 1 ? NULL : &d; c.parent = NULL; d.parent = &c; E old = NULL;
    if(FIRST == 0) { ASSUME(n >= 1 && g < n); BASE = malloc(n * sizeof(E)); d.pnodes = BASE; d.pnode_count = n; old = BASE[g]; }
    struct cdir* t;
#if FIRST == 2
    struct cdir top; top.attr_var.attr = "ab"; top.attr_var.var = v;
    t = create_cdir_with_cdir_parent(&conf, &top, b);
    ASSERT(t->parent_type == CNODE_PARENT_CDIR && t->cdir_parent == &top, "a half knows the range it is a half of");
    ASSERT(t->attr_var.attr != top.attr_var.attr, "its name is its own");
#else
    struct pnode* p = create_pdir(&conf, "ab", v, &c);
    ASSERT(c.pdir != NULL && IMPLIES(FIRST == 0, c.pdir == &d) && c.pdir->parent == &c, "the node has one directory");
    ASSERT(c.pdir->pnode_count == (FIRST ? 1 : n + 1), "the indexes are one more");
    if(FIRST == 0) ASSERT(c.pdir->pnodes[G] == old, "the other indexes stay");
    ASSERT(c.pdir->pnodes[FIRST ? 0 : n] == p, "the new one is the last");
    ASSERT(p->parent == c.pdir && p->attr_var.var == v && p->attr_var.attr[0] == 'a' && p->attr_var.attr[1] == 'b' && p->attr_var.attr[2] == 0 && p->score >= 0, "it is that of the attribute");
    t = p->cdir; ASSERT(t->parent_type == CNODE_PARENT_PNODE && t->pnode_parent == p, "the range knows its index");
    ASSERT(t->attr_var.attr != p->attr_var.attr, "its name is its own");
#endif
    ASSERT(SAME_BOUND(t->bound), "the range is the one asked for, the whole domain for an index");
    ASSERT(t->attr_var.var == v && t->attr_var.attr[0] == 'a' && t->attr_var.attr[1] == 'b' && t->attr_var.attr[2] == 0, "it is that of the attribute");
    ASSERT(t->lchild == NULL && t->rchild == NULL, "it is not cut yet");
    struct cnode* k = t->cnode; ASSERT(k != NULL && k->parent == t && k->pdir == NULL, "its node has no index yet");
    ASSERT(k->lnode != NULL && k->lnode->parent == k && k->lnode->sub_count == 0 && k->lnode->subs == NULL && k->lnode->max == cap, "its leaf is empty");
    REACH();
}

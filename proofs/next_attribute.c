//@ what the attribute a leaf is split by is one of a subscription of the leaf, that can be split by and that is not used above; one is found whenever there is one
//@ props C05 C16 C02
//@ functions get_next_highest_score_unused_attr
//@ cut tree.c (?<!static bool )\bsplitable_attr_domain\( => can_split(
//@ cut tree.c (?<!static bool )\bis_attr_used_in_parent_lnode\( => used_above(
//@ cut tree.c (?<!static double )\bget_lnode_score\( => score_of(
//@ cut tree.c \bget_attr_domain\( => domain_of(
//@ rewrite tree.c (?<![\w>])lnode->subs\[([^\]]+)\] => READ(lnode, \1)
//@ loop tree.c get_next_highest_score_unused_attr 1/2 : __CPROVER_assigns(i, found, highest_score, highest_var, SEEN, CELL, ISG) __CPROVER_loop_invariant(i <= NS && WF_BOOL(found) && WF_BOOL(SEEN) && (found ? highest_score > 0 && highest_var < NV && IMPLIES(highest_var == X, SPX && !UX && SEEN) : highest_score == 0) && IMPLIES(G < i && HASGX && SPX && !UX, found)) __CPROVER_decreases(NS - i)
//@ loop tree.c get_next_highest_score_unused_attr 2/2 : __CPROVER_assigns(j, found, highest_score, highest_var, SEEN) __CPROVER_loop_invariant(j <= NV && ISG == (i == G) && WF_BOOL(found) && WF_BOOL(SEEN) && (found ? highest_score > 0 && highest_var < NV && IMPLIES(highest_var == X, SPX && !UX && SEEN) : highest_score == 0) && IMPLIES(G < i && HASGX && SPX && !UX, found) && IMPLIES(i == G && X < j && HASGX && SPX && !UX, found)) __CPROVER_decreases(NV - j)
//@ cbmc --unwind 12 --object-bits 10
//@ bounded --unwind 5 --object-bits 10
//@ assume next_attribute: X is any attribute and G any subscription of the leaf (READ gives the one read, any with any attributes, G with its own); the score of an attribute that a subscription of the leaf has is a positive number (unit scores)
#include "spec.h"
#include "config.h"
#include "tree.h"
static struct lnode L; static struct betree_sub SG, SO; static struct betree_sub* CELL; static struct attr_domain ADX, ADO; static const struct config* CONF;
static size_t NS, NV, G, X; static bool SPX, UX, HASGX, SEEN, ISG;
static bool any(void) { bool b; return b ? true : false; }
static struct betree_sub** read_at(const struct lnode* l, size_t i) { ASSERT(l == &L && i < NS, "the subscription read is one of the leaf"); ISG = i == G; CELL = ISG ? &SG : &SO; return &CELL; }
#define READ(l, i) (*read_at(l, i))
const struct attr_domain* domain_of(const struct attr_domain** attr_domains, betree_var_t v) { ASSERT(attr_domains == (const struct attr_domain**)CONF->attr_domains && v < NV, "the domain is that of a declared attribute"); return v == X ? &ADX : &ADO; }
bool can_split(const struct config* config, const struct attr_domain* d) { ASSERT(config == CONF && (d == &ADX || d == &ADO), "the domain is that of an attribute"); return d == &ADX ? SPX : any(); }
bool used_above(betree_var_t v, const struct lnode* l) { ASSERT(l == &L && v < NV, "the attributes used above the leaf"); return v == X ? UX : any(); }
double score_of(const struct attr_domain** attr_domains, const struct lnode* l, betree_var_t v)
{
    ASSERT(l == &L && v < NV, "the score is that of an attribute in the leaf"); double s; if(v != X || SEEN) ASSUME(s > 0 && s <= __DBL_MAX__); else ASSUME(s >= 0 && s <= __DBL_MAX__); return s;
}
bool test_bit(const uint64_t A[], uint64_t k)
{
    ASSERT((A == SG.attr_vars || A == SO.attr_vars) && k < NV, "the attributes are those of a subscription of the leaf");
    if(A == SG.attr_vars) { bool r = k == X ? HASGX : any(); if(k == X && r) SEEN = true; return r; }
    bool r = any(); if(k == X && r) SEEN = true; return r;
}
#include "tree.c"
int main()
{
    struct config conf; CONF = &conf; size_t ns, nv, g, x; NS = ns; NV = nv; G = g; X = x; struct attr_domain** ads; conf.attr_domains = ads; conf.attr_domain_count = nv; L.sub_count = ns;
    ASSUME(x < nv && nv < ((size_t)1 << 32) && ns < ((size_t)1 << 40));
#ifdef BOUNDED
    ASSUME(nv <= 2 && ns <= 2); static struct betree_sub* b2[2]; b2[0] = g == 0 ? &SG : &SO; b2[1] = g == 1 ? &SG : &SO; L.subs = b2;
#endif
    SPX = any(); UX = any(); HASGX = any(); SEEN = false; static uint64_t bg[1], bo[1]; SG.attr_vars = bg; SO.attr_vars = bo; CELL = NULL; ISG = false;
    size_t out = nv; betree_var_t var = out;
    bool r = get_next_highest_score_unused_attr(&conf, &L, &var);
    if(r) { ASSERT(var < NV, "the attribute is declared"); if(var == X) ASSERT(SPX && !UX && SEEN, "the attribute is one a subscription of the leaf uses, it can be split by, and it is not used above"); }
    else ASSERT(!(G < NS && HASGX && SPX && !UX), "one is found when there is one");
    REACH();
}

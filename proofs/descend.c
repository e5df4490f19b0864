//@ what the place an index has for a subscription is found by going to a half only when the half encloses it
//@ props C05 C02
//@ functions insert_cdir is_leaf
//@ cut tree.c (?<!static struct cdir\* )\binsert_cdir\( => half_cdir(
//@ cut tree.c (?<!bool )\bsub_is_enclosed\( => enclosed(
//@ nodfcc
//@ cbmc --bounds-check --pointer-check
//@ assume descend: by induction on the height of the range: the place within a half is one the subscription reaches from there through halves that enclose it; a range has both halves or none (unit clustering)
//@ bounded
#include "spec.h"
#include "config.h"
#include "tree.h"
static struct cdir T, L, R, PL, PR; static const struct config* CONF; static struct betree_sub S; static bool EL, ER;
bool enclosed(const struct attr_domain** attr_domains, const struct betree_sub* sub, const struct cdir* c)
{
    ASSERT(attr_domains == (const struct attr_domain**)CONF->attr_domains && sub == &S && (c == &L || c == &R), "the halves are those of the range"); return c == &L ? EL : ER;
}
struct cdir* half_cdir(const struct config* config, const struct betree_sub* sub, struct cdir* c)
{
    ASSERT(config == CONF && sub == &S && ((c == &L && EL) || (c == &R && ER)), "it goes to a half only when the half encloses it"); return c == &L ? &PL : &PR;
}
#include "tree.c"
static bool any(void) { bool b; return b ? true : false; }
int main()
{
    struct config conf; CONF = &conf; struct attr_domain** ads; conf.attr_domains = ads; EL = any(); ER = any();
    bool leaf = any(); T.lchild = leaf ? NULL : &L; T.rchild = leaf ? NULL : &R;
    struct cdir* r = insert_cdir(&conf, &S, &T);
    ASSERT(r == &T || (!leaf && ((r == &PL && EL) || (r == &PR && ER))), "the place is the range, or one within a half that encloses it");
    if(!leaf && (EL || ER)) ASSERT(r != &T, "it goes as far down as it can");
    REACH();
}

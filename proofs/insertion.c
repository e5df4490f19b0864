//@ what inserting a subscription at a node of the index puts it in exactly one leaf: below the best index of an attribute it uses that is not used above, at the place this index has for it, or in the leaf of the node, which is then split if too full
//@ props C05 C02 C16
//@ functions insert_be_tree is_root
//@ cut tree.c (?<!bool )\binsert_be_tree\( => below_be_tree(
//@ cut tree.c (?<!static struct cdir\* )\binsert_cdir\( => placed_cdir(
//@ cut tree.c (?<!static struct pnode\* )\bsearch_pdir\( => indexed(
//@ cut tree.c (?<!static void )\binsert_sub\( => put_sub(
//@ cut tree.c (?<!static void )\bspace_partitioning\( => part(
//@ cut tree.c (?<!static void )\bspace_clustering\( => cluster(
//@ cut tree.c (?<!static void )\bupdate_partition_score\( => rescore(
//@ cut tree.c (?<!static bool )\bis_used_cnode\( => used_above(
//@ loop tree.c insert_be_tree 1/1 : __CPROVER_assigns(i, foundPartition, max_pnode, max_score, USED, PO.score) __CPROVER_loop_invariant(i <= NV && WF_BOOL(foundPartition) && (foundPartition ? (max_pnode == &PX && OKX && X < i) || max_pnode == &PO : max_pnode == NULL && max_score == NONE) && max_score == max_score && IMPLIES(X < i && OKX && HASP, foundPartition)) __CPROVER_decreases(NV - i)
//@ cbmc --unwind 12 --object-bits 10
//@ bounded --unwind 5
//@ assume insertion: X is any attribute, PX its index and PO that of any other (a subscription of the index of another attribute is that of X for another choice of X); scores are numbers (unit scores); the callees follow the contracts of units descend, leaf, partitioning and clustering
#include "spec.h"
#include "config.h"
#include "tree.h"
static struct pnode PX, PO; static struct cdir TOPX, TOPO, DEST, HERE; static struct cnode C, DC; static struct lnode L; static struct pdir D; static struct betree_sub S;
static const struct config* CONF; static size_t X, NV; static bool HASX, USEDX, HASP, USED; static unsigned PUT, BELOW, PARTED, CLUSTERED, RESCORED; static struct cdir* PLACED; static struct pnode* SCORED;
static bool any(void) { bool b; return b ? true : false; }
#define OKX (HASX && !USEDX)
#define NONE ((float)-DBL_MAX)
void below_be_tree(const struct config* config, const struct betree_sub* sub, struct cnode* cnode, struct cdir* cdir)
{
    ASSERT(config == CONF && sub == &S && cdir == &DEST && cnode == &DC && PLACED != NULL, "it goes below the place of the index made for it"); BELOW++;
}
struct cdir* placed_cdir(const struct config* config, const struct betree_sub* sub, struct cdir* cdir)
{
    ASSERT(config == CONF && sub == &S && (cdir == &TOPX || cdir == &TOPO), "the place of the subscription in the index of an attribute");
    if(cdir == &TOPX) ASSERT(OKX, "it is an attribute the subscription uses, and that is not used above");
    PLACED = cdir; return &DEST;
}
struct pnode* indexed(betree_var_t variable_id, const struct pdir* pdir)
{
    ASSERT(pdir == &D && variable_id < NV, "the indexes are those of the node");
    if(variable_id == X) return HASP ? &PX : NULL;
    float s; ASSUME(s >= 0); PO.score = s; return any() ? &PO : NULL;
}
bool used_above(betree_var_t variable_id, const struct cnode* cnode) { ASSERT(cnode == &C, "the attributes used above the node"); USED = any(); return variable_id == X ? USEDX : USED; }
void put_sub(const struct betree_sub* sub, struct lnode* lnode) { ASSERT(sub == &S && lnode == &L, "the leaf is that of the node"); PUT++; }
void part(const struct config* config, struct cnode* cnode) { ASSERT(config == CONF && cnode == &C && PUT == 1, "the leaf that got the subscription is split"); PARTED++; }
void cluster(const struct config* config, struct cdir* cdir) { ASSERT(config == CONF && cdir == &HERE && PUT == 1, "the leaf that got the subscription is split"); CLUSTERED++; }
void rescore(const struct attr_domain** attr_domains, struct pnode* pnode) { ASSERT(BELOW == 1, "the score is that of the index with the subscription"); SCORED = pnode; RESCORED++; }
bool test_bit(const uint64_t A[], uint64_t k) { ASSERT(A == S.attr_vars && k < NV, "the attributes are those of the subscription"); return k == X ? HASX : any(); }
#include "tree.c"
int main()
{
    struct config conf; CONF = &conf; size_t n, x; NV = n; X = x; conf.attr_domain_count = n; ASSUME(x < n);
#ifdef BOUNDED
    ASSUME(n <= 3);
#else
    ASSUME(n < ((size_t)1 << 32));
#endif
    HASX = any(); USEDX = any(); HASP = any(); static uint64_t bits[1]; S.attr_vars = bits;
    float s0, s1; ASSUME(s0 >= 0 && s1 >= 0); PX.score = s0; PO.score = s1; PX.cdir = &TOPX; PO.cdir = &TOPO; DEST.cnode = &DC; HERE.cnode = &C; C.lnode = &L;
    bool root = any(); C.parent = root ? NULL : &HERE; C.pdir = any() ? &D : NULL;
    PUT = BELOW = PARTED = CLUSTERED = RESCORED = 0; PLACED = NULL;
    bool r = insert_be_tree(&conf, &S, &C, root ? NULL : &HERE);
    ASSERT(r, "the insertion succeeds");
    ASSERT(PUT + BELOW == 1, "the subscription is put in one place, once");
    if(BELOW == 1) {
        ASSERT(C.pdir != NULL && RESCORED == 1 && SCORED == (PLACED == &TOPX ? &PX : &PO), "the index it went to is scored again");
        ASSERT(PARTED == 0 && CLUSTERED == 0, "the leaf of the node is left as it is");
    }
    else {
        ASSERT(PARTED == (root ? 1 : 0) && CLUSTERED == (root ? 0 : 1), "the leaf is split when too full");
        ASSERT(C.pdir == NULL || !(OKX && HASP), "it stays at the node only when no index of the node is for it");
    }
    REACH();
}

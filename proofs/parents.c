//@ what an attribute counts as used above a node exactly when a range of it is on the way to the root: both for choosing an index when inserting and for making one when splitting
//@ props C05 C16
//@ functions is_used_cnode is_used_cdir is_used_pnode is_used_pdir is_attr_used_in_parent_lnode is_attr_used_in_parent_cnode is_attr_used_in_parent_cdir is_attr_used_in_parent_pnode is_attr_used_in_parent_pdir is_root
//@ cut tree.c (?<!static bool )\bis_(?:used|attr_used_in_parent)_cnode\( => used_cnode(
//@ cut tree.c (?<!static bool )\bis_(?:used|attr_used_in_parent)_cdir\( => used_cdir(
//@ cut tree.c (?<!static bool )\bis_(?:used|attr_used_in_parent)_pnode\( => used_pnode(
//@ cut tree.c (?<!static bool )\bis_(?:used|attr_used_in_parent)_pdir\( => used_pdir(
//@ nodfcc
//@ cbmc --bounds-check --pointer-check
//@ assume parents: by induction on the way to the root (a finite one: every node is made below its parent, unit index_nodes): what is above the node follows the same contract
//@ variant inserting -DP=is_used_
//@ variant splitting -DP=is_attr_used_in_parent_
//@ bounded
#include "spec.h"
#include "tree.h"
static struct cnode C; static struct cdir D, DD; static struct pnode PN; static struct pdir PD; static size_t V; static bool UC, UD, UPN, UPD;
bool used_cnode(betree_var_t v, const struct cnode* c) { ASSERT(v == V && c == &C, "the node above"); return UC; }
bool used_cdir(betree_var_t v, const struct cdir* c) { ASSERT(v == V && c == &DD, "the range above"); return UD; }
bool used_pnode(betree_var_t v, const struct pnode* c) { ASSERT(v == V && c == &PN, "the index above"); return UPN; }
bool used_pdir(betree_var_t v, const struct pdir* c) { ASSERT(v == V && c == &PD, "the directory above"); return UPD; }
#include "tree.c"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
static bool any(void) { bool b; return b ? true : false; }
int main()
{
    size_t v, a, b; V = v; D.attr_var.var = a; PN.attr_var.var = b; UC = any(); UD = any(); UPN = any(); UPD = any(); PD.parent = &C; PN.parent = &PD;
    bool root = any(); C.parent = root ? NULL : &DD;
    ASSERT(CAT(P, cnode)(v, &C) == (!root && UD), "above a node: its range, if any");
    if(any()) { D.parent_type = CNODE_PARENT_PNODE; D.pnode_parent = &PN; ASSERT(CAT(P, cdir)(v, &D) == (a == v || UPN), "a whole range: it or what is above its index"); }
    else { D.parent_type = CNODE_PARENT_CDIR; D.cdir_parent = &DD; ASSERT(CAT(P, cdir)(v, &D) == (a == v || UD), "a half: it or what is above it"); }
    ASSERT(CAT(P, pnode)(v, &PN) == (b == v || UPD), "an index: it or what is above its directory");
    ASSERT(CAT(P, pdir)(v, &PD) == UC, "a directory: what is above its node");
    struct lnode l; l.parent = &C; if(&CAT(P, cnode) == &is_attr_used_in_parent_cnode) ASSERT(is_attr_used_in_parent_lnode(v, &l) == UC, "a leaf: what is above its node");
    REACH();
}

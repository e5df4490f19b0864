//@ what a tree made with any parameters has leaves that can hold something, nothing declared, nothing in it, and a root above nothing
//@ props C16 C05
//@ functions betree_make_with_parameters betree_make betree_init betree_make_with_config make_config make_default_config make_pred_map make_cnode make_lnode
//@ nodfcc
//@ cbmc --bounds-check --pointer-check
//@ assume parameters: calloc gives zeroed memory and does not fail
//@ variant given -DW=0
//@ variant default -DW=1
//@ bounded
#include "spec.h"
#include "betree.h"
#include "config.h"
#include "tree.h"
#include "jsw_rbtree.c"
#include "hashmap.c"
#include "config.c"
#include "tree.c"
#include "betree.c"
int main()
{
    uint64_t cap, size;
    struct betree* t = W == 0 ? betree_make_with_parameters(cap, size) : betree_make();
    ASSERT(t != NULL && t->config != NULL && t->cnode != NULL, "the tree is there");
    ASSERT(t->config->lnode_max_cap >= 1, "a leaf can hold something");
    if(W == 0 && cap >= 1 && cap <= 255) ASSERT(t->config->lnode_max_cap == cap, "as much as asked for");
    if(W == 0 && size <= 255) ASSERT(t->config->partition_min_size == size, "the least size of an index is the one asked for");
    ASSERT(t->config->attr_domain_count == 0 && t->config->string_map_count == 0 && t->config->integer_map_count == 0, "nothing is declared");
    ASSERT(t->config->max_domain_for_split < ((uint64_t)1 << 62), "a range that is split is narrower than the type");
    ASSERT(t->cnode->parent == NULL && t->cnode->pdir == NULL && t->cnode->lnode->sub_count == 0 && t->cnode->lnode->max == t->config->lnode_max_cap && t->cnode->lnode->parent == t->cnode, "the root has an empty leaf and no index");
    REACH();
}

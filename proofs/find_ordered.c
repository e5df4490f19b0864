//@ what finding in an ordered tree of any size and shape finds the element equal to the one looked for exactly when there is one, and always ends
//@ props C13 C04
//@ functions jsw_rbfind
//@ rewrite jsw_rbtree.c (?<!\w)it->link\[([^\]]+)\] => LINK(it, \1)
//@ loop jsw_rbtree.c jsw_rbfind 1/1 : __CPROVER_assigns(it, CELL, HEIGHT, INX, IO.key) __CPROVER_loop_invariant((it == NULL || it == &NX || it == &NO) && WF_BOOL(INX) && INX == PRESENT && IMPLIES(PRESENT, it != NULL) && IMPLIES(it == &NX, PRESENT) && IMPLIES(it != NULL, HEIGHT >= 1) && IO.key != K) __CPROVER_decreases(HEIGHT)
//@ cbmc --unwind 8 --object-bits 10
//@ assume find_ordered: LINK gives the subtree gone to, which has the element looked for when the order says so (the tree is ordered, unit ordered_set), less high than the one above; an element is followed (NX), NO is any other
#include "spec.h"
#include "jsw_rbtree.h"
struct item { int key; };
static struct item IX, IO, PROBE; static int K; static bool PRESENT, INX; static size_t HEIGHT; static struct jsw_rbnode* CELL;
extern struct jsw_rbnode NX, NO;
static bool any(void) { bool b; return b ? true : false; }
static int by_key(const void* a, const void* b) { int x = ((struct item*)a)->key, y = ((struct item*)b)->key; return x < y ? -1 : x > y; }
static struct jsw_rbnode** link_at(struct jsw_rbnode* it, int dir);
#define LINK(it, dir) (*link_at(it, dir))
#include "jsw_rbtree.c"
struct jsw_rbnode NX, NO;
static struct jsw_rbnode** link_at(struct jsw_rbnode* it, int dir)
{
    ASSERT((it == &NX || it == &NO) && HEIGHT >= 1 && (dir == 0 || dir == 1), "the subtree is one of a node of the tree");
    HEIGHT--; INX = INX && it != &NX && dir == (((struct item*)it->data)->key < K);
    ASSUME(IMPLIES(INX, HEIGHT >= 1));
    int k; ASSUME(k != K); IO.key = k;
    CELL = INX ? (HEIGHT == 1 || any() ? &NX : &NO) : HEIGHT == 0 || any() ? NULL : &NO;
    return &CELL;
}
int main()
{
    struct jsw_rbtree t; t.cmp = by_key; int k, o; size_t h; K = k; PROBE.key = k; IX.key = k; IO.key = o; ASSUME(o != k); HEIGHT = h; PRESENT = any(); INX = PRESENT; ASSUME(IMPLIES(PRESENT, h >= 1));
    NX.data = &IX; NO.data = &IO; CELL = NULL; t.root = PRESENT ? (h == 1 || any() ? &NX : &NO) : h == 0 ? NULL : &NO;
    void* r = jsw_rbfind(&t, &PROBE);
    ASSERT(r == (PRESENT ? (void*)&IX : NULL), "the element is found exactly when it is there");
    REACH();
}

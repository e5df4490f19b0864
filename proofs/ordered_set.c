//@ what inserting in and erasing from an ordered tree of any content keeps it ordered and balanced (no red node below a red one, as many black ones on every path), adds or removes the one element only, keeps the element there when an equal one is inserted, and finding finds exactly the elements
//@ props C13
//@ kind bounded
//@ functions jsw_rbinsert jsw_rberase jsw_rbfind jsw_single jsw_double is_red new_node
//@ nodfcc
//@ timeout 600
//@ cbmc --bounds-check --pointer-check --object-bits 10 --unwind 8
//@ assume ordered_set: bounded: the trees of at most three levels (seven elements), of any shape and content; every such tree is a possible state, so the step is shown from each of them
//@ variant insert -DW=0
//@ variant erase -DW=1
//@ variant find -DW=2
#include "spec.h"
#include "jsw_rbtree.c"
typedef struct jsw_rbnode N;
static bool any(void) { bool b; return b ? true : false; }
/* elements are pairs of a key and a tag: equal elements have equal keys */
struct item { int key; int tag; };
static int by_key(const void* a, const void* b) { int x = ((struct item*)a)->key, y = ((struct item*)b)->key; return x < y ? -1 : x > y; }
static N* P[7]; static struct item I[7]; static struct item NEW;
static bool ok;
static int check(N* n, int lo, int hi, bool red_above, int depth)
{
    if(n == NULL) return 1;
    if(depth == 0) { ok = false; return 0; }
    int k = ((struct item*)n->data)->key; bool red = n->red == 1;
    if(!(lo < k && k < hi) || (red && red_above)) ok = false;
    int l = check(n->link[0], lo, k, red, depth - 1), r = check(n->link[1], k, hi, red, depth - 1);
    if(l != r) ok = false;
    return l + !red;
}
static struct item* there(N* n, int key) { for(int d = 0; d < 6 && n != NULL; d++) { int k = ((struct item*)n->data)->key; if(k == key) return n->data; n = n->link[k < key]; } return NULL; }
int main()
{
    struct jsw_rbtree t; t.cmp = by_key; size_t count = 0; size_t s; ASSUME(s < 1000);
    for(int i = 6; i >= 0; i--) {
        int k, g; I[i].key = k; I[i].tag = g; ASSUME(k > -1000 && k < 1000);
        if(any()) { P[i] = malloc(sizeof(N)); P[i]->red = any(); P[i]->data = &I[i]; P[i]->link[0] = i < 3 ? P[2 * i + 1] : NULL; P[i]->link[1] = i < 3 ? P[2 * i + 2] : NULL; } else P[i] = NULL;
    }
    for(int i = 1; i < 7; i++) ASSUME(IMPLIES(P[i] != NULL, P[(i - 1) / 2] != NULL));
    for(int i = 0; i < 7; i++) if(P[i] != NULL) count++;
    t.root = P[0]; t.size = count; ok = true; if(t.root != NULL) ASSUME(t.root->red == 0); check(t.root, -1000, 1000, false, 3); ASSUME(ok);
    int k, g, y; NEW.key = k; NEW.tag = g; ASSUME(k > -1000 && k < 1000);
    struct item* had = there(t.root, k); struct item* hady = there(t.root, y);
    ASSERT(jsw_rbfind(&t, &NEW) == had, "finding finds the element equal to the one looked for, if any");
    ASSERT(jsw_rbsize(&t) == count, "the size is the number of elements");
#if W == 0
    jsw_rbinsert(&t, &NEW);
    ASSERT(there(t.root, k) == (had != NULL ? had : &NEW), "the element is there, the one that was there before if there was one");
    if(y != k) ASSERT(there(t.root, y) == hady, "the others are as before");
    ASSERT(jsw_rbsize(&t) == count + (had == NULL), "the size is the number of elements");
#elif W == 1
    jsw_rberase(&t, &NEW);
    ASSERT(there(t.root, k) == NULL, "the element is gone");
    if(y != k) ASSERT(there(t.root, y) == hady, "the others are as before");
    ASSERT(jsw_rbsize(&t) == count - (had != NULL), "the size is the number of elements");
#endif
    check(t.root, -1000, 1000, false, 5);
    ASSERT(ok, "it is ordered and balanced");
    if(t.root != NULL) ASSERT(t.root->red == 0, "the root is black");
    REACH();
}

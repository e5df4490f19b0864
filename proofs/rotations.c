//@ what a rotation in an ordered tree keeps every node and the order of the elements, changes the links and colours of the two (or three) nodes it turns and of no other, and gives the new top, which is black above red; a node made holds its element and nothing below; a tree made is empty and holds the order given; its size is what it counted
//@ props C13
//@ functions jsw_single jsw_double new_node jsw_rbnew jsw_rbsize is_red
//@ nodfcc
//@ cbmc --bounds-check --pointer-check
//@ assume rotations: what is below the nodes turned are opaque sub-trees, any of them absent; the nodes turned exist (the caller turns towards a red node, unit ordered_set, bounded); malloc does not fail
//@ variant single -DV=0
//@ variant double -DV=1
//@ variant made -DV=2
//@ bounded
#include "spec.h"
#include "alloc.h"
#include "jsw_rbtree.h"
#include "jsw_rbtree.c"
static struct jsw_rbnode P, Q, R, A, B, C, D, OLD;
static struct jsw_rbnode* some(struct jsw_rbnode* x) { _Bool b; return b ? x : 0; }
static int order(const void* a, const void* b) { return 0; }
#define KEPT(n, o) ASSERT((n).red == (o).red && (n).data == (o).data && (n).link[0] == (o).link[0] && (n).link[1] == (o).link[1], "what is below is left as it was")
int main()
{
    int d; ASSUME(d == 0 || d == 1); void *pd, *qd, *rd; int pc, qc, rc; ASSUME((pc == 0 || pc == 1) && (qc == 0 || qc == 1) && (rc == 0 || rc == 1));
    P.data = pd; Q.data = qd; R.data = rd; P.red = pc; Q.red = qc; R.red = rc;
    struct jsw_rbnode *a = some(&A), *b = some(&B), *c = some(&C), *e = some(&D); struct jsw_rbnode x0, x1, x2, x3; A = x0; B = x1; C = x2; D = x3;
#if V == 0
    /* along direction !d: a P (b Q c)  ->  (a P b) Q c */
    P.link[d] = a; P.link[!d] = &Q; Q.link[d] = b; Q.link[!d] = c; R = x0; R.red = 0; OLD = R;
    struct jsw_rbnode* t = jsw_single(&P, d);
    ASSERT(t == &Q && Q.link[d] == &P && P.link[d] == a && P.link[!d] == b && Q.link[!d] == c, "the same nodes in the same order, the other one on top");
    ASSERT(P.data == pd && Q.data == qd, "each with its element"); ASSERT(Q.red == 0 && P.red == 1, "black above red"); KEPT(R, OLD);
#elif V == 1
    /* a P ((b R c) Q e)  ->  (a P b) R (c Q e) */
    P.link[d] = a; P.link[!d] = &Q; Q.link[d] = &R; Q.link[!d] = e; R.link[d] = b; R.link[!d] = c;
    struct jsw_rbnode* t = jsw_double(&P, d);
    ASSERT(t == &R && R.link[d] == &P && R.link[!d] == &Q && P.link[d] == a && P.link[!d] == b && Q.link[d] == c && Q.link[!d] == e, "the same nodes in the same order, the inner one on top");
    ASSERT(P.data == pd && Q.data == qd && R.data == rd, "each with its element"); ASSERT(R.red == 0 && P.red == 1 && Q.red == 1, "black above red");
#else
    struct jsw_rbtree* t = jsw_rbnew((cmp_f)order); ASSERT(t->root == NULL && t->size == 0 && t->cmp == (cmp_f)order && jsw_rbsize(t) == 0, "an empty tree with the order given");
    size_t n; t->size = n; ASSERT(jsw_rbsize(t) == n, "the size counted");
    struct jsw_rbnode* k = new_node(t, pd); ASSERT(k->data == pd && k->red == 1 && k->link[0] == NULL && k->link[1] == NULL && t->size == n && t->root == NULL, "a red node with its element and nothing below");
    ASSERT(!is_red(NULL) && is_red(k), "no node is black"); P.red = 0; ASSERT(!is_red(&P), "black is not red");
#endif
    KEPT(A, x0); KEPT(B, x1); KEPT(C, x2); KEPT(D, x3);
    REACH();
}

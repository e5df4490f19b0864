//@ what inserting in an ordered tree of any size and shape puts one new node, holding the element, at the empty place where the search for it ends, and none when an equal element is met; besides that it only rotates what hangs below a node of the path, in the place it hangs from; no red node is left below a red one, the root is black, the size counts the new element
//@ props C13 C04
//@ functions jsw_rbinsert new_node jsw_single jsw_double is_red
//@ cut jsw_rbtree.c (?<!jsw_rbnode\* )\bjsw_single\( => rot1(
//@ cut jsw_rbtree.c (?<!jsw_rbnode\* )\bjsw_double\( => rot2(
//@ ghost jsw_rbtree.c jsw_rbinsert 1/1 : STEP(&head, &t, &g, &p, &q, &dir, &last);
//@ nodfcc
//@ cbmc --unwind 3 --unwinding-assertions --object-bits 10
//@ bounded --unwind 5 --unwinding-assertions --bounds-check --pointer-check --object-bits 10
//@ assume inserted: at each step the path is shown by the node the loop is at (Q), the three above it and the two below, any of them absent where the loop has not got to, each with the order of its element to the new one, and the rest as opaque sub-trees; which of the five kinds of step it is (first, second, plain, just after a rotation, just after a double one) is part of the invariant; before, no red node is below a red one and the root is black (kept by this unit for insertion, by the bounded unit ordered_set for erasure); that a rotation keeps the order is unit rotations; that the loop ends is not part of this contract; the bounded run: trees of at most two levels
#include "spec.h"
#include "alloc.h"
#include "jsw_rbtree.h"
extern struct jsw_rbnode T, G, P, Q, C0, C1, O, U, X, E0, E1, E2, E3, F, NEWN;
/* links as they should be: every write besides a rotation or the new node shows as a difference */
static struct { struct jsw_rbnode *t[2], *g[2], *p[2], *q[2], *c0[2], *c1[2], *top, *n[2]; } S;
static struct { int made, atnull; struct jsw_rbnode* where; int side; int below; } W;
static size_t SIZE; static char LESS, MORE, SAME_, ELEMENT;
#define RED(x) ((x) != NULL && (x)->red == 1)
#define SIDE(x) ((x)->data == (void*)&LESS)
#define BOTH(x) (RED((x)->link[0]) && RED((x)->link[1]))
#define CALM(x) ((x) != NULL && !RED(x) && !BOTH(x))
#define VALID(x) ((x) == NULL || !RED(x) || (!RED((x)->link[0]) && !RED((x)->link[1])))
#define NODE(x) ((x) == &T || (x) == &G || (x) == &P || (x) == &Q || (x) == &C0 || (x) == &C1)
#define PH_A (t == &head && g == NULL && p == NULL && NODE(q) && head.link[1] == q && !RED(q))
#define ON(x, d, y) ((x)->link[d] == (y) && SIDE(x) == (d))
#define PH_B (t == &head && g == NULL && NODE(p) && (q == NULL || NODE(q)) && head.link[1] == p && ON(p, dir, q) && IMPLIES(RED(p), CALM(q)) && VALID(q) && !BOTH(p))
#define UNDER (NODE(g) && NODE(p) && (q == NULL || NODE(q)) && ON(g, last, p) && ON(p, dir, q) && VALID(q))
#define PH_C (UNDER && !BOTH(p) && (t == &head ? head.link[1] == g : NODE(t) && ON(t, SIDE(t), g)) && !(RED(g) && RED(p)) && IMPLIES(RED(p), !RED(q) && (!RED(g->link[!last]) || CALM(q))))
#define PH_S (UNDER && (t == &head || NODE(t)) && t != &head && RED(p) && !RED(g) && CALM(q))
#define PH_D (NODE(g) && NODE(p) && NODE(q) && NODE(t) && t != &head && ON(p, dir, q) && !RED(p) && RED(q) && VALID(q) && CALM(q->link[SIDE(q)]))
static void step(struct jsw_rbnode* h, struct jsw_rbnode** t, struct jsw_rbnode** g, struct jsw_rbnode** p, struct jsw_rbnode** q, int* dir, int* last);
static struct jsw_rbnode* rot1(struct jsw_rbnode* r, int d); static struct jsw_rbnode* rot2(struct jsw_rbnode* r, int d);
void* model_malloc(size_t n);
#undef bmalloc
#define bmalloc(n) model_malloc(n)
#ifdef BOUNDED
#define STEP(...) (void)0
#else
#define STEP(...) step(__VA_ARGS__)
#endif
#include "jsw_rbtree.c"
/* what follows is specification: it reads what there is */
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-primitive"
typedef struct jsw_rbnode N;
N T, G, P, Q, C0, C1, O, U, X, E0, E1, E2, E3, F, NEWN; static struct jsw_rbtree TREE;
static void settled(void);
static bool any(void) { bool b; return b ? true : false; }
static N* some(N* x) { return any() ? x : NULL; }
static void links(N* to[2], N* x) { to[0] = x->link[0]; to[1] = x->link[1]; }
static bool like(N* to[2], N* x) { return to[0] == x->link[0] && to[1] == x->link[1]; }
static void snap(void) { links(S.t, &T); links(S.g, &G); links(S.p, &P); links(S.q, &Q); links(S.c0, &C0); links(S.c1, &C1); links(S.n, &NEWN); }
static void painted(N* x) { int r; ASSUME(r == 0 || r == 1); x->red = r; }
static void element(N* x) { x->data = any() ? &LESS : &MORE; }
#ifndef BOUNDED
/* the same state, shown afresh */
static void renew(N* h, N** pt, N** pg, N** pp, N** pq, int* pdir, int* plast)
{
#define head (*h)
    int kind; ASSUME(kind >= 0 && kind <= 4); bool top = any();
    painted(&T); painted(&G); painted(&P); painted(&Q); painted(&C0); painted(&C1); painted(&O); painted(&U); painted(&X); painted(&E0); painted(&E1); painted(&E2); painted(&E3); element(&T); element(&G); element(&P); element(&C0); element(&C1);
    element(&Q); if(kind != 4 && any()) Q.data = &SAME_;
    C0.link[0] = some(&E0); C0.link[1] = some(&E1); C1.link[0] = some(&E2); C1.link[1] = some(&E3); Q.link[0] = some(&C0); Q.link[1] = some(&C1);
    N* below = any() || kind == 0 || kind == 4 ? &Q : NULL; int d2 = SIDE(&P), d1 = SIDE(&G), d0 = SIDE(&T);
    P.link[d2] = below; P.link[!d2] = some(&X); G.link[d1] = &P; G.link[!d1] = some(&U); T.link[d0] = kind == 2 && !top ? &G : NULL; T.link[!d0] = some(&O);
    *pq = below; *pt = h; *pg = *pp = NULL; if(kind >= 1) { *pp = &P; *pdir = d2; } if(kind >= 2) { *pg = &G; *plast = d1; *pt = top ? h : &T; }
    if(kind == 0) head.link[1] = &Q; else if(kind == 1) head.link[1] = &P; else if(kind == 2 && top) head.link[1] = &G; else head.link[1] = &F;
    { N *t = *pt, *g = *pg, *p = *pp, *q = *pq; int dir = *pdir, last = *plast; ASSUME(kind == 0 ? PH_A : kind == 1 ? PH_B : kind == 2 ? PH_C : kind == 3 ? PH_S : PH_D); }
    /* a red node above a red one: nowhere, so far */
    ASSUME(VALID(&Q) && VALID(&C0) && VALID(&C1)); if(kind >= 1) ASSUME(VALID(&P)); if(kind == 2 || kind == 3) ASSUME(VALID(&G)); if(kind == 2 && !top) ASSUME(VALID(&T));
    W.where = below == NULL ? &P : NULL; W.side = d2; W.below = kind == 2 && !top; W.atnull = kind;
    snap(); S.top = head.link[1];
#undef head
}
/* the loop is cut here: what holds at the start of every step is shown before the first one, then for the step that follows any one */
static int ROUND;
static void step(N* h, N** pt, N** pg, N** pp, N** pq, int* pdir, int* plast)
{
#define head (*h)
    N *t = *pt, *g = *pg, *p = *pp, *q = *pq; int dir = *pdir, last = *plast;
    ASSERT(W.made == 0 && TREE.size == SIZE, "as long as it goes on, no node is put"); ASSERT((dir == 0 || dir == 1) && (last == 0 || last == 1), "left or right");
    if(ROUND == 0) { ASSERT(PH_A, "the first step is at the root"); ROUND = 1; renew(h, pt, pg, pp, pq, pdir, plast); }
    else { ASSERT(p != NULL && (PH_B || (g != NULL && (PH_C || PH_S || (q != NULL && PH_D)))), "each step leads to a step of a known kind"); settled(); ASSUME(0); }
#undef head
}
#endif
/* a rotation: what it does is unit rotations; its place is the one the node hung from */
static void moved(N* from, N* to)
{
#ifndef BOUNDED
    ASSERT(from == &G, "the one rotated is above the two red ones");
    N *a = S.t[0] == from ? to : S.t[0], *b = S.t[1] == from ? to : S.t[1];
    N* h = S.top == from ? to : S.top; snap(); S.t[0] = a; S.t[1] = b; S.top = h;
#endif
}
static N* rot1(N* r, int d) { ASSERT(r != NULL && r->link[!d] != NULL, "there is a node to turn towards"); N* k = jsw_single(r, d); moved(r, k); return k; }
static N* rot2(N* r, int d) { ASSERT(r != NULL && r->link[!d] != NULL && r->link[!d]->link[d] != NULL, "there are nodes to turn"); r->link[!d] = jsw_single(r->link[!d], !d); N* k = jsw_single(r, d); moved(r, k); return k; }
void* model_malloc(size_t n)
{
    ASSERT(n == sizeof(N) && W.made == 0, "one node"); W.made = 1;
#ifndef BOUNDED
    if(W.where != NULL) S.p[W.side] = &NEWN;
#endif
    S.n[0] = S.n[1] = NULL; return &NEWN;
}
static void settled(void)
{
#ifndef BOUNDED
    if(W.made && W.where == NULL) return;
    ASSERT(like(S.t, &T) && like(S.g, &G) && like(S.p, &P) && like(S.q, &Q) && like(S.c0, &C0) && like(S.c1, &C1) && (!W.made || like(S.n, &NEWN)), "rotations are put where the node rotated hung, the new node at the empty place, and nothing else is moved");
    ASSERT(VALID(&Q) && VALID(&C0) && VALID(&C1) && (!W.made || VALID(&NEWN)), "no red node below a red one, at the node");
    if(W.atnull >= 1) ASSERT(VALID(&P), "nor above it"); if(W.atnull >= 2 && W.atnull < 4) ASSERT(VALID(&G), "nor two above"); if(W.below) ASSERT(VALID(&T), "nor three above");
#endif
}
static int order(const void* a, const void* b)
{
    ASSERT(b == &ELEMENT, "against the new element");
    int k; ASSUME(k != 0); return a == &ELEMENT || a == &SAME_ ? 0 : a == &LESS ? (k < 0 ? k : -1) : (k > 0 ? k : 1);
}
int main()
{
#ifndef BOUNDED
    ROUND = 0;
#endif
    size_t s; SIZE = s; TREE.size = s; TREE.cmp = order; W.made = 0; W.where = NULL; W.atnull = -1; W.below = 0; S.top = NULL; NEWN.link[0] = NEWN.link[1] = NULL; snap();
    bool empty = any();
#ifdef BOUNDED
    static N K[3]; N* at[3]; for(int i = 2; i >= 0; i--) { painted(&K[i]); at[i] = some(&K[i]); K[i].link[0] = i < 1 ? at[2 * i + 1] : NULL; K[i].link[1] = i < 1 ? at[2 * i + 2] : NULL; element(&K[i]); if(any()) K[i].data = &SAME_; ASSUME(VALID(&K[i])); }
    K[0].red = 0; TREE.root = empty ? NULL : &K[0];
#else
    painted(&Q); Q.red = 0; element(&Q); TREE.root = empty ? NULL : &Q; Q.link[0] = some(&C0); Q.link[1] = some(&C1);
#endif
    int r = jsw_rbinsert(&TREE, &ELEMENT);
    ASSERT(r == 1 && TREE.root != NULL && TREE.root->red == 0, "it is done, the root is black");
    ASSERT(TREE.size == SIZE + W.made, "the size counts the new element");
    if(W.made) ASSERT(NEWN.data == &ELEMENT, "the new node holds the element");
    if(empty) ASSERT(W.made && TREE.root == &NEWN && NEWN.link[0] == NULL && NEWN.link[1] == NULL, "the new node is the tree");
#ifndef BOUNDED
    else { settled(); ASSERT(TREE.root == S.top, "the root is what hangs from the top"); ASSERT(W.made || Q.data == &SAME_, "an equal element is the only reason to put none"); ASSERT(!W.made || W.where != NULL, "a node is put at an empty place only"); }
#endif
    REACH();
}

//@ what erasing from an ordered tree of any size and shape removes the node at the end of the search, after putting its element in the node of the equal element met on the way, when there was one, and no node otherwise; its place is taken by the one sub-tree below it; besides that it only rotates what hangs below a node of the path, in the place it hangs from; the root is black, the size counts one less
//@ props C13
//@ functions jsw_rberase jsw_single jsw_double is_red
//@ cut jsw_rbtree.c (?<!jsw_rbnode\* )\bjsw_single\( => rot1(
//@ cut jsw_rbtree.c (?<!jsw_rbnode\* )\bjsw_double\( => rot2(
//@ ghost jsw_rbtree.c jsw_rberase 1/1 : STEP(&head, &g, &p, &q, &dir, &f);
//@ nodfcc
//@ cbmc --unwind 3 --unwinding-assertions --object-bits 10
//@ bounded --unwind 5 --unwinding-assertions --bounds-check --pointer-check --object-bits 10
//@ assume erased: at each step the path is shown by the node gone to (Q), the one the loop is at (P) and the one above, the sibling with what is below it, any of them absent where there may be none, each with the order of its element to the one erased, and the rest as opaque sub-trees; an element below an equal one, on the side gone to, is less (the tree is ordered); that a rotation keeps the order is unit rotations, that the element before the one erased is at the end of the search follows from the order; the colours left behind are the bounded unit ordered_set's; that the loop ends is not part of this contract; the bounded run: trees of at most two levels
#include "spec.h"
#include "alloc.h"
#include "jsw_rbtree.h"
extern struct jsw_rbnode G, P, Q, B, S0, S1, A0, A1, A2, A3, C0, C1, E0, E1, E2, E3, O, F;
/* links as they should be: every write besides a rotation or the removal shows as a difference */
static struct { struct jsw_rbnode *g[2], *p[2], *q[2], *b[2], *s0[2], *s1[2], *c0[2], *c1[2], *top; } S;
static struct { int kind, freed, turned; struct jsw_rbnode *gone, *f; void *g, *p, *q, *b, *c0, *c1, *far; } W;
static size_t SIZE; static char LESS, MORE, SAME_, ELEMENT;
#define SIDE(x) ((x)->data == (void*)&LESS)
static void step(struct jsw_rbnode* h, struct jsw_rbnode** g, struct jsw_rbnode** p, struct jsw_rbnode** q, int* dir, struct jsw_rbnode** f);
static struct jsw_rbnode* rot1(struct jsw_rbnode* r, int d); static struct jsw_rbnode* rot2(struct jsw_rbnode* r, int d);
void model_free(void* p);
#undef bfree
#define bfree(p) model_free(p)
#ifdef BOUNDED
#define STEP(...) (void)0
#else
#define STEP(...) step(__VA_ARGS__)
#endif
#include "jsw_rbtree.c"
/* what follows is specification: it reads what there is */
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-primitive"
typedef struct jsw_rbnode N;
N G, P, Q, B, S0, S1, A0, A1, A2, A3, C0, C1, E0, E1, E2, E3, O, F; static struct jsw_rbtree TREE;
static bool any(void) { bool b; return b ? true : false; }
static N* some(N* x) { return any() ? x : NULL; }
static void links(N* to[2], N* x) { to[0] = x->link[0]; to[1] = x->link[1]; }
static bool like(N* to[2], N* x) { return to[0] == x->link[0] && to[1] == x->link[1]; }
static void painted(N* x) { int r; ASSUME(r == 0 || r == 1); x->red = r; }
static void element(N* x) { x->data = any() ? &LESS : &MORE; }
static void snap(void) { links(S.g, &G); links(S.p, &P); links(S.q, &Q); links(S.b, &B); links(S.s0, &S0); links(S.s1, &S1); links(S.c0, &C0); links(S.c1, &C1); }
#ifndef BOUNDED
static int ROUND;
static void settled(void)
{
    ASSERT(like(S.g, &G) && like(S.p, &P) && like(S.b, &B) && like(S.s0, &S0) && like(S.s1, &S1) && like(S.c0, &C0) && like(S.c1, &C1) && (W.freed || like(S.q, &Q)), "rotations are put where the node rotated hung, and nothing else is moved");
    ASSERT((W.f == &G || G.data == W.g) && (W.f == &P || P.data == W.p) && (W.f == &Q || W.freed || Q.data == W.q) && (W.f == &F || F.data == W.far) && B.data == W.b && C0.data == W.c0 && C1.data == W.c1, "every node keeps its element, but the one of the element erased");
}
/* the same state, shown afresh: q is at P (or at the top), and goes to Q */
static void renew(N* h, N** pg, N** pp, N** pq, int* pdir, N** pf)
{
    int kind; ASSUME(kind >= 0 && kind <= 2); W.kind = kind;
    painted(&G); painted(&P); painted(&Q); painted(&B); painted(&S0); painted(&S1); painted(&A0); painted(&A1); painted(&A2); painted(&A3); painted(&C0); painted(&C1); painted(&E0); painted(&E1); painted(&E2); painted(&E3);
    element(&G); element(&P); element(&Q); element(&B); element(&C0); element(&C1); element(&F); N* f = NULL;
    C0.link[0] = some(&E0); C0.link[1] = some(&E1); C1.link[0] = some(&E2); C1.link[1] = some(&E3); Q.link[0] = some(&C0); Q.link[1] = some(&C1);
    S0.link[0] = some(&A0); S0.link[1] = some(&A1); S1.link[0] = some(&A2); S1.link[1] = some(&A3); B.link[0] = some(&S0); B.link[1] = some(&S1);
    /* the equal element: above, at P, at Q, or nowhere here */
    int where; ASSUME(where >= 0 && where <= 4 && (where != 1 || kind == 2) && (where != 2 || kind >= 1) && (where != 3 || kind == 2));
    if(where == 1) f = &F; if(where == 2) f = &P; if(where == 3) f = &G; if(where == 4) Q.data = &SAME_; if(f != NULL) { f->data = &SAME_; Q.data = &LESS; if(f != &P) P.data = &LESS; }
    int d = SIDE(&P), up; ASSUME(up == 0 || up == 1); P.link[d] = kind >= 1 ? &Q : NULL; P.link[!d] = some(&B); G.link[up] = kind == 2 ? &P : NULL; G.link[!up] = some(&O);
    h->link[0] = NULL; h->link[1] = kind == 0 ? &Q : kind == 1 ? &P : &O; *pq = kind == 0 ? h : &P; *pp = kind == 0 ? NULL : kind == 1 ? h : &G; *pdir = kind == 0 ? 1 : d; *pf = f; N* g; *pg = g;
    snap(); S.top = h->link[1]; W.g = G.data; W.p = P.data; W.q = Q.data; W.b = B.data; W.c0 = C0.data; W.c1 = C1.data; W.far = F.data; W.f = where == 4 ? &Q : f;
}
/* the loop is cut here: what holds at the start of every step is shown before the first one, then for the step that follows any one */
static void step(N* h, N** pg, N** pp, N** pq, int* pdir, N** pf)
{
    N *p = *pp, *q = *pq, *f = *pf; int dir = *pdir;
    ASSERT(W.freed == 0 && TREE.size == SIZE, "as long as it goes on, no node is removed"); ASSERT(h->link[0] == NULL, "nothing hangs beside the root");
    if(ROUND == 0) { ASSERT(q == h && p == NULL && dir == 1 && f == NULL, "the first step is from above the root"); ROUND = 1; renew(h, pg, pp, pq, pdir, pf); }
    else {
        ASSERT(q == &Q && p != NULL && (p == h ? h->link[1] == q : p->link[0] == q || p->link[1] == q), "each step goes one down, the one above it is known");
        ASSERT(dir == SIDE(q), "towards the element"); ASSERT(f == W.f, "the equal element met is remembered");
        ASSERT(h->link[1] == S.top, "the root is what hangs from the top"); settled(); ASSUME(0);
    }
}
#endif
/* a rotation: what it does is unit rotations; its place is the one the node hung from */
static void moved(N* from, N* to)
{
#ifndef BOUNDED
    ASSERT(W.turned == 0 && (from == &Q || (from == &P && W.kind >= 1)), "a rotation of the node or of the one above"); W.turned = 1;
    N *p0 = S.p[0], *p1 = S.p[1], *g0 = S.g[0], *g1 = S.g[1]; snap();
    if(from == &Q && W.kind >= 1) { S.p[0] = p0 == from ? to : p0; S.p[1] = p1 == from ? to : p1; }
    if(from == &P && W.kind == 2) { S.g[0] = g0 == from ? to : g0; S.g[1] = g1 == from ? to : g1; }
    if(S.top == from) S.top = to;
#endif
}
static N* rot1(N* r, int d) { ASSERT(r != NULL && r->link[!d] != NULL, "there is a node to turn towards"); N* k = jsw_single(r, d); moved(r, k); return k; }
static N* rot2(N* r, int d) { ASSERT(r != NULL && r->link[!d] != NULL && r->link[!d]->link[d] != NULL, "there are nodes to turn"); r->link[!d] = jsw_single(r->link[!d], !d); N* k = jsw_single(r, d); moved(r, k); return k; }
void model_free(void* p)
{
    ASSERT(W.freed == 0, "one node"); W.freed = 1; W.gone = p;
#ifndef BOUNDED
    ASSERT(p == &Q, "the node at the end of the search"); ASSERT(Q.link[0] == NULL || Q.link[1] == NULL, "there is one sub-tree below it at most");
    N* c = Q.link[0] != NULL ? Q.link[0] : Q.link[1];
#define INSTEAD(x) x[0] = x[0] == &Q ? c : x[0]; x[1] = x[1] == &Q ? c : x[1];
    INSTEAD(S.g) INSTEAD(S.p) INSTEAD(S.b) INSTEAD(S.s0) INSTEAD(S.s1) INSTEAD(S.c0) INSTEAD(S.c1) if(S.top == &Q) S.top = c;
    N junk; Q = junk;
#endif
}
static int order(const void* a, const void* b)
{
    ASSERT(b == &ELEMENT, "against the element to erase");
    int k; ASSUME(k != 0); return a == &SAME_ ? 0 : a == &LESS ? (k < 0 ? k : -1) : (k > 0 ? k : 1);
}
int main()
{
    size_t s; ASSUME(s > 0); SIZE = s; TREE.size = s; TREE.cmp = order; W.kind = W.freed = W.turned = 0; W.gone = W.f = NULL; bool empty = any(); bool there = false;
#ifdef BOUNDED
    static N K[3]; N* at[3]; for(int i = 2; i >= 0; i--) { painted(&K[i]); at[i] = some(&K[i]); K[i].link[0] = i < 1 ? at[1] : NULL; K[i].link[1] = i < 1 ? at[2] : NULL; element(&K[i]); }
    /* ordered, with at most one equal element */
    int e; ASSUME(e >= -1 && e <= 2); if(e >= 0 && (e == 0 || at[e] != NULL)) { K[e].data = &SAME_; there = !empty; }
    if(at[1] != NULL) ASSUME(K[0].data == &MORE ? 1 : K[1].data == &LESS); if(at[2] != NULL) ASSUME(K[0].data == &LESS ? 1 : K[2].data == &MORE);
    ASSUME(IMPLIES(e == 1, K[0].data == &MORE) && IMPLIES(e == 2, K[0].data == &LESS)); ASSUME(at[1] != NULL && at[2] != NULL ? K[1].red == K[2].red : (at[1] == NULL || K[1].red) && (at[2] == NULL || K[2].red)); K[0].red = 0; TREE.root = empty ? NULL : &K[0];
#else
    ROUND = 0; painted(&Q); Q.red = 0; element(&Q); TREE.root = empty ? NULL : &Q; Q.link[0] = some(&C0); Q.link[1] = some(&C1); S.top = TREE.root;
#endif
    int r = jsw_rberase(&TREE, &ELEMENT);
    ASSERT(r == 1 && (TREE.root == NULL || TREE.root->red == 0), "it is done, the root is black");
    ASSERT(TREE.size == SIZE - W.freed, "the size counts one less");
#ifdef BOUNDED
    ASSERT(W.freed == there, "a node is removed when there is an equal element");
#else
    if(empty) ASSERT(!W.freed && TREE.root == NULL, "nothing to erase");
    else {
        ASSERT(W.freed == (W.f != NULL), "a node is removed when an equal element was met"); settled(); ASSERT(TREE.root == S.top, "the root is what hangs from the top");
        if(W.f != NULL && W.f != &Q) ASSERT(W.f->data == W.q, "the element of the node removed takes the place of the one erased");
    }
#endif
    REACH();
}

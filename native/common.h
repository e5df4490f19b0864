/* Generator, oracle and driver shared by the searches for a failing input.
 * The oracle (own syntax tree, own evaluator) is written from the documented meaning of the language
 * and shares no code with be-tree. */
#ifndef COMMON_H
#define COMMON_H
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include "betree.h"
#include "tree.h"
#include "ast.h"
#include "hashmap.h"
#include "value.h"
#include "config.h"
#include "utils.h"

/* random */
extern uint64_t rng_state;
uint64_t rnd(void);
int rn(int n);              /* 0 .. n-1 */
static inline bool coin(int pct) { return rn(100) < pct; }

/* scenario log: text that reproduces the round */
void slog(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void sfail(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
extern uint64_t round_no;
/* each family defines one round */
void family_round(void);
extern const char* family_name;

/* schema */
#define MAXV 700
#define MAXL 12
struct svar { char name[32]; enum betree_value_type_e t; bool undef; bool bounded; int64_t imin, imax; double fmin, fmax; size_t cap; };
struct schema { int n; struct svar v[MAXV]; };
struct schema_opt { int max_each; bool specials; bool all_undef; bool tight_strings; bool extreme; bool one_type; bool filler; };
void gen_schema(struct schema* s, struct schema_opt o);
void apply_schema(struct betree* t, const struct schema* s);
void log_schema(const struct schema* s);
int schema_find(const struct schema* s, const char* name);

/* strings: index into a pool */
#define NPOOL 14
extern const char* pool[NPOOL];

/* values and events */
struct oseg { int64_t id, ts; };
struct ocap { int type; int64_t id; int ns; int64_t ts, value; bool ts_defined; };
struct oval { bool def; bool b; int64_t i; double f; int s; int n; int64_t il[MAXL]; int sl[MAXL]; struct oseg seg[MAXL]; struct ocap cap[MAXL]; };
struct oevent { struct oval v[MAXV]; };
void gen_event(const struct schema* s, struct oevent* e, int undef_pct);
char* event_text(const struct schema* s, const struct oevent* e);   /* malloc */
struct betree_event* event_api(const struct betree* t, const struct schema* s, const struct oevent* e);

/* expressions */
enum ok { O_CMP, O_EQ, O_BOOL, O_LIT, O_AND, O_OR, O_NOT, O_VARIN, O_INVAR, O_LIST, O_NULL, O_FREQ, O_SEG, O_GEO, O_STR };
struct ex { enum ok k; int op; int v; int v2; int64_t i, i2; double f, f2, r; bool isf; bool flip; bool named; int s; int ftype; int n; int64_t il[MAXL]; int sl[MAXL]; bool is_s; struct ex *l, *r_; };
struct ex_opt { int depth; bool nulls; bool specials; int lit_pct; int only_var; };
struct ex* gen_expr(const struct schema* s, struct ex_opt o);
void free_ex(struct ex* e);
char* ex_text(const struct schema* s, const struct ex* e);           /* malloc */
bool ex_eval(const struct schema* s, const struct ex* e, const struct oevent* ev);
bool ex_has_freq(const struct ex* e);
bool ex_uses(const struct ex* e, int var);
int ex_size(const struct ex* e);
struct ex* ex_copy(const struct ex* e);

/* constants for frequency caps */
#define NFT 10
extern const char* ftypes[NFT];
extern const char* fconst[NFT];
extern int64_t fconst_value[NFT];      /* by constant kind */
struct consts { size_t n; struct betree_constant* c[8]; };
struct consts make_consts(void);
void free_consts(struct consts* c);

/* the same expression with lists sorted and free of repetitions, operands in one order */
void ex_canon(struct ex* e);
/* a copy changed in one place (operator, constant, variable of the same type, list element, structure) */
struct ex* ex_mutate(const struct schema* s, const struct ex* e);
/* the same with a whole number moved by a multiple of 2^32; NULL when the atom reached has none */
struct ex* ex_shift(const struct ex* e);
/* ways in */
struct ast_node* direct_node(struct betree* t, const struct ex* e, const struct schema* s);
bool direct_match(struct betree* t, const struct ast_node* n, const struct schema* s, const struct oevent* e);
int parse(const char* text, struct ast_node** node);
#define OBS_MAX 4096
/* all subscriptions of a tree, by walking every leaf */
size_t walk_subs(const struct cnode* c, const struct betree_sub** out, size_t max);
bool report_has(const struct report* r, betree_sub_t id);
/* two different short texts with the same hash in the string map (h = h * 33 ^ c) */
void gen_collision(char a[32], char b[32]);
/* the same after p equal characters; up to p + 6 characters */
void gen_collision_at(char* a, char* b, int p);
#endif

//@ what an expression is made with the kind, operator, variables and constants given, no id, cache slot or variable number yet, and its operands both kept, each once; a frequency cap is of the kind its name says
//@ props C01 C12 C14 C15
//@ functions ast_node_create ast_is_null_expr_create ast_compare_expr_create ast_equality_expr_create ast_bool_expr_create ast_bool_expr_literal_create ast_bool_expr_variable_create ast_bool_expr_unary_create ast_bool_expr_binary_create ast_set_expr_create ast_list_expr_create ast_special_expr_create ast_special_frequency_create ast_special_segment_create ast_special_geo_create ast_special_string_create score_node get_type_from_string make_attr_var
//@ cut ast.c (?<!static uint64_t )\bscore_node\( => cost(
//@ nodfcc
//@ cbmc --unwind 28 --bounds-check --pointer-check
//@ assume created: bstrdup makes a copy of the text (unit dup); calloc gives zeroed memory and does not fail; the cost of an operand is any number
//@ variant leaf@C01 -DV=0
//@ variant connective@C01 -DV=1
//@ variant order@C12 -DV=1 -DORDER
//@ variant special@C01,C15 -DV=2
//@ variant kinds@C14,C15 -DV=3
//@ variant cost@C12 -DV=4
//@ bounded
#include "spec.h"
#include "config.h"
#include "value.h"
static struct ast_node L, R; static uint64_t CL, CR; static int NAMED; static char NAME[2]; static const char* WANT;
uint64_t cost(struct ast_node* n) { ASSERT(n == &L || n == &R, "the cost of an operand"); return n == &L ? CL : CR; }
#if V != 3
/* every variable is named as asked, has no number yet and keeps a text of its own */
char* bstrdup(const char* s) { size_t n = 0; while(s[n] && n < 24) n++; char* c = malloc(n + 1); for(size_t i = 0; i <= n && i < 25; i++) c[i] = s[i]; return c; }
betree_var_t try_get_id_for_attr(const struct config* config, const char* attr) { ASSERT(0, "no number yet"); return 0; }
struct attr_var make_attr_var(const char* attr, struct config* config) { struct attr_var a; a.attr = attr == NULL ? NULL : bstrdup(attr); ASSERT(config == NULL, "no number yet"); a.var = INVALID_VAR; return a; }
#endif
#include "value.c"
#include "ast.c"
static bool any(void) { bool b; return b ? true : false; }
static bool same(const char* a, const char* b) { for(int i = 0; i < 25; i++) { if(a[i] != b[i]) return false; if(a[i] == 0) return true; } return false; }
#define NEW(n, k) ASSERT((n)->type == k && (n)->global_id == INVALID_PRED && (n)->memoize_id == INVALID_PRED, "an expression of that kind, with no id and no slot yet")
#define CALLED(a, t) ASSERT((a).var == INVALID_VAR && same((a).attr, t), "the variable, not numbered yet")
#define ALL(x, y) { size_t o_; ASSUME(o_ < sizeof(x)); ASSERT(((unsigned char*)&(x))[o_] == ((unsigned char*)&(y))[o_], "the constants given"); }
int main()
{
    char nm[3]; nm[2] = 0; ASSUME(nm[0] != 0); struct ast_node* n; uint64_t a, b; CL = a; CR = b;
#if V == 0
    int op; struct compare_value cv; struct equality_value ev; struct set_left_value sl; struct set_right_value sr; struct list_value lv; bool lit = any();
    n = ast_is_null_expr_create(op, nm); NEW(n, AST_TYPE_IS_NULL_EXPR); ASSERT(n->is_null_expr.type == op, "the test"); CALLED(n->is_null_expr.attr_var, nm);
    n = ast_compare_expr_create(op, nm, cv); NEW(n, AST_TYPE_COMPARE_EXPR); ASSERT(n->compare_expr.op == op, "the operator"); CALLED(n->compare_expr.attr_var, nm); ALL(n->compare_expr.value, cv)
    n = ast_equality_expr_create(op, nm, ev); NEW(n, AST_TYPE_EQUALITY_EXPR); ASSERT(n->equality_expr.op == op, "the operator"); CALLED(n->equality_expr.attr_var, nm); ALL(n->equality_expr.value, ev)
    n = ast_set_expr_create(op, sl, sr); NEW(n, AST_TYPE_SET_EXPR); ASSERT(n->set_expr.op == op, "the operator"); ALL(n->set_expr.left_value, sl) ALL(n->set_expr.right_value, sr)
    n = ast_list_expr_create(op, nm, lv); NEW(n, AST_TYPE_LIST_EXPR); ASSERT(n->list_expr.op == op, "the operator"); CALLED(n->list_expr.attr_var, nm); ALL(n->list_expr.value, lv)
    n = ast_bool_expr_literal_create(lit); NEW(n, AST_TYPE_BOOL_EXPR); ASSERT(n->bool_expr.op == AST_BOOL_LITERAL && n->bool_expr.literal == lit, "the truth value");
    n = ast_bool_expr_variable_create(nm); NEW(n, AST_TYPE_BOOL_EXPR); ASSERT(n->bool_expr.op == AST_BOOL_VARIABLE, "a variable"); CALLED(n->bool_expr.variable, nm);
#elif V == 1
    int op; ASSUME(op == AST_BOOL_AND || op == AST_BOOL_OR);
    n = ast_bool_expr_binary_create(op, &L, &R); NEW(n, AST_TYPE_BOOL_EXPR); ASSERT(n->bool_expr.op == op, "the connective");
    const struct ast_node *l = n->bool_expr.binary.lhs, *r = n->bool_expr.binary.rhs;
    ASSERT((l == &L && r == &R) || (l == &R && r == &L), "both operands, each once");
#ifdef ORDER
    ASSERT(l == &L ? CL <= CR : CR < CL, "the cheaper one first, as given when alike");
#endif
    n = ast_bool_expr_unary_create(&L); NEW(n, AST_TYPE_BOOL_EXPR); ASSERT(n->bool_expr.op == AST_BOOL_NOT && n->bool_expr.unary.expr == &L, "the negated operand");
#elif V == 2
    int op; struct string_value ns; int64_t v, sec; size_t len; uint64_t seg; double la, lo, ra; ASSUME(la == la && lo == lo && ra == ra); bool hr = any();
    n = ast_special_frequency_create(op, "campaign", ns, v, len); NEW(n, AST_TYPE_SPECIAL_EXPR);
    struct ast_special_frequency f = n->special_expr.frequency; ASSERT(n->special_expr.type == AST_SPECIAL_FREQUENCY && f.op == op && f.type == FREQUENCY_TYPE_CAMPAIGN && f.ns.string == ns.string && f.ns.var == ns.var && f.ns.str == ns.str && f.value == v && f.length == len, "the cap given"); CALLED(f.attr_var, "frequency_caps"); CALLED(f.now, "now");
    bool named = any(); n = ast_special_segment_create(op, named ? nm : NULL, seg, sec); NEW(n, AST_TYPE_SPECIAL_EXPR);
    struct ast_special_segment s = n->special_expr.segment; ASSERT(n->special_expr.type == AST_SPECIAL_SEGMENT && s.op == op && s.has_variable == named && s.segment_id == seg && s.seconds == sec, "the segment given"); CALLED(s.attr_var, named ? nm : "segments_with_timestamp"); CALLED(s.now, "now");
    n = ast_special_geo_create(op, la, lo, hr, ra); NEW(n, AST_TYPE_SPECIAL_EXPR);
    struct ast_special_geo g = n->special_expr.geo; ASSERT(n->special_expr.type == AST_SPECIAL_GEO && g.op == op && g.latitude == la && g.longitude == lo && g.has_radius == hr && g.radius == ra, "the place given"); CALLED(g.latitude_var, "latitude"); CALLED(g.longitude_var, "longitude");
    char p[3]; p[2] = 0; n = ast_special_string_create(op, nm, p); NEW(n, AST_TYPE_SPECIAL_EXPR);
    struct ast_special_string t = n->special_expr.string; ASSERT(n->special_expr.type == AST_SPECIAL_STRING && t.op == op && t.pattern != p && same(t.pattern, p), "the pattern given"); CALLED(t.attr_var, nm);
#elif V == 3
    char k[20]; k[19] = 0;
    int w = same(k, "advertiser") ? FREQUENCY_TYPE_ADVERTISER : same(k, "advertiser:ip") ? FREQUENCY_TYPE_ADVERTISERIP : same(k, "campaign") ? FREQUENCY_TYPE_CAMPAIGN : same(k, "campaign:ip") ? FREQUENCY_TYPE_CAMPAIGNIP : same(k, "campaign_group") ? FREQUENCY_TYPE_CAMPAIGN_GROUP : same(k, "campaign_group:ip") ? FREQUENCY_TYPE_CAMPAIGN_GROUPIP : same(k, "product") ? FREQUENCY_TYPE_PRODUCT : same(k, "product:ip") ? FREQUENCY_TYPE_PRODUCTIP : same(k, "flight") ? FREQUENCY_TYPE_FLIGHT : same(k, "flight:ip") ? FREQUENCY_TYPE_FLIGHTIP : FREQUENCY_TYPE_INVALID;
    ASSERT(get_type_from_string(k) == w, "the kind the name says, or none");
    struct string_value ns; uint32_t id, v; int64_t ts; bool td = any();
    struct betree_frequency_cap* c = make_frequency_cap(k, id, ns, td, ts, v);
    ASSERT(c->type == w && c->id == id && c->namespace.string == ns.string && c->namespace.var == ns.var && c->namespace.str == ns.str && c->timestamp_defined == td && c->timestamp == ts && c->value == v, "the cap given");
    betree_seg_t sid; int64_t st; struct betree_segment* g = make_segment(sid, st); ASSERT(g->id == sid && g->timestamp == st, "the segment given");
#else
    /* the cost does not depend on anything but the expression, and reading it changes nothing */
    int k, op, t; ASSUME(k == AST_TYPE_BOOL_EXPR && op >= AST_BOOL_OR && op <= AST_BOOL_LITERAL && CL < 1000000 && CR < 1000000); static struct ast_node N; N.type = k; N.bool_expr.op = op;
    if(op == AST_BOOL_AND || op == AST_BOOL_OR) { N.bool_expr.binary.lhs = &L; N.bool_expr.binary.rhs = &R; } if(op == AST_BOOL_NOT) N.bool_expr.unary.expr = &L;
    uint64_t s = score_node(&N);
    if(op == AST_BOOL_AND || op == AST_BOOL_OR) ASSERT(s == CL + CR, "the costs of both"); if(op == AST_BOOL_NOT) ASSERT(s == CL, "the cost of the operand");
#endif
    REACH();
}

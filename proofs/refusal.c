//@ what every way of adding an expression puts it through all the validations, each on the state it relies on, accepts exactly what they all accept, touches the tree or the boundaries only then, and releases a refused expression
//@ props C07 C14 C09 C19
//@ replace parse/c_parse assign_variable_id/c_vars all_variables_in_config/c_declared all_bounded_strings_valid/c_fits assign_constants/c_constants assign_str_id/c_strs assign_ienum_id/c_ienums all_ids_assigned/c_ids sort_lists/c_sort fix_float_with_no_fractions/c_floats all_types_valid/c_types all_exprs_valid/c_exprs change_boundaries/c_boundaries assign_pred_id/c_pred make_sub/c_sub insert_be_tree/c_insert free_ast_node/c_free
//@ functions betree_insert betree_insert_with_constants betree_make_sub betree_change_boundaries betree_insert_sub is_valid
//@ cbmc --unwind 12 --object-bits 12
//@ variant insert -DHOW=0
//@ variant plain -DHOW=1
//@ variant make -DHOW=2
//@ variant boundaries -DHOW=3
//@ variant insert_sub -DHOW=4
//@ assume refusal: the text is read by the generated parser; the contracts of the validations are those of units declared, typed, floats, ids, constants, strings_fit, boundaries, placement; they do not depend on the order of the other steps beyond what they require here
#include "spec.h"
#include "betree.c"
static struct ast_node NODE; static struct betree_sub SUB; static struct cnode ROOT; static struct config CONFIG;
/* what is so of the expression */
static bool PARSES, DECLARED, FITS, CONSTANTS, IDS, TYPES, NULLS, INSERTS;
/* what has been done */
static bool VARS, KNOWN, STRS, IENUMS, SORTED, FLOATS, BOUND, TYPED, IDED, FITTED, BOUNDARIES, PRED, MADE; static int INSERTED, FREED;
#define ALWAYS (HOW == 2 || HOW == 3)
#define HERE(n) ((n) == &NODE && FREED == 0)
int c_parse(const char* text, struct ast_node** node) __CPROVER_requires(1) __CPROVER_ensures((__CPROVER_return_value == 0) == PARSES && IMPLIES(PARSES, *node == &NODE)) __CPROVER_assigns(*node);
void c_vars(struct config* config, struct ast_node* node) __CPROVER_requires(HERE(node) && config == &CONFIG) __CPROVER_ensures(VARS) __CPROVER_assigns(VARS);
bool c_declared(const struct config* config, const struct ast_node* node) __CPROVER_requires(HERE(node) && config == &CONFIG && VARS) __CPROVER_ensures(__CPROVER_return_value == DECLARED && KNOWN == DECLARED) __CPROVER_assigns(KNOWN);
bool c_fits(const struct config* config, const struct ast_node* node) __CPROVER_requires(HERE(node) && config == &CONFIG && !STRS) __CPROVER_ensures(__CPROVER_return_value == FITS && FITTED == FITS) __CPROVER_assigns(FITTED);
bool c_constants(size_t count, const struct betree_constant** constants, struct ast_node* node) __CPROVER_requires(HERE(node) && !PRED) __CPROVER_ensures(__CPROVER_return_value == CONSTANTS && BOUND == CONSTANTS) __CPROVER_assigns(BOUND);
void c_strs(struct config* config, struct ast_node* node, bool always_assign) __CPROVER_requires(HERE(node) && config == &CONFIG && KNOWN && !SORTED && always_assign == ALWAYS) __CPROVER_ensures(STRS) __CPROVER_assigns(STRS);
void c_ienums(struct config* config, struct ast_node* node, bool always_assign) __CPROVER_requires(HERE(node) && config == &CONFIG && KNOWN && always_assign == ALWAYS) __CPROVER_ensures(IENUMS) __CPROVER_assigns(IENUMS);
bool c_ids(const struct ast_node* node) __CPROVER_requires(HERE(node) && STRS && IENUMS) __CPROVER_ensures(__CPROVER_return_value == IDS && IDED == IDS) __CPROVER_assigns(IDED);
void c_sort(struct ast_node* node) __CPROVER_requires(HERE(node) && STRS) __CPROVER_ensures(SORTED) __CPROVER_assigns(SORTED);
void c_floats(struct config* config, struct ast_node* node) __CPROVER_requires(HERE(node) && config == &CONFIG && KNOWN) __CPROVER_ensures(FLOATS) __CPROVER_assigns(FLOATS);
bool c_types(const struct config* config, const struct ast_node* node) __CPROVER_requires(HERE(node) && config == &CONFIG && KNOWN && FLOATS && IENUMS) __CPROVER_ensures(__CPROVER_return_value == TYPES && TYPED == TYPES) __CPROVER_assigns(TYPED);
bool c_exprs(const struct config* config, const struct ast_node* node) __CPROVER_requires(HERE(node) && config == &CONFIG && KNOWN && FLOATS && IENUMS) __CPROVER_ensures(__CPROVER_return_value == (TYPES && NULLS) && TYPED == (TYPES && NULLS)) __CPROVER_assigns(TYPED);
/* the boundaries are those of a valid expression: every other step is behind it */
void c_boundaries(struct config* config, const struct ast_node* node) __CPROVER_requires(HERE(node) && config == &CONFIG && KNOWN && TYPED && STRS && IENUMS && SORTED && FLOATS && IMPLIES(HOW == 2, BOUND)) __CPROVER_ensures(BOUNDARIES == true) __CPROVER_assigns(BOUNDARIES);
void c_pred(struct config* config, struct ast_node* node) __CPROVER_requires(HERE(node) && config == &CONFIG && KNOWN && TYPED && STRS && IENUMS && SORTED && FLOATS && BOUND) __CPROVER_ensures(PRED) __CPROVER_assigns(PRED);
static betree_sub_t ID;
struct betree_sub* c_sub(struct config* config, betree_sub_t id, struct ast_node* expr) __CPROVER_requires(HERE(expr) && config == &CONFIG && PRED && id == ID) __CPROVER_ensures(__CPROVER_return_value == &SUB && MADE) __CPROVER_assigns(MADE);
bool c_insert(const struct config* config, const struct betree_sub* sub, struct cnode* cnode, struct cdir* cdir) __CPROVER_requires(sub == &SUB && config == &CONFIG && cnode == &ROOT && cdir == NULL && MADE && FREED == 0 && IMPLIES(!ALWAYS && HOW != 4, IDED && FITTED)) __CPROVER_ensures(__CPROVER_return_value == INSERTS && INSERTED == __CPROVER_old(INSERTED) + 1) __CPROVER_assigns(INSERTED);
void c_free(struct ast_node* node) __CPROVER_requires(HERE(node) && !PRED) __CPROVER_ensures(FREED == 1) __CPROVER_assigns(FREED);
static bool any(void) { bool b; return b ? true : false; }
int main()
{
    VARS = KNOWN = STRS = IENUMS = SORTED = FLOATS = BOUND = TYPED = IDED = FITTED = BOUNDARIES = PRED = MADE = false; INSERTED = FREED = 0;
    PARSES = any(); DECLARED = any(); FITS = any(); CONSTANTS = any(); IDS = any(); TYPES = any(); NULLS = any(); INSERTS = any();
    struct betree tree; tree.config = &CONFIG; tree.cnode = &ROOT; betree_sub_t id; ID = id; const char* text; size_t count; const struct betree_constant** constants;
#if HOW == 0 || HOW == 1
    bool valid = PARSES && DECLARED && FITS && CONSTANTS && IDS && TYPES;
    bool r = HOW == 0 ? betree_insert_with_constants(&tree, id, count, constants, text) : betree_insert(&tree, id, text);
    ASSERT(INSERTED == (valid ? 1 : 0), "exactly the valid expressions are inserted, once");
    ASSERT(r == (valid && INSERTS), "the result tells whether it was inserted");
    ASSERT(!BOUNDARIES, "inserting changes no boundaries");
#elif HOW == 2
    bool valid = PARSES && DECLARED && CONSTANTS && TYPES && NULLS;
    const struct betree_sub* r = betree_make_sub(&tree, id, count, constants, text);
    ASSERT((r != NULL) == valid && IMPLIES(valid, r == &SUB), "exactly the valid expressions make a subscription");
    ASSERT(BOUNDARIES == valid && INSERTED == 0, "the boundaries follow the valid expressions only");
#elif HOW == 3
    bool valid = PARSES && DECLARED && TYPES;
    bool r = betree_change_boundaries(&tree, text);
    ASSERT(r == valid && BOUNDARIES == valid && INSERTED == 0 && !MADE, "the boundaries follow the valid expressions only");
#else
    MADE = true;
    bool r = betree_insert_sub(&tree, &SUB);
    ASSERT(r == INSERTS && INSERTED == 1, "a subscription made before is inserted once");
#endif
#if HOW == 3
    ASSERT(FREED == (PARSES ? 1 : 0), "the expression is released");
#elif HOW < 3
    ASSERT(FREED == (PARSES && !valid ? 1 : 0), "a refused expression is released, an accepted one kept");
#endif
    REACH();
}

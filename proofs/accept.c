//@ what every search and existence query validates the event, after its values got their types and ids and its lists were sorted, refuses exactly the invalid ones, and otherwise answers what the tree answers; the event made from a text and the values of a refused event are released, once
//@ props C07 C06 C09 C19
//@ replace event_parse/c_parse fill_event/c_fill sort_event_lists/c_sort make_environment/c_env validate_variables/c_valid betree_search_with_preds/c_search betree_exists_with_preds/c_exists free_event/c_free
//@ functions betree_search betree_search_with_event betree_search_with_event_filled betree_exists betree_exists_with_event betree_exists_with_event_filled make_event_from_string
//@ cbmc --unwind 12 --object-bits 12
//@ variant search -DHOW=0
//@ variant search_event -DHOW=1
//@ variant exists -DHOW=2
//@ variant exists_event -DHOW=3
//@ assume accept: the text of an event parses (the library ends the program otherwise); the contracts of the steps are those of units event_types, event_valid, environment, search_preds
#include "spec.h"
#include "alloc.h"
void model_free(const void* p);
#undef bfree
#define bfree model_free
#include "betree.c"
#include "tree.c"
static unsigned F_ENV;
static struct betree_event EVENT; static struct cnode ROOT; static struct config CONFIG; static struct report REPORT; static const struct betree_variable** ENV;
static bool VALID, FOUND, SEARCHED; static bool FILLED, SORTED, MADE, VALIDATED; static int RELEASED, ASKED;
void model_free(const void* p) { ASSERT(p == ENV, "nothing else is released"); F_ENV++; }
int c_parse(const char* text, struct betree_event** event) __CPROVER_requires(1) __CPROVER_ensures(__CPROVER_return_value == 0 && *event == &EVENT) __CPROVER_assigns(*event);
void c_fill(const struct config* config, struct betree_event* event) __CPROVER_requires(event == &EVENT && config == &CONFIG) __CPROVER_ensures(FILLED == true) __CPROVER_assigns(FILLED);
void c_sort(struct betree_event* event) __CPROVER_requires(event == &EVENT && FILLED) __CPROVER_ensures(SORTED == true) __CPROVER_assigns(SORTED);
const struct betree_variable** c_env(size_t count, const struct betree_event* event) __CPROVER_requires(event == &EVENT && FILLED && count == CONFIG.attr_domain_count) __CPROVER_ensures(__CPROVER_return_value == ENV && MADE == true) __CPROVER_assigns(MADE);
bool c_valid(const struct config* config, const struct betree_variable* variables[]) __CPROVER_requires(config == &CONFIG && variables == ENV && FILLED && MADE) __CPROVER_ensures(__CPROVER_return_value == VALID && VALIDATED == VALID) __CPROVER_assigns(VALIDATED);
bool c_search(const struct config* config, const struct betree_variable** preds, const struct cnode* cnode, struct report* report) __CPROVER_requires(config == &CONFIG && preds == ENV && cnode == &ROOT && report == &REPORT && VALIDATED && SORTED && RELEASED == 0) __CPROVER_ensures(__CPROVER_return_value == SEARCHED && ASKED == __CPROVER_old(ASKED) + 1) __CPROVER_assigns(ASKED);
bool c_exists(const struct config* config, const struct betree_variable** preds, const struct cnode* cnode) __CPROVER_requires(config == &CONFIG && preds == ENV && cnode == &ROOT && VALIDATED && SORTED && RELEASED == 0) __CPROVER_ensures(__CPROVER_return_value == FOUND && ASKED == __CPROVER_old(ASKED) + 1) __CPROVER_assigns(ASKED);
void c_free(struct betree_event* event) __CPROVER_requires(event == &EVENT && RELEASED == 0) __CPROVER_ensures(RELEASED == 1) __CPROVER_assigns(RELEASED);
static bool any(void) { bool b; return b ? true : false; }
int main()
{
    F_ENV = 0; FILLED = SORTED = MADE = VALIDATED = false; RELEASED = ASKED = 0; VALID = any(); FOUND = any(); SEARCHED = any(); ENV = malloc(sizeof(*ENV)); ASSUME(ENV != NULL);
    size_t n; CONFIG.attr_domain_count = n; struct betree tree; tree.config = &CONFIG; tree.cnode = &ROOT; const char* text;
    bool r = HOW == 0 ? betree_search(&tree, text, &REPORT) : HOW == 1 ? betree_search_with_event(&tree, &EVENT, &REPORT) : HOW == 2 ? betree_exists(&tree, text) : betree_exists_with_event(&tree, &EVENT);
    ASSERT(r == (VALID && (HOW < 2 ? SEARCHED : FOUND)), "refused exactly when invalid, else the answer of the tree");
    ASSERT(ASKED == (VALID ? 1 : 0), "the tree is asked about valid events only, once");
    ASSERT(RELEASED == (HOW == 0 || HOW == 2 ? 1 : 0), "an event made here is released, one given is left to its owner");
    ASSERT(F_ENV == (VALID ? 0 : 1), "the values of a refused event are released here, those of the others by the search");
    REACH();
}

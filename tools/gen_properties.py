import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,title
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=hook
    P.append(d)
p('C01','An expression evaluates to exactly what its operators mean',
 'For every valid expression and every valid event, the expression is true exactly when its mathematical reading is true: comparisons and equality on integers, floats (within machine epsilon for equality), strings and integer enums, membership, one of / none of / all of as set operations, null and emptiness tests, boolean variables, and/or/not as the boolean connectives, and the special predicates by their own definitions. An atomic predicate that uses a variable the event leaves undefined is false (the null tests, which ask about it, excepted), so its negation is true.',
 ['inputs'],'every expression of any size and shape, every event, every combination of defined and undefined variables',
 'tests sample a few dozen expressions; operator x value kind x undefined x nesting, with lists of any length and extreme integers, is unbounded',
 ['src/ast.c','src/var.c','src/special.c','src/utils.c'],
 [('recursive evaluation of the expression tree','src/ast.c match_node_inner and the match_* functions'),('sorted-list merge and binary search','src/ast.c match_*_of_*, d64binary_search, sbinary_search'),('fetching event values','src/var.c')],
 obs=['the ids reported by a search in a tree holding one subscription','the result of evaluating an expression'])
p('C02','The index never hides a matching subscription',
 'For every tree and every event, a search evaluates and reports every inserted subscription whose expression is true for that event; pruning by attribute and by value range never skips one. In particular the range derived from an expression for an attribute contains every value of that attribute for which the expression can be true, and the range of every index node on the path to a subscription contains the range of that subscription.',
 ['inputs','histories','configurations'],'every sequence of insertions and boundary changes, every variable domain, every event',
 'needs the interplay of derived ranges, repeated halving of domains and undefined or boundary values; the tests hold a handful of fixed trees',
 ['src/tree.c','src/ast.c'],
 [('range of an expression for an attribute','src/ast.c get_variable_bound'),('placement','src/tree.c sub_is_enclosed, insert_cdir, space_clustering, split_value_bound'),('lookup','src/tree.c match_be_tree, search_cdir, is_event_enclosed')],
 state=[('range of an index node','values of the attribute its subtree is searched for','src/tree.h cdir.bound')],
 obs=['ids reported by betree_search compared with evaluating each inserted expression on its own'])
p('C03','Skipping evaluation because variables are undefined changes no result',
 'When a search decides a subscription from the set of undefined variables alone, without evaluating its expression, the decision equals the result of evaluating the expression on that event. This holds for every expression, under any nesting of negations, and for variables at any position among the declared variables.',
 ['inputs','configurations'],'every expression, every number of declared variables, every set of undefined variables',
 'the decision depends on which of arbitrarily many variables are undefined, on negation and on 64-bit word boundaries; tests cover few variables',
 ['src/tree.c','src/ast.c','src/memoize.c'],
 [('pass/fail masks of a subscription','src/tree.c fill_short_circuit and the per-node function'),('test of the masks','src/tree.c try_short_circuit, make_undefined')],
 state=[('pass mask','undefined variables that alone make the expression true','src/tree.h short_circuit.pass'),('fail mask','undefined variables that alone make it false','src/tree.h short_circuit.fail')],
 obs=['ids reported by a search against evaluating the expression'])
p('C04','Sharing results of common sub-expressions changes no result',
 'The result reported for a subscription does not depend on which other subscriptions are in the tree, on their order, or on the order of evaluation: the cached result of a sub-expression is reused only for a sub-expression with the same meaning, within the same event. Two sub-expressions share a cache slot only when they are equal in operator, variable, constants and structure.',
 ['inputs','histories'],'every set of subscriptions, every order of insertion, every event',
 'needs several subscriptions with near-identical sub-expressions in one tree; the pairs of near-identical expressions are unbounded',
 ['src/ast.c','src/hashmap.c','src/ast_compare.c','src/memoize.c','src/tree.c'],
 [('cache slots','src/hashmap.c assign_pred'),('lookup and store','src/ast.c match_node_inner, src/memoize.c'),('per-event cache','src/tree.c make_memoize')],
 obs=['ids reported by a search in a tree with many subscriptions against trees with one'])
p('C05','Insertion keeps every subscription, once, through every reorganisation',
 'After a successful insertion the tree holds exactly the subscriptions it held before plus the new one, each exactly once, whatever splits, clusterings and moves the insertion caused; an insertion that reports failure leaves the subscriptions unchanged. Two subscriptions with the same id are both kept.',
 ['histories','inputs','configurations'],'every sequence of insertions, every capacity and partition size',
 'each reorganisation moves subscriptions between nodes while iterating over them; which one happens depends on the whole history',
 ['src/tree.c'],
 [('insertion','src/tree.c insert_be_tree, insert_sub, insert_cdir'),('reorganisation','src/tree.c space_partitioning, space_clustering, update_cluster_capacity, move, remove_sub, insert_pdir')],
 state=[('subscriptions of a leaf','pointer array with a count','src/tree.h lnode')],
 obs=['walk over all leaves of the tree'])
p('C06','A report lists each match once and its counters add up',
 'A successful search reports each matching subscription exactly once, with the id it was inserted with, and the number of matches equals the number of reported ids and never exceeds the number of evaluated subscriptions. The existence query answers yes exactly when a search on the same event reports at least one match, and both reject the same events.',
 ['inputs','histories'],'every tree, every event, every number of matches',
 'needs many matches at different depths and growth of the report; tests use small reports',
 ['src/tree.c','src/betree.c'],
 [('collection and growth of the report','src/tree.c match_be_tree, add_sub_to_eval, add_sub'),('existence query','src/tree.c betree_exists_with_preds')],
 obs=['struct report after betree_search','result of betree_exists'])
p('C07','Invalid expressions and events are refused and change nothing',
 'An expression that uses an undeclared variable or a variable of the wrong type for the operator is refused by every way of adding it, and validated insertion also refuses one with more distinct strings or enum values than its variable allows (building a subscription directly or changing boundaries extends the limit instead). A text that is not an expression is refused. A refusal does not abort and changes the result of no later search, apart from the room its values may have taken in the dictionary of a variable of limited size. Building a subscription directly additionally refuses null tests on variables that cannot be undefined and emptiness tests on variables that are not lists. An event with a value of the wrong type, or without a variable that must be defined, is refused, and every expression and event that is well typed is accepted.',
 ['inputs','configurations'],'every expression and event over every set of declared variables',
 'the pairs of operator and declared type, nested at any depth, are many and each is checked by different code; tests check a few',
 ['src/ast.c','src/betree.c','src/tree.c'],
 [('checks on expressions','src/ast.c all_variables_in_config, all_bounded_strings_valid, all_types_valid, all_exprs_valid, all_ids_assigned'),('checks on events','src/tree.c validate_variables, fill_event')],
 obs=['result of betree_insert, betree_make_sub, betree_change_boundaries, betree_search'])
p('C08','String and integer enum values get stable, distinct, bounded ids',
 'For each variable, equal values always get the same id and different values different ids, an id once given never changes, and a variable declared with n distinct values never hands out more than n ids through validated insertion. Looking values up while processing an event creates no ids, and values of one variable never affect another.',
 ['inputs','histories'],'every sequence of insertions and events, every number of variables and values',
 'the dictionary is built by the whole history of insertions; collisions need many values',
 ['src/config.c','src/map.c','src/ast.c'],
 [('dictionaries','src/config.c get_id_for_string, try_get_id_for_string, get_id_for_ienum, try_get_id_for_ienum'),('numbering the strings of an expression','src/ast.c assign_str_id, assign_ienum_id')],
 state=[('string map','values of one variable, id by value','src/config.h string_map'),('integer map','values of one variable, id is the index','src/config.h integer_map')],
 obs=['ids in expressions and events after insertion and before matching'])
p('C09','Lists behave as sets, whatever their order and repetitions',
 'Before matching, every list of an expression or event is sorted by the order the matcher relies on and free of repetitions, and holds exactly the values it was given. So the result of a list or membership operator does not depend on the order or the repetition of the elements on either side.',
 ['inputs'],'every list of every length, in expressions and in events',
 'matching assumes sorted duplicate-free lists; all orders and repetitions cannot be sampled',
 ['src/value.c','src/ast.c','src/tree.c','src/utils.c'],
 [('sorting and removing repetitions','src/value.c sort_and_remove_duplicate_*, remove_duplicates_*'),('order','src/utils.c icmpfunc, scmpfunc'),('traversal','src/ast.c sort_lists, src/tree.c sort_event_lists')],
 obs=['lists of an inserted expression','results of searches with permuted lists'])
p('C10','A cloned expression is equal to and independent of the original',
 'The copy of an expression has the same structure, operators, variables, constants and ids as the original, so it evaluates the same on every event, and shares no memory with it: releasing or changing either leaves the other intact.',
 ['inputs'],'every expression of any shape',
 'each node kind has its own copy code, nested at any depth',
 ['src/clone.c','src/value.c','src/config.c'],
 [('recursive copy','src/clone.c clone_node and the per-kind functions')],
 obs=['the copy compared field by field with the original'])
p('C11','Changing boundaries from an expression only ever widens them',
 'Applying an expression to the boundaries of the declared variables never narrows a limit that was set (a side declared without a limit gets the limit the expression needs). Afterwards the boundaries of a variable cover the constant of each comparison, equality, membership or list operator the expression applies to it, or for a strict comparison the nearest value that satisfies it (for floats one machine epsilon away), taking negation into account; the extreme values, which stand for no limit, are not reached. Variables the expression does not use in such an operator keep their boundaries.',
 ['inputs','histories'],'every expression, every previous boundaries',
 'the widening joins the ranges of arbitrarily nested operators with the previous range, including extreme integers',
 ['src/betree.c','src/ast.c','src/tree.c'],
 [('widening','src/betree.c / src/ast.c change_boundaries and the simple bound of an expression')],
 state=[('domain','range of values of a variable','src/config.h attr_domain.bound')],
 obs=['domain of each variable before and after betree_change_boundaries and betree_make_sub'])
p('C12','The order and the equality on expressions are consistent',
 'The comparison used to find equal expressions is a total order: zero exactly for expressions with the same kind, operator, variable, constants and equal parts (operands of and/or as stored, cheaper first), antisymmetric and transitive. The equality tests on expressions agree: they are reflexive and symmetric and never identify expressions that differ in any part that matters to evaluation (floats less than the machine epsilon apart count as the same there).',
 ['inputs'],'all pairs and triples of expressions',
 'quantifies over pairs and triples of expressions; tests compare a few pairs',
 ['src/ast_compare.c','src/ast.c'],
 [('comparison','src/ast_compare.c expr_cmp'),('equality','src/ast.c eq_expr')],
 obs=['sign of the comparison','results of the equality tests'])
p('C13','Maps and ordered sets store exactly what was put in',
 'After any sequence of operations the hash map returns for each key the value last stored and nothing for keys never stored or removed, the ordered tree finds exactly the elements inserted, in order, keeps the element it has when an equal one is inserted, and has as its size the number of its elements, and bit sets change only the bit addressed.',
 ['histories','inputs'],'every sequence of operations on keys of any number and content',
 'rehashing and rebalancing depend on the whole history',
 ['src/map.c','src/jsw_rbtree.c','src/memoize.c'],
 [('hash map','src/map.c'),('balanced tree','src/jsw_rbtree.c'),('bit sets','src/memoize.c')],
 obs=['results of get, set, remove, find, insert'])
p('C14','Constants given with a subscription are bound to every use',
 'A frequency cap in a subscription uses the id given as the constant of its kind, wherever it is nested in the expression, and nothing else of the expression changes. A subscription is refused exactly when the constant for some frequency cap it contains is missing.',
 ['inputs'],'every expression, every set and order of constants',
 'tests use one constant and a shallow expression; all kinds, nesting and missing constants are not covered',
 ['src/ast.c'],
 [('binding of constants','src/ast.c assign_constants')],
 obs=['result of betree_insert_with_constants','searches with frequency caps of several ids'])
p('C15','Frequency caps, segments and text predicates follow their definitions',
 'A frequency cap predicate is true when the event has no cap of that kind, id and namespace, and otherwise depends only on the first such cap: with no time window on its count being below the limit, else on its count, on its age exceeding the window, or on its time being unset. A segment predicate depends only on the time of that segment in the event being inside or before the given number of seconds, false if absent; contains, starts with and ends with are the usual text relations.',
 ['inputs'],'all caps, segments, times, limits, texts and patterns of any length',
 'arithmetic on full-width times and counts and lists of any length; tests use small positive values',
 ['src/special.c'],
 [('definitions','src/special.c within_frequency_caps, segment_within, segment_before, contains, starts_with, ends_with')],
 obs=['search results with special predicates'])
p('C16','Every accepted subscription can be indexed: splitting always terminates',
 'Inserting any valid subscription into any tree terminates without aborting, whatever the domain of its variables (including the widest and the one-value ones) and the parameters of the tree. When the range of an index node is halved, the halves stay within the range and reach both its ends, each is strictly smaller, they overlap at most in the dividing value, and for integers and ids they leave no value out.',
 ['inputs','configurations','histories'],'every domain, every parameter pair, every history of insertions',
 'extreme domains and parameters combined with long histories',
 ['src/tree.c','src/config.c','src/betree.c'],
 [('halving of a range','src/tree.c split_value_bound, is_atomic'),('parameters','src/config.c make_config, src/betree.c betree_make_with_parameters'),('when to split','src/tree.c is_attr_used_in_parent, splitable_attr_domain')],
 obs=['return of betree_insert','ranges of index nodes'])
p('C17','Reading an expression or event text yields the structure it denotes',
 'The text of an expression is read with the documented operators and precedence into one structure, a text outside the grammar is refused, and printing a structure and reading it back yields an equal structure.',
 ['inputs'],'every text','texts are unbounded',
 ['src/parser.c','src/lexer.c','src/event_parser.c','src/event_lexer.c','src/printer.c'],
 [('generated parsers','src/parser.c, src/event_parser.c')],
 obs=['structure built from a text'])
p('C18','Growing arrays keep their contents and stay in bounds',
 'Appending to any growing collection (list values, event variables, subscriptions of a leaf, index nodes, declared variables, dictionaries, reports) keeps every earlier element in place, adds the new one at the end, and raises the count by one, for any number of appends. Removing an element keeps all the others in their order, and no access falls outside the allocated memory.',
 ['histories','inputs'],'any number of appends and removals on any collection',
 'memory errors at particular sizes are not observable in a test that happens to pass',
 ['src/value.c','src/tree.c','src/config.c','src/alloc.c'],
 [('append and remove','src/value.c add_*, src/tree.c add_variable, insert_sub, remove_sub, add_sub, src/config.c add_attr_domain and the dictionaries')],
 obs=['contents of the collection after each operation'])
p('C19','What is released is released once, whole, and nothing is left behind',
 'Releasing a tree, event, value, list, constant or report gives back every block it owns exactly once, and gives back nothing that something else still uses. An operation that is refused (a text that cannot be read, an expression or event that is not valid) gives back everything it allocated, except the room its values took in a dictionary; a search or existence query holds no memory after it returns beyond its report, and releases an event it made itself but never one it was given. So after a tree is released, everything allocated since it was made has been given back.',
 ['inputs','histories'],'every tree, expression, event and report of any size and shape; every history of insertions, refusals, searches and releases',
 'a leak or a second release depends on which parts are present and on the path taken to a refusal; tests run a few of them and assert nothing about memory',
 ['src/tree.c','src/betree.c','src/config.c','src/value.c','src/ast.c','src/map.c','src/jsw_rbtree.c','src/parser.y'],
 [('releasing the index and what it holds','src/tree.c free_cnode, free_pdir, free_cdir, free_pnode, free_lnode, free_sub'),('releasing the configuration','src/config.c free_config, src/map.c map_deinit_, src/jsw_rbtree.c jsw_rbdelete'),('releasing expressions, events and values','src/ast.c free_ast_node, src/tree.c free_event, src/value.c free_*'),('refusals','src/betree.c betree_insert_with_constants, betree_make_sub, betree_change_boundaries, src/parser.y %destructor')],
 obs=['bytes allocated before and after a sequence of operations that ends in a release','a block used or released after its release (AddressSanitizer)'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
for x in P: print(x['id'],x['title'])

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that anchors and wording are edited in one place)."""
import json, os
I = "include/bpptree/"
D = I + "detail/"
TESTS = ("The suite drives a handful of fixed random walks (mostly 512-byte nodes or one tiny node size, int32 or pair<int,int>) "
         "and compares against one std container; ")
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("P01", "A tree is faithful to the sequence its history of edits describes",
 "After any history of pushes, pops, inserts, erases, assignments, updates and clears, a tree contains exactly the elements of the sequence those edits describe, in order: size, emptiness, first and last element, and traversal in both directions all agree with that sequence. Each edit changes only the element it names, leaves the variables it is given as they were, and a value handed back by a pop or to an updater is the element it names.",
 ["histories", "inputs", "configurations"],
 "for every finite history of sequence edits through every entry point (ends, all four iterator kinds, index, key), every element type and every node size",
 TESTS + "node splits, root growth, underfull leaves, emptied subtrees and root collapse occur in combinations no fixed walk enumerates, and element counts at node boundaries depend on the node size.",
 [I+"bpptree.hpp", D+"leafnodebase.hpp", D+"internalnodebase.hpp", D+"modify.hpp", D+"operations.hpp"],
 [("leaf insert/split/erase", D+"leafnodebase.hpp: insert_no_split, insert_split, erase"), ("internal split/replace/erase", D+"internalnodebase.hpp"), ("root growth and collapse", D+"modify.hpp: DoSplit, DoReplace, collapse")],
 [("tree_size", "number of elements", I+"bpptree.hpp Shared"), ("length", "elements or children of a node", D+"nodetypes.hpp NodeBase")],
 ["size(), empty(), front(), back(), begin()..end(), rbegin()..rend(), pop results"])

prop("P02", "A persistent tree never changes",
 "Once a persistent tree exists, its contents and the answer to every query on it stay the same for as long as it lives, and its iterators stay valid and keep referring to the same elements. No operation on any other tree can change that: not on the trees it was made from or turned into, nor on any tree that shares history with them, nor their destruction.",
 ["histories", "configurations"],
 "for every history of edits, conversions, copies, moves and destructions over a family of trees that share structure, and every persistent tree made along the way",
 TESTS + "immutability is checked for one snapshot per step at most, never for a family of old versions that are derived from and destroyed in arbitrary orders.",
 [I+"bpptree.hpp", D+"leafnodebase.hpp", D+"internalnodebase.hpp", D+"nodeptr.hpp", D+"modify.hpp"],
 [("copy on write flag", D+"nodetypes.hpp NodeBase::persistent; make_persistent"), ("copying branch of every leaf and internal edit", D+"leafnodebase.hpp, "+D+"internalnodebase.hpp"), ("reference counts", D+"nodeptr.hpp")],
 [("persistent", "node may be shared and must not be written", D+"nodetypes.hpp"), ("ref_count", "owners of a node", D+"nodetypes.hpp")],
 ["contents, queries and held iterators of every live persistent tree after every operation on any other tree"])

prop("P03", "Edits of persistent trees and conversions agree with transient trees",
 "Every editing operation of a persistent tree returns a new tree equal to what the operation of the same name does to a transient tree with the same contents, leaves the original as it was, and is rejected where the transient operation is rejected. Converting between the two forms in either direction, from an lvalue or from an rvalue, yields a tree with equal contents and equal answers to every query.",
 ["histories", "inputs", "configurations"],
 "for every tree contents and every editing operation with every kind of argument (iterator of each kind, index, key), interleaved with conversions in any order",
 TESTS + "persistent edits are tested with one entry point at a time and never with reverse iterators, and rvalue conversions only at fixed places.",
 [I+"bpptree.hpp", I+"indexed.hpp", I+"ordered.hpp"],
 [("persistent operations go through a transient copy", I+"bpptree.hpp Persistent, "+I+"indexed.hpp Persistent, "+I+"ordered.hpp Persistent"), ("conversions", I+"bpptree.hpp persistent(), transient()")],
 None, ["returned trees, the originals, and converted trees"])

prop("P04", "Key lookups return exactly what a sorted sequence dictates",
 "On an ordered tree, looking up a key finds an element with that key exactly when one exists and otherwise reports absence (an end iterator, false, or an exception), lower_bound is the first element not less than the key and upper_bound the first one greater. This holds for every key, present or not, with duplicates, for linear and for binary search, for any comparator and key extractor, on transient and persistent trees.",
 ["histories", "inputs", "configurations"],
 "for every history that keeps the tree ordered, every probed key (present, absent, below, between, above), every comparator, extractor, search strategy and node size",
 TESTS + "upper_bound is marked 'TODO add tests' in the source, duplicates are never generated, and probes for absent keys at node boundaries after erasures are incidental.",
 [I+"ordered.hpp", D+"ordered_detail.hpp"],
 [("per-child separator keys", D+"ordered_detail.hpp InternalNode: keys, set_element, update on delta"), ("search in leaf and internal nodes", D+"ordered_detail.hpp lower_bound_index, find_key_index, seek_key")],
 [("keys", "greatest key below each child", D+"ordered_detail.hpp")],
 ["find, contains, at_key, operator[], lower_bound, upper_bound and their const forms"])

prop("P05", "Key edits behave like a sorted map or multiset",
 "On an ordered tree, insert-if-absent adds the element exactly when no element has its key, insert-or-assign overwrites the element with that key or else adds it, and assign, update and erase by key affect exactly one element with that key. The tree stays sorted by key after every one of these edits.",
 ["histories", "inputs", "configurations"],
 "for every history of key edits mixed with order-preserving positional edits, every key distribution, every argument form and every configuration of the ordered mixin",
 TESTS + "insert-if-absent on an existing key and key edits on duplicates are not covered, and argument forms (pair, two arguments, piecewise) hardly vary.",
 [I+"ordered.hpp", D+"ordered_detail.hpp"],
 [("insert_or_assign at leaf and internal level", D+"ordered_detail.hpp"), ("key edits", I+"ordered.hpp insert_v, assign_v, insert_or_assign, erase_key, update_key")],
 None, ["contents after every edit by key"])

prop("P06", "Indexes, order of iterators and differences agree with positions",
 "On an indexed tree, reading, assigning, updating, inserting and erasing at an index act on the element at that position of the sequence, finding an index yields an iterator to it (the end for the size), and the order of an iterator is its position. The difference of two iterators is the number of steps between them, forwards and in reverse.",
 ["histories", "inputs", "configurations"],
 "for every history of edits of any kind, every valid index and every pair of iterators, every index type and node size",
 TESTS + "order() and differences are only sampled on a few shapes, and reverse differences including the position before the first element on none.",
 [I+"indexed.hpp", D+"indexed_detail.hpp", D+"iterator.hpp"],
 [("per-child element counts as prefix sums", D+"indexed_detail.hpp"), ("index descent", D+"indexed_detail.hpp at_index, find_index, insertion_index, seek_index, order"), ("iterator difference", D+"iterator.hpp operator-")],
 [("child counts", "prefix counts of elements below each child", D+"indexed_detail.hpp")],
 ["at_index, operator[], find_index, order, iterator difference, *_index edits"])

prop("P07", "Prefix sums equal the sum of the elements before the iterator",
 "On a summed tree, the total is the sum of the extracted values of all elements, and the inclusive and exclusive sums at an iterator are the sums of everything before it with and without the element itself. This holds after every history of edits, for transient and persistent trees, for every extractor and sum type whose sums do not overflow.",
 ["histories", "inputs", "configurations"],
 "for every history of edits through every entry point and every iterator position, with negative and positive values",
 TESTS + "sums are checked for pushes and random index edits on one or two extractors; edits by key, by iterator, through proxies and on shared nodes are not combined with sums.",
 [I+"summed.hpp", D+"summed_detail.hpp"],
 [("per-child partial sums kept by deltas", D+"summed_detail.hpp"), ("prefix sum descent", D+"summed_detail.hpp sum_inclusive, sum_exclusive")],
 [("child sums", "prefix sums of children", D+"summed_detail.hpp")],
 ["sum(), sum_inclusive(it), sum_exclusive(it)"])

prop("P08", "Searching by prefix sum finds the first element reaching the target",
 "On a summed tree of non-negative values, searching for a target sum returns the first element whose inclusive sum is at least the target, and the end when the total is smaller than the target. This holds with zero-valued elements and for targets that fall exactly on, just below or just above a partial sum.",
 ["histories", "inputs", "configurations"],
 "for every history of edits, every target from zero to beyond the total",
 TESTS + "the one test pushes random values and probes every target on one shape; zero runs at node boundaries after erasures and edits are not reached.",
 [I+"summed.hpp", D+"summed_detail.hpp"],
 [("descent by remaining target", D+"summed_detail.hpp seek_index_forward")],
 None, ["sum_lower_bound(target) and its const forms"])

prop("P09", "Minimum and maximum queries are right for the tree and every subrange",
 "With the min or max mixin, the minimum (maximum) of the tree and of every non-empty range of iterators, forward or reverse, equals the least (greatest) extracted value in that range under the comparator, and the element form returns an iterator inside that range to an element with that value. This holds after every history of edits, including ones that remove or overwrite the current extremum.",
 ["histories", "inputs", "configurations"],
 "for every history of edits, every non-empty subrange, every extractor and comparator, every node size, ties included",
 TESTS + "subranges are tested on one tree size with distinct shapes only after pushes and a few edits; reverse ranges and custom comparators are barely touched.",
 [I+"min.hpp", I+"max.hpp", D+"minmax.hpp", D+"minmax2.ipp"],
 [("per-child extremum", D+"minmax.hpp"), ("range query over partial nodes", D+"minmax.hpp, "+D+"minmax2.ipp")],
 [("child extrema", "extremum of each child", D+"minmax.hpp")],
 ["min(), max(), min(b,e), max(b,e), min_element, max_element, const and reverse forms"])

prop("P10", "Iterators move and compare like positions in the sequence",
 "For all four kinds of iterators, moving by any signed distance that stays within the sequence lands on the element that many steps away, dereferencing in any form yields that element, validity tells elements from the past-the-end positions, and the comparison operators agree with the order of positions in the direction of travel.",
 ["histories", "inputs", "configurations"],
 "for every tree shape reachable by edits, every iterator kind, every start position and signed distance, every pair of positions",
 TESTS + "jumps are tested on full trees built by pushing, so irregular shapes left by erasures and splits are not, and reverse comparison is untested.",
 [D+"iterator.hpp", D+"internalnodebase.hpp", D+"leafnodebase.hpp", I+"bpptree.hpp"],
 [("packed path in the iterator", D+"iterator.hpp iter; get_index/set_index in nodes"), ("advance through leaf and up the tree", D+"leafnodebase.hpp advance, "+D+"internalnodebase.hpp advance"), ("comparison operators", D+"iterator.hpp")],
 [("iter", "index of the child at each level packed in one word", D+"iterator.hpp")],
 ["++, --, +=, -=, +, -, [], *, ->, get(), valid(), ==, !=, <, <=, >, >="])

prop("P11", "Iterators survive the edits the documentation says they survive",
 "Assigning to or updating elements of a transient tree leaves all of its iterators pointing at the same positions, and inserting or erasing through an iterator leaves that iterator on the new element or on the element after the erased one (the one before it, in its own direction the next one, for reverse iterators). Turning a transient tree into a persistent one does not disturb its iterators either, and an iterator that survived can be used for further edits.",
 ["histories", "inputs", "configurations"],
 "for every history, every set of outstanding iterators of all kinds, and every operation that is documented to keep them, also across node splits, emptied nodes and copy on write",
 TESTS + "iterator insert/erase loops are tested, but not iterators held across copy on write, conversions or unrelated assignments, nor erasures that empty a node with iterators of every kind.",
 [D+"iterator.hpp", I+"bpptree.hpp", D+"internalnodebase.hpp", D+"leafnodebase.hpp"],
 [("modification count and leaf refresh", D+"iterator.hpp fix_leaf, mod_count"), ("path repair on split and on erase", D+"leafnodebase.hpp insert_split/erase carry, "+D+"internalnodebase.hpp")],
 [("mod_count", "number of modifications of the tree", I+"bpptree.hpp Transient"), ("carry", "erased element was the last of its node", D+"helpers.hpp Replace")],
 ["position and element of every surviving iterator after every operation"])

prop("P12", "Reference proxies and standard algorithms act like real references",
 "The proxies returned by dereferencing a mutable iterator or by subscripting with an index or key read, assign, compound-assign, increment, decrement, compare and convert exactly as a plain reference to the element would, for every element type including narrow integers. Standard algorithms run over iterators of a transient tree give the result they give on a vector with the same contents, and all mixin queries stay consistent afterwards.",
 ["inputs", "histories", "configurations"],
 "for every operator and every operand (of the element type, wider, unsigned, fractional, or another proxy), every element type, and every algorithm over every subrange of every tree",
 TESTS + "only a few operators are used on int32 elements and no mutating algorithm is run over a tree with mixins.",
 [D+"proxy_operators.hpp", D+"iterator.hpp", I+"indexed.hpp", I+"ordered.hpp"],
 [("operator forwarding", D+"proxy_operators.hpp"), ("proxy reads and writes through the tree", D+"iterator.hpp ProxyRef, "+I+"indexed.hpp ProxyRef, "+I+"ordered.hpp ProxyRef")],
 None, ["proxy results and contents after each operator or algorithm; sums, extrema and lookups afterwards"])

prop("P13", "Every element is constructed and destroyed exactly once and nothing leaks",
 "Throughout any history over a family of trees, elements are only read, assigned or destroyed while they are alive, each is destroyed exactly once, and no memory is accessed outside live nodes. When all trees are gone, no element and no memory block remains.",
 ["histories", "configurations", "fault_sequences"],
 "for every history of edits, conversions, copies, moves and destructions with element types that own memory, also when an updater or the construction of the new element throws",
 TESTS + "tests hold trivially copyable elements almost everywhere and run without a sanitizer or leak check.",
 [D+"uninitialized_array.hpp", D+"leafnodebase.hpp", D+"internalnodebase.hpp", D+"nodeptr.hpp", D+"minmax.hpp", D+"ordered_detail.hpp"],
 [("manual lifetime of array elements", D+"uninitialized_array.hpp"), ("node reference counts", D+"nodeptr.hpp"), ("node destructors", D+"leafnodebase.hpp, "+D+"internalnodebase.hpp")],
 [("ref_count", "owners of a node", D+"nodetypes.hpp")],
 ["element lifetime ledger, heap ledger, address sanitizer"])

prop("P14", "Edits and queries cost logarithmic work and share structure",
 "An edit of a persistent tree, and an edit of a transient tree after a snapshot, allocates only a number of nodes proportional to the depth of the tree; edits of a transient tree that shares nothing copy nothing. Copying a tree or converting it allocates nothing proportional to its size, and queries allocate nothing. Lookups by key make a number of comparisons bounded by depth times node capacity (its logarithm with binary search); every single query, edit, and move of an iterator of an indexed tree by any distance executes a number of steps bounded by depth times node capacity, not by the number of elements; nodes stay within their configured byte limits, and depth and size stay within the advertised limits and logarithmic for trees that only grow. An erasure never deepens a tree, and a tree left with a single element is a single node again.",
 ["histories", "inputs", "configurations"],
 "for every tree size and shape and every single edit or query on it",
 TESTS + "they check results, not cost: a change that copied whole trees or scanned all leaves would pass.",
 [I+"bpptree.hpp", D+"nodetypes.hpp", D+"leafnodebase.hpp", D+"internalnodebase.hpp", D+"ordered_detail.hpp", D+"modify.hpp"],
 [("path copying", D+"internalnodebase.hpp, "+D+"leafnodebase.hpp"), ("node capacity computed from byte limits", D+"nodetypes.hpp get_leaf_node_size, get_internal_node_size"), ("early stop when already copy on write", D+"internalnodebase.hpp make_persistent")],
 None, ["allocation counts and sizes, comparator call counts and executed basic blocks around each operation, depth(), max_depth(), max_size()"])

prop("P15", "Persistent trees can be shared between threads",
 "Persistent trees that share structure can be read, copied, turned into transients, edited into new versions and destroyed by several threads at once, each thread using its own tree objects, without data races and with every thread seeing the contents it would see alone. The same holds for transient trees derived from a common persistent tree when each is used by one thread, and one persistent tree object may be read and copied by several threads while none changes it.",
 ["schedules", "histories"],
 "for every interleaving of threads that each own tree objects sharing nodes with those of other threads",
 TESTS + "no test starts a second thread.",
 [D+"nodeptr.hpp", D+"nodetypes.hpp", D+"leafnodebase.hpp", D+"internalnodebase.hpp"],
 [("atomic reference counts with release/acquire on destruction", D+"nodeptr.hpp dec_ref, inc_ref"), ("shared nodes are never written", D+"leafnodebase.hpp, "+D+"internalnodebase.hpp make_persistent and copy branches")],
 [("ref_count", "owners of a node, across threads", D+"nodetypes.hpp")],
 ["ThreadSanitizer reports, per-thread model comparison, leak accounting after all threads end"])

prop("P16", "A rejected or failed operation leaves the tree unchanged",
 "When an operation is rejected or fails (a key that is missing or does not match, an extremum of an empty range, comparing iterators of different trees, growing past the maximum depth with safety checks enabled, an updater that throws, or an element whose construction or conversion from the arguments throws), it reports that by an exception. The tree it was applied to, and every other tree, is unchanged and stays fully usable.",
 ["fault_sequences", "histories", "inputs"],
 "for every tree, every rejected operation and every point at which user code throws before the tree has accepted the element, followed by any further history",
 TESTS + "no test makes an operation fail and then continues with the same tree.",
 [I+"ordered.hpp", D+"ordered_detail.hpp", D+"leafnodebase.hpp", D+"modify.hpp", D+"minmax2.ipp", D+"iterator.hpp"],
 [("checks before modification", D+"ordered_detail.hpp find_key_index_checked, "+I+"ordered.hpp update_key, check_key"), ("new element constructed before anything moves", D+"leafnodebase.hpp insert_index, assign2"), ("depth check", D+"leafnodebase.hpp, "+D+"modify.hpp can_split")],
 None, ["exception raised, then contents, queries and further edits"])

prop("P17", "Results do not depend on node sizes, mixins or search strategy",
 "The same history of edits and queries gives the same results whatever the leaf and internal node sizes, the depth limit, the set and order of mixins, linear or binary search, the index type, and whether exceptions or safety checks are enabled. Adding a mixin never changes what the tree contains nor what the other mixins answer.",
 ["configurations", "histories", "inputs"],
 "for every pair of configurations that both support the operations of a history, and every such history",
 TESTS + "each mixin is tested mostly on its own with one or two node sizes; combinations of four mixins, one-element leaves and permuted mixin orders are not.",
 [D+"nodetypes.hpp", D+"sandwich.hpp", D+"uninitialized_array.hpp", D+"internalnodebase.hpp", I+"indexed.hpp", I+"ordered.hpp", I+"summed.hpp", I+"min.hpp", I+"max.hpp"],
 [("mixin chain", D+"sandwich.hpp Chain"), ("node info deltas per mixin", D+"nodetypes.hpp NodeInfoMixin"), ("capacity computation", D+"nodetypes.hpp")],
 None, ["observations of trees of different configurations driven in lockstep"])

prop("P18", "Arguments may refer to elements of the tree being edited",
 "An edit whose argument refers to an element of the very tree being edited (a reference from front, back, an index, a key, an iterator or a proxy, by value or by key) stores the value that argument had before the edit, as the standard containers guarantee. This holds whether or not the edit splits a node, moves elements, or copies shared nodes.",
 ["inputs", "histories", "configurations"],
 "for every tree, every pair of source element and target position, every editing operation and argument form",
 TESTS + "no test passes a reference into the tree back to it.",
 [D+"leafnodebase.hpp", I+"bpptree.hpp", I+"indexed.hpp", I+"ordered.hpp", D+"uninitialized_array.hpp"],
 [("new element constructed first", D+"leafnodebase.hpp insert_index, assign2"), ("replacement of a node keeps the old one alive long enough", D+"modify.hpp, "+D+"internalnodebase.hpp")],
 None, ["contents and mixin queries after each aliased edit"])

prop("P19", "The inverted index example stores exactly the term-document pairs added",
 "For every sequence of insertions of (term, document) pairs, the documents reported for a term are exactly the distinct documents added for it, in increasing order, and the term list holds every term once with its number of documents. This holds for the transient and the persistent form, for any order of insertion, and versions made earlier do not change.",
 ["histories", "inputs"],
 "for every sequence of insertions over any set of terms and documents and every version in between",
 TESTS + "one test inserts a few fixed-order terms into the transient form only.",
 ["examples/inverted_index.hpp", I+"summed.hpp", I+"ordered.hpp", I+"indexed.hpp"],
 [("document range of a term from prefix sums of counts", "examples/inverted_index.hpp term_doc_iterator"), ("insertion", "examples/inverted_index.hpp insert")],
 None, ["term_list(), term_doc_iterator(term or iterator)"])

prop("P20", "Copies, moves and clears of trees are independent of each other",
 "Copying or assigning a transient or persistent tree gives a tree with equal contents that from then on evolves independently of the original, and moving gives a tree with the contents the source had. Clearing, reassigning or destroying a tree affects no other tree, self-assignment changes nothing, and a cleared or assigned-to tree is fully usable.",
 ["histories", "configurations"],
 "for every history of copies, moves, assignments, clears and edits over a family of trees",
 TESTS + "no test copies a transient tree and edits both, or assigns over a tree that shares nodes.",
 [I+"bpptree.hpp", D+"nodeptr.hpp", D+"internalnodebase.hpp"],
 [("copy constructor marks nodes copy on write", I+"bpptree.hpp Transient(Transient const&)"), ("reference counts", D+"nodeptr.hpp"), ("clear", I+"bpptree.hpp clear")],
 None, ["contents of every tree of the family after every operation"])

prop("P21", "Tree options combine in any order and each takes effect",
 "Options of a tree type (leaf_node_bytes, internal_node_bytes, depth_limit, disable_exceptions, compare, binary_search, size_type) and of its mixin builders (extractor, compare, binary_search) can be chained in any order. Each takes effect whatever is set before or after it, the last of a kind counts, and options never touch each other. The tree is the one with exactly those parameters: no node exceeds its byte limit, the depth stays within its limit, keys and extrema follow the given comparators and extractors, lookups compare as the chosen search does, positions have the chosen type, and user exceptions propagate unless disabled.",
 ["configurations", "histories"],
 "for every sequence of options on every kind of tree and every history of edits and queries on the resulting tree",
 TESTS + "they use a handful of option sequences, each in one order, and no test sets an option after disable_exceptions.",
 [I+"ordered.hpp", I+"indexed.hpp", I+"min.hpp", I+"max.hpp", I+"summed.hpp", I+"bpptree.hpp"],
 [("options of BppTreeMap, BppTreeSet", I+"ordered.hpp BppTreeMap, BppTreeSet, OrderedBuilder"), ("options of BppTreeVector", I+"indexed.hpp BppTreeVector, IndexedBuilder"), ("options of extremum builders", I+"min.hpp MinBuilder, "+I+"max.hpp MaxBuilder"), ("mixins keep the parameters", I+"bpptree.hpp BppTree::mixins")],
 None, ["block sizes and allocations, comparator and extractor calls, depth, contents, aggregates, position types, fate of a user exception"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

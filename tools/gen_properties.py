#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Cycle-safe equivalence verdict is exact on every pair of finite graphs",
  "For every pair of finite graphs (cyclic, shared, degenerate, or sharing nodes with each other), the premade cycle-safe and robust predicates, with and without precheck, report equivalence exactly when no pair of nodes at the same path differs in its own value or in its number of edges. In particular a difference that exists anywhere on any path is never missed and no difference is ever invented.",
  ["inputs"], "all pairs of finite rooted, node-labelled, edge-ordered graphs, with arbitrary cycles, sharing inside a graph and between the two graphs",
  "The tests compare about ten fixed regular shapes (lists, vees, degenerate chains), nearly always with themselves, so they only ever reach the answer 'equivalent' on graphs with cycles; unequal, irregularly shared or differently folded cyclic graphs are never compared.",
  ["src/cycle_safe.rs", "src/robust.rs", "src/generic.rs", "src/generic/equiv_classes.rs"],
  [("traversal of counterpart pairs", "src/generic.rs equiv_main"), ("assume-equivalent-then-check via equivalence classes", "src/generic/equiv_classes.rs same_class"), ("interleaving of slow and fast phases", "src/cycle_safe.rs do_edges")],
  ["cycle_safe::equiv", "cycle_safe::precheck_equiv", "robust::equiv", "robust::precheck_equiv"])

p("C02", "On acyclic graphs every variant computes the same structural equality",
  "For every pair of finite acyclic graphs, every premade variant (basic, deep-safe, wide-safe, their limited forms with a sufficient limit, cycle-safe, robust, with and without precheck) gives the verdict that naive recursive tree comparison gives. Boolean and three-way results agree on whether the graphs are equivalent.",
  ["inputs"], "all pairs of finite acyclic graphs (trees and DAGs), all premade variants, boolean and ordering comparisons",
  "The tests assert a few hand-picked tree pairs, never run deep_safe on unequal inputs (the ordering tests omit it), and cannot enumerate the ways a difference can hide behind shared nodes, lazily generated edges and trailing edges.",
  ["src/basic.rs", "src/deep_safe.rs", "src/wide_safe.rs", "src/cycle_safe.rs", "src/robust.rs", "src/generic.rs"],
  [("call-stack recursion", "src/basic.rs CallStack::recur"), ("queue recursion", "src/deep_safe.rs RecurQueue"), ("stack recursion", "src/wide_safe.rs RecurStack"), ("lazy edge iteration", "src/generic.rs EdgesIter, src/utils.rs LazierIterator")],
  ["all premade equiv functions"])

p("C03", "Cycle-aware comparison always terminates with work linear in graph size",
  "For every pair of finite graphs, the cycle-safe and robust predicates terminate, and the number of node pairs they compare is bounded by a fixed multiple of the number of distinct branch nodes times the maximum edge count, however many paths (exponentially or infinitely many) the graphs have. The multiple is determined by the documented phase limits only, and a precheck adds at most its own limit.",
  ["inputs"], "all pairs of finite graphs, including rings of coprime lengths, degenerate DAGs and degenerate cyclic graphs of any size",
  "The tests run one family of degenerate chains and would only notice a hang; a bound on the work over all graph shapes is never measured, and quadratic or shape-dependent blow-ups stay invisible.",
  ["src/cycle_safe.rs", "src/generic/equiv_classes.rs", "src/robust.rs"],
  [("seen pairs skip their descendents", "src/cycle_safe.rs do_edges"), ("class merging makes each unseen slow visit reduce the number of classes", "src/generic/equiv_classes.rs all_seen"), ("ticker reset on a hit", "src/cycle_safe.rs do_edges")],
  ["number of node method calls during one invocation"])

p("C04", "The result is that of the first difference in the documented order",
  "When the graphs differ, the value returned is the comparison value of the first inequivalent counterpart pair in the variant's documented traversal order (depth-first preorder for basic, wide-safe and, on acyclic graphs, cycle-safe; breadth-first for deep-safe and robust), where a node whose edges run out before its counterpart's counts as less at that point. The comparison value the node type produced is returned unchanged, for any comparison type.",
  ["inputs"], "all pairs of finite graphs and all comparison types; depth-first cycle-safe comparison restricted to acyclic graphs",
  "The ordering tests use small trees in which all variants happen to agree, only one comparison type with payload-free values, and never check breadth-first order or shared structure.",
  ["src/generic.rs", "src/basic.rs", "src/deep_safe.rs", "src/wide_safe.rs", "src/lib.rs"],
  [("early return of the inequivalent value", "src/generic.rs Equiv::equiv"), ("edge-count comparison", "src/generic.rs EdgesIter::get_next"), ("FIFO/LIFO order of pending work", "src/utils.rs LazyVecQueue, LazyVecStack")],
  ["returned Cmp value", "sequence of equiv_modulo_edges calls"])

p("C05", "Three-way comparison is a coherent total order consistent with equivalence",
  "For node types whose own comparison is a total order, the three-way result of each variant (cycle-safe depth-first restricted to acyclic graphs) is antisymmetric under swapping the arguments, transitive, equal exactly for equivalent graphs, and substitutive: replacing a graph by an equivalent one never changes a result. Sorting graphs with it therefore gives a sorted permutation.",
  ["inputs"], "all triples and collections of finite graphs, each variant",
  "The sorting tests sort a handful of fixed trees; transitivity and antisymmetry over graphs with sharing and cycles are quantified over all triples and never sampled.",
  ["src/lib.rs", "src/generic.rs", "src/cycle_safe.rs", "src/robust.rs"],
  [("Cmp for Ordering and from_ord", "src/lib.rs"), ("deterministic traversal order", "src/generic.rs")],
  ["Ordering results of premade functions"])

p("C06", "Identical nodes are equivalent without being examined",
  "In every variant, whenever two counterpart nodes have equal identities they count as equivalent and neither their values, nor their edges, nor their descendents are examined through that pair. This holds at the roots and at every depth, and only identity equality triggers it: distinct identities are never treated as identical, whatever their hashes.",
  ["inputs"], "all graphs that share nodes (or duplicate identities) at any positions, with arbitrary hash collisions of identities",
  "One unit test checks a single shared root under a limit; sharing at depth, self-inequivalent values, identity types other than pointers with colliding hashes, and all other variants are untested.",
  ["src/generic.rs", "src/lib.rs", "src/generic/equiv_classes.rs"],
  [("identity check before comparison", "src/generic.rs equiv_main"), ("table keyed by identity", "src/generic/equiv_classes.rs")],
  ["node method calls after id()"])

p("C07", "Limited comparison aborts exactly when the node limit is insufficient",
  "A limited comparison with limit L returns the same result as the unlimited one if that needs at most L counterpart pairs (identical and leaf pairs included), and otherwise returns the limit error after comparing at most L pairs. This holds for every unsigned limit type, for acyclic and cyclic inputs, and for the basic, deep-safe and wide-safe variants in their own traversal orders.",
  ["inputs"], "all pairs of finite graphs (cyclic included), all limits, all six limit types, three variants",
  "One unit test samples twelve (tree, limit) combinations for one variant and one limit type; all integration tests pass the maximum limit, so the boundary is never crossed for deep_safe or wide_safe.",
  ["src/basic.rs", "src/deep_safe.rs", "src/wide_safe.rs"],
  [("countdown per traversed pair", "src/basic.rs Limited::do_traverse")],
  ["basic::limited_equiv", "deep_safe::limited_equiv", "wide_safe::limited_equiv"])

p("C08", "The precheck never changes the answer and leaves nothing behind",
  "Comparing with a precheck gives the same verdict as comparing without one for every pair of finite graphs, every precheck limit (zero included) and every combination of recursion modes for the two stages. If the precheck completes within its limit no shared-structure detection is done; if it aborts, it has compared exactly its limit of pairs, all its pending work is discarded, and the main comparison starts afresh from the roots.",
  ["inputs", "configurations"], "all pairs of finite graphs, precheck limits, and combinations of recursion modes for precheck and interleave",
  "Tests use two limits with equal graphs, for which leftover pending work or a wrong restart is unobservable; the stack mode is never used for a precheck, and unequal graphs are never compared through an aborted precheck.",
  ["src/generic.rs", "src/deep_safe.rs", "src/wide_safe.rs", "src/basic.rs"],
  [("abort, reset, convert and restart", "src/generic.rs precheck_interleave::equiv, Equiv::from"), ("reset of pending work", "src/deep_safe.rs and src/wide_safe.rs RecurMode::reset")],
  ["precheck_interleave::equiv", "Equiv::into"])

p("C09", "Call-stack use does not grow with graph depth or width",
  "For every pair of finite graphs, the deep-safe, wide-safe and robust variants (limited and precheck forms included) use an amount of call stack bounded by a constant that does not depend on the depth, width or sharing of the graphs, including while releasing their own internal data. The call-stack variants use stack proportional to depth only, never to width.",
  ["inputs"], "all shapes and depths of finite graphs, for every variant that does not recurse on the call stack",
  "The tests run four very long regular lists and rely on the default stack not overflowing; growth on other shapes, in cleanup, or below the overflow threshold is not observed.",
  ["src/generic.rs", "src/deep_safe.rs", "src/wide_safe.rs", "src/robust.rs", "src/generic/equiv_classes.rs"],
  [("loop instead of recursion", "src/generic.rs Equiv::equiv"), ("pending work on the heap", "src/deep_safe.rs, src/wide_safe.rs"), ("weighted union keeps link chains short", "src/generic/equiv_classes.rs all_seen")],
  ["stack addresses observed inside node methods and class releases"])

p("C10", "Pending work is kept lazily, so memory stays small as documented",
  "At any moment the queue and stack variants hold pending work only for branch pairs that still have unvisited edges, never for individual edges or leaves and never for exhausted pairs. Hence the queue variant needs constant memory for arbitrarily long lists in either direction, and the stack variant needs constant memory for arbitrarily wide nodes and for lists whose tail edge is given last.",
  ["inputs"], "all shapes of finite graphs; queue-based and stack-based variants",
  "No test measures memory; an eager or late-releasing implementation passes every test while using memory proportional to the length or width.",
  ["src/utils.rs", "src/generic.rs", "src/deep_safe.rs", "src/wide_safe.rs"],
  [("lazy edge iterators", "src/generic.rs EdgesIter"), ("removal of exhausted iterators before returning", "src/utils.rs LazierIterator::next")],
  ["number of live node handles", "bytes allocated during a call"])

p("C11", "Nothing is retained or leaked after a comparison ends",
  "After any comparison ends, whether equivalent, inequivalent, aborted by a limit or an error, or unwound by a panic in the node type, every node handle, identity and allocation it made has been released exactly once. This holds for every variant and for graphs whose equivalence classes were merged in any order.",
  ["inputs", "fault_sequences"], "all graphs, variants, outcomes, and panic or error points",
  "Tests never count releases; a leak through a cycle of internal shared-ownership links or through retained pending work is invisible to them.",
  ["src/generic/equiv_classes.rs", "src/generic.rs", "src/utils.rs"],
  [("links only ever point to other classes, acyclically", "src/generic/equiv_classes.rs"), ("ownership of handles by pending iterators", "src/generic.rs")],
  ["live handle and identity counts", "thread-local allocation balance"])

p("C12", "Node methods are called only as documented",
  "During any comparison, node methods are applied only to counterparts at the same path, always with the node from the first graph as receiver and the node from the second as argument, values at most once per counterpart pair and edges only after the values compared as equivalent. For each node value received, edges are requested with indexes starting at zero and increasing by one step, each index at most twice, and never beyond the first absent edge.",
  ["inputs"], "all pairs of finite graphs, all premade variants and generic combinations",
  "The node types in the tests answer any sequence of calls, so they cannot notice a skipped, repeated, swapped or out-of-order call that a stateful or lazily generating user node type would.",
  ["src/generic.rs", "src/lib.rs", "src/utils.rs"],
  [("edge iteration protocol", "src/generic.rs EdgesIter"), ("peeking at most one edge ahead", "src/utils.rs has_next")],
  ["call log of the node type"])

p("C13", "Edge counts are compared exactly for every index type",
  "For every index type, primitive or custom, all edges whose index is representable are compared, in increasing order, and a different number of representable edges makes the nodes inequivalent, with the node having fewer as the lesser. Reaching the largest representable index ends the edges of that node without a panic, wrap-around or repetition.",
  ["inputs", "configurations"], "all twelve primitive index types and custom enumerated index types, all edge counts up to and past the type's range",
  "Tests use three index types with two or three edges, except one very wide node with usize; the boundary at the end of an index type's range is never reached.",
  ["src/like_anticipated.rs", "src/generic.rs", "src/lib.rs"],
  [("checked increment", "src/like_anticipated.rs Step"), ("end of iteration on overflow", "src/generic.rs EdgesIter::get_next")],
  ["results and requested indexes for nodes with boundary edge counts"])

p("C14", "Custom modes are obeyed: skips skip, and errors abort at once, unchanged",
  "With the generic API, each counterpart pair is offered to the descend mode exactly once before anything else is done with it, and again before its edges are descended if and only if it is non-identical, its values are equivalent and both nodes have edges; a refusal skips exactly that pair or its descendents. An error from the descend mode or the recursion mode at any call, in a single-stage comparison or in either stage of a precheck comparison, ends the comparison immediately with that very error and no further node or mode calls.",
  ["inputs", "fault_sequences"], "all graphs and all scripts of decisions and errors at each call of a custom descend or recursion mode",
  "The custom-mode tests contain error branches that are never taken, and no test returns a skip or an error from a custom mode.",
  ["src/generic.rs"],
  [("try_into of mode results", "src/generic.rs equiv_main"), ("error mapping of the two stages", "src/generic.rs precheck_interleave::equiv")],
  ["Equiv::equiv and precheck_interleave::equiv results and call logs"])

p("C15", "Custom containers, limits, RNGs and schedules never change the verdict",
  "With the generic API, any lawful choice of table, shared-ownership pointer, random numbers, phase limits (precheck limit, fast limit, slow limit of at least one, and the limits derived by default from any precheck limit for which they are representable), initial capacities and order in which pending work is resumed gives the exact verdict on every pair of finite graphs, terminating on cyclic ones.",
  ["inputs", "configurations", "schedules"], "all graphs, all random number sequences, all resumption orders, representative tables and limit constants",
  "One test file uses one custom configuration with equal regular graphs; random sequences, extreme limits and other resumption orders are not exercised.",
  ["src/generic.rs", "src/generic/equiv_classes.rs", "src/cycle_safe.rs"],
  [("order-independent assume-then-check argument", "src/generic/equiv_classes.rs"), ("derived limits", "src/cycle_safe.rs interleave::Params")],
  ["Equiv::equiv", "precheck_interleave::equiv"])

p("C16", "Slow and fast phases alternate within their documented limits",
  "In an interleaved comparison, shared-structure detection is active from the first pair of nodes that both have edges (branch pair), stays active until the configured number of consecutive not-yet-seen branch pairs has been recorded (any already-seen pair restarts that count), and is then suspended for a number of branch pairs drawn once, from the configured range, per suspension (the pair at which the number is drawn may or may not be counted in it). Only already-equivalent pairs are ever skipped, and never while detection is suspended.",
  ["inputs", "configurations"], "all sequences of branch pairs, all limit constants, all random draws",
  "The phases have no test of their own; tests only observe that degenerate graphs finish.",
  ["src/cycle_safe.rs"],
  [("ticker", "src/cycle_safe.rs Interleave::do_edges")],
  ["table lookups, RNG calls and do_edges results, through the generic API"],
  state=[("ticker", "remaining fast visits if positive, negated count of unseen slow visits if negative", "src/cycle_safe.rs Interleave")])

p("C17", "Equivalence classes form exactly the closure of the recorded pairs",
  "For every sequence of queried pairs of distinct identities, the class mechanism answers 'already equivalent' exactly when the pair is in the reflexive, symmetric, transitive closure of the pairs queried earlier, for any lawful table. Each query touches a number of class cells at most logarithmic in the number of identities, and at most one table entry per distinct identity is ever made.",
  ["histories"], "all sequences of identity pairs, of any length and merge order",
  "One unit test replays a single sequence over seven keys; merge orders, long link chains, path shortening and their cost are not reached.",
  ["src/generic/equiv_classes.rs"],
  [("union by weight", "src/generic/equiv_classes.rs all_seen"), ("find with path shortening", "src/generic/equiv_classes.rs get_rep_and_weight")],
  ["Interleave::do_edges with a slow limit that is never reached, custom Table and Rc"],
  state=[("weight", "size of a class in class cells", "src/generic/equiv_classes.rs Class::Representative")])

p("C18", "Every random number generator stays in range and varies",
  "Each provided random number generator, from any reachable state, returns a number below the requested exclusive end for every possible end, without panicking. For every end greater than one its successive numbers vary and reach every part of the range: a few hundred of them cover each sixteenth of a large range and every number of a small one.",
  ["inputs", "histories"], "all 65535 ends, all sequences of requests, the three provided generators",
  "No test calls the generators directly, two of the three are only type-checked, and a value out of range or a constant only degrades performance in rare shapes.",
  ["src/cycle_safe/modes/interleave/random/wyrng.rs", "src/cycle_safe/modes/interleave/random/oorandom.rs", "src/cycle_safe/modes/interleave/random/fastrand.rs"],
  [("reduction to the range", "rand_upto in each module")],
  ["NumberGenerator::rand_upto"])

p("C19", "Reference identities obey the laws of Eq, Ord and Hash",
  "For every pointer type, two reference identities are equal exactly when they point to the same address with the same metadata, regardless of the pointed-to values; equal identities hash equally while distinct ones do not all hash alike, and all ordering operators agree with one total order consistent with that equality. Hence they can be used as keys of hashed and ordered maps.",
  ["inputs"], "all collections of references, shared, boxed, slice, string and trait-object pointers, including overlapping slices",
  "No unit test covers the identity type; integration tests use it only with thin pointers in a hash map or tree map.",
  ["src/utils.rs"],
  [("pointer comparison and hashing", "src/utils.rs RefId")],
  ["RefId operators, HashMap and BTreeMap lookups"])

p("C20", "Invocations are independent of one another",
  "The result and the sequence of node calls of a comparison depend only on its inputs (and, where random numbers are drawn, on those): repeating it, running other comparisons before it, inside a node method of it or concurrently on other threads, or after another comparison was aborted or unwound by a panic, changes nothing. Comparisons do not modify the graphs.",
  ["histories", "schedules"], "all interleavings and histories of comparisons of all variants, including nested, aborted and panicking ones",
  "Each test performs its comparisons once on fresh inputs; state leaking between invocations is not observable.",
  ["src/generic.rs", "src/cycle_safe.rs", "src/robust.rs"],
  [("fresh state per invocation", "src/generic.rs Equiv::new, Default")],
  ["results and call traces of repeated invocations"])

p("C21", "Every build configuration gives the same results",
  "For every supported feature selection (default, each alternative random number generator, allocation without the standard library, neither, the anticipated-features mode) and with or without debug assertions, the functions available in that configuration give the same results as the default build on every pair of finite graphs, without panicking.",
  ["inputs", "configurations"], "all graphs, all supported feature combinations and both assertion settings",
  "The test suite is built with the default features only; the alternative generators are type-checked, and the anticipated-features code is neither built nor tested.",
  ["src/lib.rs", "src/cycle_safe.rs", "src/anticipated.rs", "src/like_anticipated.rs", "src/cycle_safe/modes/interleave/random/mod.rs"],
  [("feature-dependent modules", "src/lib.rs cfg attributes"), ("choice of the default generator", "src/cycle_safe/modes/interleave/random/mod.rs")],
  ["results printed by one probe program built once per configuration"])

p("C22", "Examination is lazy and stops at the first inequivalence",
  "For every pair of graphs and every premade variant, with or without limit or precheck, the edge after next of a node is requested only once the pair of nodes that its counterpart two positions before leads to has been examined (identities or values requested), i.e. edges are looked ahead by at most one. Once the values of a pair have compared as inequivalent, no node method at all is called any more, and no pair beyond the first difference in the variant's own order has its values compared.",
  ["inputs", "configurations"], "all pairs of graphs, all variants, generic combinations with the premade and with element-wise custom recursion modes",
  "Tests see results only; needless examination of nodes (which may be generated on demand, at a cost, or not exist yet) changes no result.",
  ["src/generic.rs", "src/utils.rs"],
  [("edges generated on demand", "src/generic.rs EdgesIter"), ("resuming pending iterators", "src/utils.rs LazierIterator::next"), ("end at an inequivalence", "src/generic.rs Equiv::equiv")],
  ["order of node method calls"])

p("C23", "A custom recursion mode is given every counterpart edge exactly once, and obeyed",
  "With the generic API, the iterator that a recursion mode is given for a pair of nodes yields, in increasing order of index, the pair of nodes at each index for which both have an edge, first graph's first; then, if their amounts of edges differ, exactly one item that says which has fewer; then nothing, however often it is asked. It may be asked at any times, stored, and dropped at any point. Every pair that the mode supplies is compared next, an inequivalence that it supplies or answers is the result at once, unchanged, and when it supplies nothing the comparison ends as equivalent.",
  ["inputs", "histories", "configurations"], "all graphs, all recursion modes",
  "Tests have only the premade modes, which take the edges in one way each and never ask beyond the end.",
  ["src/generic.rs"],
  [("generation of the edges", "src/generic.rs EdgesIter::get_next"), ("main loop", "src/generic.rs Equiv::equiv")],
  ["items of EdgesIter in RecurMode::recur and RecurMode::next; result of Equiv::equiv"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")

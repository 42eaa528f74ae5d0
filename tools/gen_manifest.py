#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = " Exploration only: it cannot show absence of failures outside what was generated. Trusts the harness's node type, its independent oracle, and rustc."
T = {
 "C01": ("property-based testing: random graph covers vs a visited-pairs reference search", "Verdicts of the robust and cycle_safe functions on tens of thousands of generated cyclic and acyclic pairs equal those of an independent bisimulation oracle."),
 "C02": ("property-based testing: differential against derived PartialEq and a reference search", "All premade functions on generated acyclic pairs equal the derived equality of the unfolded trees."),
 "C03": ("property-based testing: work counted against a closed-form bound, with a termination budget", "Counted node operations stay below a bound linear in nodes and edges, on degenerate, cyclic and large shapes."),
 "C04": ("property-based testing: payload-carrying comparisons vs the reference first difference", "The returned comparison value is exactly that of the first difference in the documented order."),
 "C05": ("property-based testing: order laws over k mutated covers of one template", "Reflexivity, antisymmetry, transitivity and congruence on generated families; cyclic graphs only where promised (breadth-first)."),
 "C06": ("property-based testing: graphs with shared, duplicated and colliding identities vs a reference search", "Identity shortcuts are taken exactly as documented on generated graphs."),
 "C07": ("property-based testing: every limit against a step-exact traversal model", "Limited variants fail exactly when the modelled traversal exceeds the limit, for all six limit types."),
 "C08": ("property-based testing: differential between prechecked and unprechecked comparison, with a step-exact model", "The call trace through an aborted precheck equals the modelled prefix followed by the trace of the plain comparison."),
 "C09": ("property-based testing: stack addresses observed in node methods over deep and wide shapes", "Extent of stack use is below a constant for every generated shape."),
 "C10": ("property-based testing: live handles and allocated bytes against a model of lazily pending work", "Pending handles never exceed those of the model and bytes stay constant where documented."),
 "C11": ("property-based testing with fault injection: handle and allocation balance", "Nothing is left behind after any generated outcome, panics and errors included."),
 "C12": ("property-based testing: per-handle protocol automaton over the call log", "Every call of the node type in generated comparisons is one the documentation allows."),
 "C13": ("property-based testing: boundary edge counts per index type vs a reference search", "All index types at and around the end of their range."),
 "C14": ("model-based testing: scripts of decisions and errors vs a model of the documented contract", "Event traces with scripted custom modes equal those of the model."),
 "C15": ("property-based testing: generated configurations, random scripts and schedules vs a reference search", "Verdict and bounded work under every generated custom configuration."),
 "C16": ("property-based testing: phase automaton over the log of table and generator calls", "The log of every generated interleaved comparison is accepted by the phase automaton."),
 "C17": ("stateful property-based testing: query sequences vs a naive partition model", "Answers equal those of the naive closure; accesses stay within a logarithmic bound."),
 "C18": ("property-based testing: request sequences against range and variation predicates", "Every end is requested; the generators stay in range and cover it."),
 "C19": ("property-based testing: algebraic laws over pools of pointers", "Laws of Eq, Ord and Hash on generated pools of thin and wide pointers."),
 "C20": ("metamorphic testing: histories of nested, concurrent, aborted and panicking invocations vs isolated runs", "Results and call traces in generated histories equal those in isolation."),
 "C21": ("differential testing: one probe program built per configuration, same generated graphs, reference search", "Twelve build configurations give the oracle's result on generated graphs. A configuration that this toolchain cannot build for other reasons is left out with a note."),
 "C22": ("property-based testing: online automaton over node method calls, and a reference traversal up to the first difference", "In every generated comparison, edges are looked ahead by at most one and nothing is examined after the first inequivalence."),
 "C23": ("model-based testing: scripted custom recursion modes, items judged against the graph and events against an automaton", "Every item drawn in generated scripts is the documented one, and what the mode answers is obeyed."),
}
m = {
 "version": 1,
 "setup_cmd": "python3 tools/check.py setup",
 "checks": [{"property": k, "quick_cmd": "python3 tools/check.py %s" % k, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % k,
             "technique": t, "level": "exploration", "level_note": n + COMMON} for k, (t, n) in T.items()],
 "not_applicable": [],
 "notes": "Replay a reported case: python3 tools/check.py replay FILE. Known findings and repaired defects: known_findings.txt. No hooks are needed in /repo.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing; not part of any check)."""
import json, pathlib

P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mechanism],
               "hook_needed": None}
    if observe: anchors["observe_at"] = observe
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})

prop("C01", "A chain emits exactly its states, in order, and only valid ones",
 "Iterating a chain of N steps yields exactly N plans, the first being the initial plan, and each later one is either the previous plan itself or a plan the proposal made from that previous plan which passed every constraint and was then accepted. A proposal that fails any constraint is discarded and retried without being emitted, counted or shown to the acceptance rule, while a valid proposal that is not accepted repeats the current plan and counts as one step. Iterating again restarts from the initial plan with the full N steps, and an initial plan (or a replacement set of constraints that the initial plan fails) is refused with an error.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "for every sequence of validity and acceptance verdicts, every proposal (including ones returning the same plan), every restart, abandonment and mid-run constraint replacement point, and every N >= 0",
 "the tests run a handful of chains whose proposals are nearly always valid and accepted, and check the length; the order of reject/accept/restart events and the effect of interrupting them is never explored",
 ["gerrychain/chain.py", "gerrychain/constraints/validity.py", "gerrychain/partition/partition.py"],
 [("step counter and retry loop", "gerrychain/chain.py:MarkovChain.__next__"),
  ("rewind on iteration", "gerrychain/chain.py:MarkovChain.__iter__"),
  ("conjunction of constraints", "gerrychain/constraints/validity.py:Validator.__call__")],
 ["values yielded by iterating a chain", "calls received by the proposal, constraint and acceptance callables"])

prop("C02", "Incrementally kept plan statistics equal recomputation from scratch",
 "For every plan reached by any history of moves, every statistic the library tracks for it (tallies, vote totals, shares and winners, cut edges overall and per district, boundary, perimeter and area measures, compactness, county, region and locality split measures, spanning-tree counts) equals the value computed directly from that plan's assignment and the graph's data. This holds no matter when or in which order the statistics are read, whether or not earlier plans in the history were ever read or are still reachable, whether districts become empty and refill, and whether data values are missing. Reading a statistic twice gives equal answers.",
 ["histories", "schedules", "inputs"],
 "for every move history (single, multi-node, no-op, reverted, branching), every read schedule relative to moves and to the chain dropping old plans, every attribute data set with exactly representable values, missing values included",
 "tests compare one or two flips read eagerly in order; the incremental path, the from-scratch path taken after the parent plan has been dropped, and mixtures of both along a long history are never compared",
 ["gerrychain/updaters/flows.py", "gerrychain/updaters/tally.py", "gerrychain/updaters/cut_edges.py", "gerrychain/updaters/compactness.py", "gerrychain/updaters/election.py", "gerrychain/updaters/county_splits.py", "gerrychain/updaters/locality_split_scores.py", "gerrychain/updaters/spanning_trees.py", "gerrychain/partition/partition.py", "gerrychain/metrics/compactness.py"],
 [("node flows between districts", "gerrychain/updaters/flows.py:flows_from_changes,on_flow"),
  ("edge flows", "gerrychain/updaters/flows.py:compute_edge_flows,on_edge_flow"),
  ("lazy per-plan cache", "gerrychain/partition/partition.py:Partition.__getitem__"),
  ("parent erased after each proposal", "gerrychain/chain.py:MarkovChain.__next__")],
 ["plan[statistic]"],
 [("parent link", "present or erased decides incremental or from-scratch evaluation", "gerrychain/partition/partition.py")])

prop("C03", "A plan never changes once it exists",
 "The assignment, district node sets, district subgraphs and already-read statistics of a plan stay the same for as long as a caller holds it, whatever chains, optimizers, proposals or moves run afterwards from it, from its descendants or from other plans, and whatever happens to the collections the caller passed in when creating it. Statistics of an old plan first read later still describe that plan's own assignment.",
 ["histories", "schedules", "fault_sequences"],
 "for every plan retained at any point of any history, and every later activity on plans sharing its ancestry, graph or statistic objects, including aborted operations",
 "tests look at a plan right after making it; retained plans re-examined after thousands of later steps, and caller-side mutation of passed-in dictionaries, are not exercised",
 ["gerrychain/partition/partition.py", "gerrychain/partition/assignment.py", "gerrychain/updaters/flows.py", "gerrychain/updaters/locality_split_scores.py", "gerrychain/updaters/cut_edges.py"],
 [("copy of assignment before applying a move", "gerrychain/partition/partition.py:Partition._from_parent"),
  ("copy of previous statistic values", "gerrychain/updaters/flows.py:on_flow,on_edge_flow; gerrychain/updaters/tally.py"),
  ("frozen graph", "gerrychain/graph/graph.py:FrozenGraph")],
 ["retained plans: assignment, parts, subgraphs, statistics"])

prop("C04", "Independent runs in one process do not influence each other",
 "Chains, optimizers, enumerations and plans that a program creates separately behave exactly as they would if each ran alone with the same random draws, however their steps are interleaved, nested inside one another's callbacks, or abandoned half way. This includes runs that share the graph, the same statistic objects or the same class of plan, and runs on different graphs that reuse one statistic object; creating a plan with extra statistics does not give them to any other plan.",
 ["schedules", "histories", "configurations"],
 "for every interleaving of the steps and callbacks of a set of concurrent runs, with per-run random streams, and every sharing pattern of graph, statistic objects and plan classes (constraint objects that remember a bound belong to one run)",
 "each test builds its own objects and runs one chain to completion; no test runs two chains alternately, and process-wide leaks are invisible to single runs",
 ["gerrychain/partition/partition.py", "gerrychain/chain.py", "gerrychain/updaters/tally.py", "gerrychain/updaters/election.py", "gerrychain/updaters/locality_split_scores.py", "gerrychain/updaters/flows.py", "gerrychain/tree.py", "gerrychain/grid.py", "gerrychain/optimization/optimization.py", "gerrychain/proposals/spectral_proposals.py"],
 [("per-plan updater dictionary", "gerrychain/partition/partition.py:Partition._first_time"),
  ("caches keyed by plan", "gerrychain/updaters/flows.py:neighbor_flips,flows_from_changes"),
  ("frozen shared graph", "gerrychain/graph/graph.py:FrozenGraph")],
 ["sequence of plans and statistics emitted by each run"])

prop("C05", "Same seed, same run",
 "With the interpreter's hash seed fixed, a program that seeds the random module and runs a seed-plan generator, chain or optimizer observes exactly the same plans and statistics every time, and consumes exactly the same random draws. Wall-clock time, progress bars, the amount of earlier unrelated work in the process, memory layout and other sources of entropy make no difference.",
 ["schedules", "histories", "configurations"],
 "for every seed, proposal family, optimizer and statistic set, every prior process history, clock behaviour and entropy-source behaviour, and for every supported hash seed (each compared with itself)",
 "the existing reproducibility tests compare one or two fixed chains against stored values in one process state; a dependence on clock, address order or leftover caches would survive them",
 ["gerrychain/chain.py", "gerrychain/tree.py", "gerrychain/proposals/tree_proposals.py", "gerrychain/proposals/proposals.py", "gerrychain/proposals/spectral_proposals.py", "gerrychain/accept.py", "gerrychain/optimization/optimization.py"],
 [("all choices drawn from the random module", "gerrychain/tree.py, gerrychain/proposals, gerrychain/accept.py"),
  ("progress bar wraps iteration only", "gerrychain/chain.py:MarkovChain.with_progress_bar")],
 ["sequence of plans, statistics and final generator state"])

prop("C06", "Every plan assigns each node to exactly one district, consistently",
 "In every plan reachable by any sequence of moves, each graph node has exactly one district, the district node sets are disjoint and together make up the whole graph, and the node-to-district view, the district-to-nodes view, the subgraphs and the exported forms all agree. A move changes precisely the nodes it names to precisely the districts it names, and the set of district names never changes.",
 ["histories", "inputs", "fault_sequences"],
 "for every starting assignment form (mapping, series, node attribute, existing assignment), label type, and sequence of moves including empty, no-op, repeated, multi-district and district-emptying moves, and moves that fail part-way",
 "tests check a few hand-made flips on fixed 3x3 graphs",
 ["gerrychain/partition/assignment.py", "gerrychain/partition/partition.py", "gerrychain/partition/subgraphs.py", "gerrychain/updaters/flows.py"],
 [("flow-based assignment update", "gerrychain/partition/assignment.py:Assignment.update_flows"),
  ("assignment validation", "gerrychain/partition/assignment.py:Assignment.__init__; gerrychain/partition/partition.py:_first_time"),
  ("subgraph cache", "gerrychain/partition/subgraphs.py:SubgraphView")],
 ["plan.assignment, plan.parts, plan.subgraphs, exported dict and series"])

prop("C07", "Contiguity constraints are exact along any run",
 "Starting from a plan whose districts are all connected, a chain constrained by any of the contiguity constraints only ever emits plans whose districts are all connected and non-empty, and the constraint's verdict on a proposed move is true exactly when that is so (for the single-flip variant: on moves of one node into a neighbouring district). The verdict does not depend on whether the plan's ancestry has been dropped, on random draws, or on which other plans were checked before; the don't-get-worse variant admits a plan exactly when it has at least as many connected districts as the first plan it saw.",
 ["histories", "schedules", "inputs"],
 "for every graph shape, history of moves from a contiguous plan (including moves that empty a district), every point at which ancestry is dropped, and all random draws",
 "tests check a few static plans; they never empty a district inside a chain, nor check a plan whose parent has been erased",
 ["gerrychain/constraints/contiguity.py", "gerrychain/constraints/bounds.py", "gerrychain/partition/subgraphs.py"],
 [("check only districts touched by the move", "gerrychain/constraints/contiguity.py:affected_parts"),
  ("local reachability search", "gerrychain/constraints/contiguity.py:single_flip_contiguous,are_reachable"),
  ("full searches", "gerrychain/constraints/contiguity.py:contiguous,contiguous_bfs,_bfs")],
 ["constraint verdicts", "plans emitted by a constrained chain"])

prop("C08", "Numeric and split constraints are enforced exactly, for the whole run",
 "A plan is admitted exactly when every constraint holds for it: population within the stated percentage of the ideal fixed from the initial plan, values within the given bounds, no district emptied, no county split that was whole in the plan it came from, and for self-configuring bounds the limit fixed by the first plan seen, even when that limit is zero or negative. The verdict on a plan does not depend on how many plans were checked before, in what order, or on whether the constraints were given as a list, a single callable, a one-shot iterator or an already combined constraint; a constraint that answers neither true nor false is reported as an error rather than treated as either.",
 ["histories", "schedules", "configurations", "inputs"],
 "for every sequence of plans checked, every threshold including exactly attained, zero and negative ones, every way of combining constraints, and faults thrown by one constraint in the middle of a check",
 "tests check single verdicts on mock plans with comfortable margins; state kept between verdicts and boundary equality are not covered",
 ["gerrychain/constraints/validity.py", "gerrychain/constraints/bounds.py", "gerrychain/constraints/compactness.py", "gerrychain/updaters/county_splits.py", "gerrychain/chain.py"],
 [("combined constraint", "gerrychain/constraints/validity.py:Validator"),
  ("bounds", "gerrychain/constraints/bounds.py"),
  ("ideal population fixed from the initial plan", "gerrychain/constraints/validity.py:within_percent_of_ideal_population")],
 ["constraint verdicts over a run", "plans emitted by a constrained chain"])

prop("C09", "A recombination move redraws only two adjacent districts, legally",
 "Every plan proposed by recombination differs from its predecessor only inside the union of two districts that were adjacent in it, and both redrawn districts are connected, non-empty and within the requested population tolerance of the target; if no such redrawing is found the proposal raises an error instead of returning an illegal plan. This holds for every splitting method, spanning-tree method, root, choice and retry count, and for every sequence of random draws; the spectral variant promises only to stay inside two adjacent districts.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "for every connected graph, contiguous starting plan, population data, tolerance and tree or cut method, and every random draw sequence including ties and extreme values, with splitting failures injected",
 "tests run a few seeds on small grids; the draws that create ties, tiny districts or exhausted retries do not occur there",
 ["gerrychain/proposals/tree_proposals.py", "gerrychain/tree.py", "gerrychain/proposals/spectral_proposals.py"],
 [("merge of the two districts of a random cut edge", "gerrychain/proposals/tree_proposals.py:recom"),
  ("balanced tree cut", "gerrychain/tree.py:epsilon_tree_bipartition,bipartition_tree,bipartition_tree_random"),
  ("population re-check", "gerrychain/tree.py:epsilon_tree_bipartition")],
 ["plans returned by the proposal", "errors raised"])

prop("C10", "Recombination with pair reselection always terminates with the right verdict",
 "When a district pair cannot be split and reselection is allowed, recombination moves on to a different adjacent pair, never retries a pair that already failed in the same proposal, and after at most as many failures as there are adjacent pairs either returns a legal plan or reports that every adjacent pair failed. It reports that only when every adjacent pair really failed, and it leaves the plan it started from unchanged.",
 ["fault_sequences", "schedules", "configurations"],
 "for every district adjacency structure (complete or not), every sequence of per-pair failures and every random draw sequence",
 "the test suite has one plan with a hard-coded failing method; plans with non-adjacent district pairs under total failure are not covered",
 ["gerrychain/proposals/tree_proposals.py", "gerrychain/tree.py"],
 [("set of failed pairs", "gerrychain/proposals/tree_proposals.py:recom"),
  ("attempt limit", "gerrychain/tree.py:bipartition_tree")],
 ["sequence of merged regions handed to the splitting method", "result or error of the proposal"])

prop("C11", "Generated seed plans are complete, connected and balanced",
 "A seed-plan generator that returns has assigned every node of the graph to one of the requested districts, used every district, made every district connected and kept every district's population within the tolerance it promises; otherwise it raises an error. It never alters the graph or partition it was given, whatever random draws occur and wherever it fails or is interrupted.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "for every connected graph, number of districts, population data, tolerance, chunking option, splitting method and random draw sequence, with splitting failures injected at arbitrary calls",
 "tests use a few grids with loose tolerance and a fixed seed",
 ["gerrychain/tree.py", "gerrychain/partition/partition.py"],
 [("running population debt", "gerrychain/tree.py:recursive_tree_part"),
  ("chunk recursion", "gerrychain/tree.py:recursive_seed_part,recursive_seed_part_inner,get_seed_chunks"),
  ("random initial plan", "gerrychain/partition/partition.py:Partition.from_random_assignment")],
 ["returned assignment", "errors raised", "graph afterwards"])

prop("C12", "Flip proposals only make the moves they advertise",
 "Single-flip proposals move exactly one node that touches another district, into a district that one of its neighbours belongs to; the chunk proposal moves precisely the foreign neighbours of one boundary node into that node's district; the every-district proposal moves boundary nodes into neighbouring districts, at most one per district's boundary; the any-node proposal moves at most one node to an existing district. Every such legal move can be drawn, the reversible variants draw uniformly from the moves they advertise, and a plan with no boundary is handled by returning it unchanged where documented.",
 ["schedules", "inputs", "histories"],
 "for every plan reached along a chain and every random draw (each equally likely draw outcome is driven explicitly)",
 "tests check one or two draws of one proposal",
 ["gerrychain/proposals/proposals.py"],
 [("choice of cut edge or (node, district) pair", "gerrychain/proposals/proposals.py")],
 ["difference between proposed plan and its parent, per random draw"])

prop("C13", "Optimizers always report the best plan observed so far",
 "At every moment of an optimization run, including while the caller holds the plan just yielded, after the caller stops early, and after the run is aborted by an error in a user function, the reported best plan is a plan of this run that attains the reported best score, and no plan yielded so far in this run (nor the initial plan) scores strictly better; ties go to the latest. Each burst starts from the best plan so far, the number of plans yielded is exactly the number requested, and a new run starts afresh from the initial plan. A variable-length run lengthens its bursts after the stated number of bursts without improvement, and the built-in majority-minority scores follow their documented formula for every plan, including plans where every district or none passes.",
 ["schedules", "histories", "crash_points", "fault_sequences"],
 "for every optimization method, score sequence with ties, maximise or minimise, every point where the consumer stops, interleaves or is hit by an error, with and without progress bar",
 "tests exhaust a few optimizers with monotone scores and look at the end; the state between yields and after early abandonment is not observed",
 ["gerrychain/optimization/optimization.py", "gerrychain/optimization/gingleator.py", "gerrychain/chain.py"],
 [("best tracking", "gerrychain/optimization/optimization.py:short_bursts,simulated_annealing,variable_length_short_bursts,tilted_run"),
  ("improvement comparison", "gerrychain/optimization/optimization.py:_is_improvement")],
 ["best plan and score after each yield, after abandonment, after errors"])

prop("C14", "Acceptance rules accept exactly when the draw falls below the stated rate",
 "For a move from one plan to another and a uniform draw u, cut-edge acceptance accepts exactly when u is below the smaller of one and old/new cut-edge count; the tilted rule accepts every non-worsening move and a worsening one exactly when u < p; annealing accepts exactly when u < exp(-beta*magnitude*worsening), where beta is the cooling schedule at the index of the proposed move along the accepted path; the library's own cooling schedules have the documented value at every step (hot, cooling, cold and warming phases of the stated lengths, repeating). No move, however large the improvement or however few cut edges remain, makes a rule fail, and the initial plan is always accepted.",
 ["schedules", "histories", "inputs"],
 "for every pair of consecutive plans, score magnitude and sign, cooling schedule, and every draw including values exactly at and next to the threshold",
 "tests mock the random draw once or twice; draws at the threshold, very large score changes and long accepted paths are not sampled",
 ["gerrychain/accept.py", "gerrychain/optimization/optimization.py"],
 [("Metropolis ratio", "gerrychain/accept.py:cut_edge_accept"),
  ("tilted and annealing rules", "gerrychain/optimization/optimization.py")],
 ["accept or repeat decision at each step with the draw controlled"])

prop("C15", "An error or interrupt in the middle of a step leaves everything usable",
 "If a user callback raises, or the program is interrupted (keyboard interrupt, out-of-memory, closed generator) at any instruction inside a step, the error reaches the caller, the current plan and all earlier plans still report correct assignments and statistics, and the graph and its data are unaltered. Continuing to iterate the same chain then yields the remaining steps under the usual chain rules (an interrupted step has either happened or not; a step in which a callback raised has not), re-iterating restarts cleanly, and other chains in the process are unaffected.",
 ["crash_points", "fault_sequences", "schedules"],
 "for every instruction boundary inside the library and every callback invocation of a run as interruption point, and any number of interruptions",
 "tests never interrupt anything: a half-updated cache, counter or shared dictionary only shows after an exception at one specific line",
 ["gerrychain/chain.py", "gerrychain/partition/partition.py", "gerrychain/updaters/flows.py", "gerrychain/updaters/locality_split_scores.py", "gerrychain/optimization/optimization.py", "gerrychain/graph/graph.py"],
 [("state published only after acceptance", "gerrychain/chain.py:MarkovChain.__next__"),
  ("new plan built before use", "gerrychain/partition/partition.py:_from_parent"),
  ("statistic cached only after computing it", "gerrychain/partition/partition.py:__getitem__")],
 ["chain and plans after the caught interruption"])

prop("C16", "Saved graphs come back the same, or the failure is reported",
 "A graph saved to JSON without an error and loaded again has the same nodes in the same order, the same edges and the same node, edge and graph data (numbers, text, booleans, missing values, and lists and dictionaries of these, whether plain or from numeric tables); geometry is dropped or converted as requested, and saving never changes the graph in memory. If writing fails or is cut short at any byte, the error reaches the caller, and a truncated or unreadable file, or one that is no longer well-formed, is rejected when loaded rather than yielding a different graph; the same holds for plans read from exported plan files, whose every node gets exactly the district the file states.",
 ["fault_sequences", "crash_points", "inputs"],
 "for every graph content with JSON-expressible labels and data, every write-failure point (disk full, I/O error, failing flush or close, crash after k bytes) and every read fault (I/O error, short read, truncation)",
 "tests save and load a couple of small graphs on a healthy disk",
 ["gerrychain/graph/graph.py", "gerrychain/partition/partition.py"],
 [("serialisation", "gerrychain/graph/graph.py:Graph.to_json,json_serialize,remove_geometries,convert_geometries_to_geojson"),
  ("loading", "gerrychain/graph/graph.py:Graph.from_json; gerrychain/partition/partition.py:from_districtr_file")],
 ["file contents, loaded graph, raised errors"])

prop("C17", "Diversity statistics are exact and do not disturb the chain",
 "Wrapping a chain to collect diversity statistics yields precisely the chain's own plans in order, each with the exact number of steps taken, of distinct districts (as node sets) and of distinct plans with connected districts (up to relabelling of districts) seen so far, each reported value staying as it was reported. This holds when several wrapped chains are interleaved, abandoned or restarted, and when the wrapped iteration fails part-way.",
 ["schedules", "histories", "fault_sequences"],
 "for every sequence of plans (repeats, revisits, relabelled plans, emptied districts), every interleaving of wrapped chains and every abandonment point",
 "one test checks totals of a short chain; revisits, relabelled plans and interleavings do not occur",
 ["gerrychain/meta/diversity.py", "gerrychain/chain.py"],
 [("sets of seen districts and cut-edge sets", "gerrychain/meta/diversity.py:collect_diversity_stats")],
 ["yielded pairs of plan and statistics"])

prop("C18", "One-flip neighbourhoods are enumerated exactly",
 "Enumerating the plans one flip away from a plan yields every plan obtainable by moving one boundary node into a neighbouring district that satisfies the constraints, and nothing else; the enumeration of flips names the same moves. The result does not depend on how the enumeration is interleaved with chains, other enumerations or reads on the same plan, on early abandonment, or on failures thrown by a constraint and retried.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "for every plan, constraint set given in any accepted form, and every interleaving of lazily consumed enumerations with other activity on the same plan",
 "tests enumerate one 3x3 plan eagerly",
 ["gerrychain/metagraph.py", "gerrychain/constraints/validity.py"],
 [("product of cut edges and directions", "gerrychain/metagraph.py:all_cut_edge_flips"),
  ("filter by constraints", "gerrychain/metagraph.py:all_valid_states_one_flip_away,all_valid_flips,metagraph_degree")],
 ["enumerated plans and flips"])

prop("C19", "Reversible recombination accepts at the reversible rate and otherwise stays put",
 "A reversible recombination proposal either returns the very plan it was given or a plan in which two adjacent districts are redrawn as connected, balanced districts; having drawn a tree with c balanced cuts whose chosen cut leaves s edges between the redrawn districts, it moves exactly when its final draw is below c/(M*s). A drawn pair that is equal or not adjacent, or a tree without balanced cut, gives the unchanged plan, and more balanced cuts than the bound M is always reported as an error. Every ordered pair of districts is equally likely to be drawn.",
 ["schedules", "inputs", "histories", "fault_sequences"],
 "for every plan, bound M, tolerance, cut-finding function and random draw sequence with the final draw placed at and around the threshold",
 "tests run a few steps and check the type of the result; the acceptance rate is never compared with a reference",
 ["gerrychain/proposals/tree_proposals.py", "gerrychain/tree.py"],
 [("ordered pair draw, seam length, acceptance", "gerrychain/proposals/tree_proposals.py:reversible_recom"),
  ("uniform spanning tree", "gerrychain/tree.py:uniform_spanning_tree")],
 ["returned plan versus observed tree, cuts and draws"])

prop("C20", "Spanning trees and balanced cuts are right for every draw sequence",
 "Spanning-tree generators return a spanning tree of the given graph for every random draw sequence, and the uniform one gives each spanning tree the same probability. Both balanced-cut finders return exactly the tree edges whose removal balances both sides, once each, with the exact node set of one side, independent of root and retries; for one-sided requests every returned side meets the condition and the memoised finder misses no edge that has such a side; a two-way split built on them returns a connected set with connected complement meeting the requested condition, or raises when attempts run out.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "for every connected graph with at least two nodes, population data, target, tolerance, root choice and draw sequence including ties, extremes and adversarially biased draws, with a bounded number of attempts",
 "tests use a couple of fixed trees and seeds; two-node trees, ties and boundary-equal populations are absent",
 ["gerrychain/tree.py"],
 [("random-weight Kruskal tree, Wilson's algorithm", "gerrychain/tree.py:random_spanning_tree,uniform_spanning_tree"),
  ("contraction and memoised subtree sums", "gerrychain/tree.py:find_balanced_edge_cuts_contraction,find_balanced_edge_cuts_memoization"),
  ("attempt loop", "gerrychain/tree.py:bipartition_tree,bipartition_tree_random")],
 ["returned trees, cuts, node sets, errors"])

prop("C21", "Running the library never alters the user's graph or inputs",
 "No chain, proposal, optimizer, statistic, enumeration or seed-plan generator, completed, failing or interrupted, changes the nodes, edges or user data of the graph it works on (the scratch edge weight reserved for drawing trees excepted), nor the assignments, statistic dictionaries, constraint lists or other collections the caller passed in. The graph answers every node, edge, neighbour and data query the same before, during and after any run.",
 ["histories", "fault_sequences", "crash_points", "schedules"],
 "for every mix and interleaving of library operations on one graph, with faults and interrupts injected",
 "tests build a fresh graph per test and never re-inspect it after a run",
 ["gerrychain/graph/graph.py", "gerrychain/tree.py", "gerrychain/proposals/spectral_proposals.py", "gerrychain/partition/partition.py", "gerrychain/grid.py"],
 [("frozen graph", "gerrychain/graph/graph.py:FrozenGraph"),
  ("subgraph views", "gerrychain/partition/subgraphs.py"),
  ("scratch weight", "gerrychain/tree.py:random_spanning_tree")],
 ["graph nodes, edges, attributes, neighbour and attribute queries before and after"])

prop("C22", "Region-aware recombination prefers cuts along region borders",
 "With region surcharges, the spanning tree drawn has minimum total weight for weights made of each edge's draw plus the surcharge of every region type whose border it lies on (or whose membership is missing), and among the balanced cuts the one chosen crosses as many of the surcharged region types at once as any available cut does, breaking ties by total surcharge and then by the cut's weight among the cuts of the chosen combination (with more than three region types, simply the heaviest cut). Surcharges never change which redrawn districts count as legal, and omitting them gives the ordinary behaviour.",
 ["schedules", "inputs", "configurations"],
 "for every region layout (missing membership included), surcharge set, population data and random draw sequence including ties",
 "tests look at average split counts of a few long chains",
 ["gerrychain/tree.py", "gerrychain/proposals/tree_proposals.py"],
 [("surcharged weights", "gerrychain/tree.py:random_spanning_tree"),
  ("ordered subsets of region types", "gerrychain/tree.py:_region_preferred_max_weight_choice,_power_set_sorted_by_size_then_sum")],
 ["chosen side of the cut, given the observed tree and cuts"])

prop("C23", "Partisan and compactness scores follow their published formulas",
 "Mean-median, mean-thirdian, efficiency gap, partisan bias, partisan Gini and Polsby-Popper return the published formula's value for any given vote shares, areas and perimeters.",
 ["inputs"], "for every vector of vote shares, areas and perimeters",
 "tests sample a few vectors",
 ["gerrychain/metrics/partisan.py", "gerrychain/metrics/compactness.py"],
 [("formulas", "gerrychain/metrics/partisan.py, gerrychain/metrics/compactness.py")])

prop("C24", "Graphs built from geometries have exactly the rook or queen adjacencies",
 "Building a graph from a geographic table yields an edge exactly for each pair of polygons that share an edge (rook) or a point (queen), with correct shared perimeters, areas and exterior perimeters, and the requested data columns.",
 ["inputs"], "for every table of valid polygons",
 "tests sample a few fixed shapes",
 ["gerrychain/graph/adjacency.py", "gerrychain/graph/geo.py", "gerrychain/graph/graph.py"],
 [("spatial index and intersections", "gerrychain/graph/adjacency.py:neighbors")])

prop("C25", "Gingles scores and grids match their definitions",
 "The majority-minority scoring functions and the rectangular grid constructor return the values their documentation defines for every parameter.",
 ["inputs"], "for every share vector and grid dimension",
 "tests sample a few values",
 ["gerrychain/optimization/gingleator.py", "gerrychain/grid.py"],
 [("formulas", "gerrychain/optimization/gingleator.py; grid.py")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
    print("valid", len(P))
except ImportError:
    print("written", len(P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]

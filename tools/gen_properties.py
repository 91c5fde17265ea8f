#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

prop("C01", "A flip yields exactly the requested plan and leaves its ancestors alone",
 "Flipping nodes of a plan yields a new plan in which every flipped node is in the district it was flipped to and every other node stays where it was; the node-to-district mapping, the district-to-nodes sets, the district subgraphs and the exported forms (dictionary, series, iteration) always describe the same plan, and no node is ever lost or held by two districts. Districts that lose their last node remain, empty. The plan flipped from, its siblings and all earlier plans never change, and an assignment that does not cover exactly the nodes of the graph, or gives a node two districts, is refused.",
 ["inputs","histories"], "every graph, node and district label type, and every tree of flips (single, multi-node, swaps, no-op, emptying and refilling districts), including several children of one plan and dropped parents",
 "Tests compare a few hand-written flips; the guarantee is about every history of flips, where the incremental bookkeeping of one step builds on all earlier ones.",
 ["gerrychain/partition/partition.py","gerrychain/partition/assignment.py","gerrychain/partition/subgraphs.py","gerrychain/updaters/flows.py"],
 ["assignment mapping","parts dictionary","flows"],
 [("Assignment.update_flows","gerrychain/partition/assignment.py"),("flows_from_changes","gerrychain/updaters/flows.py")],
 ["Partition.flip","Partition.assignment","Partition.parts","Partition.subgraphs"])

prop("C02", "Cut edges equal the edges that join different districts, after any history",
 "At every plan reachable by flips, the reported set of cut edges is exactly the set of graph edges whose endpoints lie in different districts, each listed once. The per-district version lists for each district exactly the cut edges with an endpoint in it. This holds no matter how many nodes a flip moves, or which plans of the history were looked at before.",
 ["inputs","histories"], "every graph, every history of flips and every pattern of reading the values along it",
 "The values are maintained incrementally from the parent plan; tests compare with a recomputation along a few random walks of single-node flips.",
 ["gerrychain/updaters/cut_edges.py","gerrychain/updaters/flows.py","gerrychain/partition/partition.py"],
 ["cut edge set","cut edges by part","edge flows"],
 [("cut_edges / new_cuts / obsolete_cuts","gerrychain/updaters/cut_edges.py"),("compute_edge_flows, on_edge_flow","gerrychain/updaters/flows.py")],
 ["partition['cut_edges']","partition['cut_edges_by_part']"])

prop("C03", "District tallies equal the sum over the district's nodes, after any history",
 "At every plan reachable by flips, a tally of one or more node columns, or of a separately supplied data series, reports for every district the exact sum over the nodes currently in it. Nodes with missing (NaN) data count as nothing at every step, districts that are empty report zero, and the district totals always add up to the total over the graph.",
 ["inputs","histories"], "every graph and node data (integers, floats, negative, zero, missing values), every history of flips, and reuse of one tally on several graphs",
 "A tally is updated from the parent's value by what flowed in and out; errors accumulate silently over a history and the tests see only few.",
 ["gerrychain/updaters/tally.py","gerrychain/updaters/flows.py"],
 ["tally per district"],
 [("Tally","gerrychain/updaters/tally.py"),("DataTally","gerrychain/updaters/tally.py"),("on_flow","gerrychain/updaters/flows.py")],
 ["partition[alias] of Tally and DataTally"])

prop("C04", "District boundary lengths, perimeters, areas and compactness stay exact",
 "At every plan reachable by flips, each district's exterior boundary is the boundary length of its nodes on the rim, its interior boundary is the total shared length of its cut edges, its perimeter is their sum, its area is the sum of its nodes' areas, and its Polsby-Popper score is 4*pi*area/perimeter^2 (NaN for a zero perimeter). The set of rim nodes per district is exact as well. The compactness summaries of a plan (sum, sum of reciprocals, Euclidean norm, harmonic mean) are computed from these scores.",
 ["inputs","histories"], "every graph with lengths and areas, every history of flips incl. multi-node ones, and every read pattern",
 "All these values but the scores are maintained incrementally over nodes and over edges; tests cover a single small grid.",
 ["gerrychain/updaters/compactness.py","gerrychain/updaters/flows.py","gerrychain/metrics/compactness.py","gerrychain/constraints/compactness.py","gerrychain/partition/geographic.py"],
 ["exterior boundaries","interior boundaries","perimeter","area"],
 [("exterior_boundaries, interior_boundaries, perimeter","gerrychain/updaters/compactness.py"),("polsby_popper","gerrychain/metrics/compactness.py")],
 ["GeographicPartition updaters","Grid updaters"])

prop("C05", "What is read, and when, never changes what a plan reports",
 "The value of an updater at a plan depends only on the plan (and its ancestry), not on which other values were read before, in what order, at which plans, or how often; once read it stays the same. Plans that live side by side (siblings, other graphs, reused updater objects) do not influence each other, and every updater is computed at most once per plan.",
 ["inputs","histories"], "every interleaving of flips and reads over several live plans on one or more graphs",
 "Values are cached per plan and computed lazily through chains of ancestors, with process-wide caches behind them; tests read in one fixed order.",
 ["gerrychain/partition/partition.py","gerrychain/updaters/flows.py","gerrychain/updaters/tally.py","gerrychain/updaters/election.py","gerrychain/updaters/locality_split_scores.py"],
 ["per-plan cache","parent links","memoized flows"],
 [("Partition.__getitem__","gerrychain/partition/partition.py"),("lru_cache on flows","gerrychain/updaters/flows.py")],
 ["partition[name]"])

prop("C06", "The Markov chain yields the promised sequence of valid states",
 "Iterating a chain of N >= 1 steps yields exactly N states, the first being the initial state; each further state is either the previous one (the proposal was not accepted) or a plan that was proposed from it, satisfies all constraints, and was accepted. Proposals that violate a constraint are never yielded, never shown to the acceptance function and do not count as a step; the acceptance function is asked exactly once per counted step. Iterating again starts over from the initial state, and a state handed out keeps a link to at most its direct predecessor.",
 ["inputs","histories"], "every proposal, constraint set and acceptance rule, chain length, and pattern of (partial, repeated) iteration",
 "The guarantee is about every sequence of verdicts of the three callables; tests run a few chains with fixed ones.",
 ["gerrychain/chain.py"],
 ["counter","current state","initial state","parent link"],
 [("MarkovChain.__next__","gerrychain/chain.py"),("MarkovChain.__iter__","gerrychain/chain.py")],
 ["iteration of MarkovChain","calls made to proposal, constraints, accept"])

prop("C07", "Constraints are enforced exactly, and bounds are frozen at the first plan",
 "A collection of constraints holds exactly if every one of them holds, an initial plan that fails one is refused with an error naming every one that failed, and a constraint that does not answer with a boolean is an error. Fixed, upper, lower and percentage bounds are inclusive; self-configuring bounds are set once by the first plan they see, whatever its value, and never move. Population bounds around the ideal, tolerance between the smallest and largest district, relative deviations from the ideal and the no-vanishing-district rule judge the current plan by these definitions.",
 ["inputs","histories"], "every list of constraints and verdicts, and every sequence of values (zero, negative, equal to the bound, ...) a bound is asked about",
 "A bound is a small state machine over the history of plans it has seen; tests try single values.",
 ["gerrychain/constraints/validity.py","gerrychain/constraints/bounds.py","gerrychain/chain.py"],
 ["latched bounds"],
 [("Validator","gerrychain/constraints/validity.py"),("bounds classes","gerrychain/constraints/bounds.py"),("MarkovChain constraints check","gerrychain/chain.py")],
 ["Validator(...)(plan)","bounds(plan)","MarkovChain(...)"])

prop("C08", "Contiguity checks agree with connectivity of the districts",
 "For a plan whose parent is contiguous (or that has no parent), the contiguity checks answer true exactly if every district is non-empty and induces a connected subgraph; the check optimised for single flips agrees with this for every single-node flip to an adjacent district. The component listing gives for each district exactly its connected components, the count of contiguous districts counts exactly the connected ones, and the rule against more discontiguity rejects exactly plans with fewer contiguous districts than the first plan it saw.",
 ["inputs","histories"], "every graph, plan and flip (one node or many)",
 "The checks look only at the neighbourhood of a flip or at the affected districts; equivalence with global connectivity is a statement about all graphs and flips.",
 ["gerrychain/constraints/contiguity.py"],
 ["affected parts"],
 [("single_flip_contiguous","gerrychain/constraints/contiguity.py"),("contiguous, contiguous_bfs","gerrychain/constraints/contiguity.py")],
 ["contiguous(plan)","contiguous_bfs(plan)","single_flip_contiguous(plan)"])

prop("C09", "Flip proposals propose exactly the advertised moves, with the right odds",
 "The random boundary flip moves one endpoint of a cut edge into the district of the other endpoint, can produce every such move, and picks cut edges and endpoints uniformly; without cut edges it returns the plan itself. The reversible flip picks uniformly among the distinct (boundary node, neighbouring district) moves, its two-district variant picks a boundary node uniformly and then a neighbouring district uniformly; the any-node flip picks node and district uniformly; the chunk flip pulls all differently assigned neighbours of a boundary node into its district; the every-district flip moves an endpoint of one cut edge of every district. No proposal changes anything else, nor the plan it starts from.",
 ["inputs"], "every graph, plan and outcome of the random choices (all of them, with their exact probabilities, on small cases)",
 "The claim is about the support and distribution over all random choices; tests sample a few outcomes.",
 ["gerrychain/proposals/proposals.py"],
 ["flips proposed"],
 [("propose_random_flip","gerrychain/proposals/proposals.py"),("slow_reversible_propose, slow_reversible_propose_bi","gerrychain/proposals/proposals.py"),("propose_chunk_flip, propose_flip_every_district, propose_any_node_flip","gerrychain/proposals/proposals.py")],
 ["proposal(plan).assignment"])

prop("C10", "Balanced tree cuts are found exactly, and bipartitions respect the tolerance",
 "On any spanning tree and populations, both cut-finding methods report exactly the tree edges whose removal leaves both sides within the tolerance of the target, each with the node set of one of its two sides; in one-sided mode the memoizing method reports exactly the edges one side of which is within tolerance, with that side, and the contracting method only such edges. A bipartition of a connected graph is a connected node set with connected complement whose population is within tolerance of the target (and so is the complement's, unless one-sided), obtained by cutting a single edge of a spanning tree. When there is no such cut the search stops after the allowed number of attempts with the documented error.",
 ["inputs"], "every tree, population, target, tolerance and root; every connected graph and random choice",
 "Correctness must hold for every tree shape, root and population vector; tests use a few small trees.",
 ["gerrychain/tree.py"],
 ["subtree populations","contracted populations"],
 [("find_balanced_edge_cuts_memoization","gerrychain/tree.py"),("find_balanced_edge_cuts_contraction","gerrychain/tree.py"),("bipartition_tree, bipartition_tree_random","gerrychain/tree.py")],
 ["returned cuts","returned node set"])

prop("C11", "Spanning trees are spanning trees, drawn as advertised",
 "The random-weight method always returns a spanning tree of the given graph that is of minimum weight for the random weights it assigned, where an edge is surcharged once per region attribute on which its endpoints differ or one is missing, so with surcharges above the random weights it keeps regions whole wherever the graph allows it. The uniform method always returns a spanning tree and returns every spanning tree of the graph with the same probability. The reported number of spanning trees of a district is the exact count.",
 ["inputs"], "every connected graph, region labelling, surcharge and outcome of the random choices",
 "Uniformity and minimality are statements about the whole distribution over all graphs; tests only look at single trees.",
 ["gerrychain/tree.py","gerrychain/updaters/spanning_trees.py"],
 ["random weights","loop-erased walk"],
 [("random_spanning_tree","gerrychain/tree.py"),("uniform_spanning_tree","gerrychain/tree.py"),("num_spanning_trees","gerrychain/updaters/spanning_trees.py")],
 ["returned tree","partition updater num_spanning_trees"])

prop("C12", "A ReCom step re-splits one pair of adjacent districts into valid halves",
 "A ReCom proposal merges two adjacent districts and splits them again into two connected districts with the same two labels, both within the population tolerance of the target; no node outside the two districts changes. Pairs of adjacent districts are drawn in proportion to the number of cut edges between them. When a pair cannot be split and reselection is allowed, another pair is tried, and once every adjacent pair has failed the documented error is raised instead of running on.",
 ["inputs"], "every graph, plan, population, tolerance, node repeats, region surcharges, bipartition method and outcome of the random choices",
 "The step composes merging, tree drawing and cutting over all graphs and random choices; tests only run it and look for exceptions.",
 ["gerrychain/proposals/tree_proposals.py","gerrychain/tree.py"],
 ["pair of districts","bad pairs"],
 [("recom","gerrychain/proposals/tree_proposals.py"),("epsilon_tree_bipartition","gerrychain/tree.py")],
 ["recom(plan)","ReCom(...)(plan)"])

prop("C13", "Reversible ReCom accepts with the exact reversibility probability",
 "A reversible ReCom step returns either the unchanged plan or a plan in which two adjacent districts have been re-split, with the same labels, into connected districts within tolerance. The ordered pair of districts is drawn uniformly from all ordered pairs (a non-adjacent or equal pair is a self-loop), the merged districts are cut along a uniformly drawn spanning tree at a uniformly chosen balanced edge, and the result is accepted with probability (number of balanced edges)/(M * length of the new seam). More balanced edges than M is an error.",
 ["inputs"], "every graph, plan, M and outcome of the random choices",
 "Reversibility is a statement about exact transition probabilities; tests run single steps.",
 ["gerrychain/proposals/tree_proposals.py","gerrychain/tree.py"],
 ["ordered pair","balanced edges","seam length"],
 [("reversible_recom","gerrychain/proposals/tree_proposals.py"),("_bipartition_tree_random_all","gerrychain/tree.py")],
 ["reversible_recom(plan)"])

prop("C14", "Seed plans cover the graph with connected, balanced districts",
 "Recursive partitioning assigns every node of a connected graph to exactly one of the requested labels, uses every label, and makes every district connected and within the tolerance of the target population (or raises one of the documented errors). The recursive seeding method promises the same for two and more districts while it splits into chunks along the prime factorisation, the requested number or the cap given; its chunks cover the graph, are connected and within the tolerance of their share. What one district is over or under is paid back by the next, so that on lines and rings of equal nodes, where every rest can be split, a plan is found whatever the random choices. The random initial plan does this for the ideal population. The nodes, edges and columns of the graph are left as they were (but for the scratch weights of the spanning trees).",
 ["inputs"], "every connected graph, population, number of districts, labels, tolerance, and outcome of the random choices",
 "The debt carried from district to district must close at the end for every random outcome; tests check single grids.",
 ["gerrychain/tree.py","gerrychain/partition/partition.py"],
 ["population debt","remaining nodes"],
 [("recursive_tree_part","gerrychain/tree.py"),("recursive_seed_part, get_seed_chunks","gerrychain/tree.py"),("Partition.from_random_assignment","gerrychain/partition/partition.py")],
 ["returned assignment"])

prop("C15", "Election results and partisan scores follow from the node-level votes",
 "At every plan reachable by flips, an election reports for every party and district the sum of the node-level votes, its share of the district's total (missing for a district without votes), statewide counts and shares, and a district is won exactly by a party with strictly more votes than every other. Mean-median, mean-thirdian, efficiency gap, partisan bias and partisan Gini equal their published definitions on these results, seen from the first party. Elections on the same plan, also with equal party names, do not mix.",
 ["inputs","histories"], "every graph, votes (zero, ties, missing districts), number of parties, and history of flips",
 "Results are updated incrementally and scored by formulas with ties and empty cases; tests use a handful of vote vectors.",
 ["gerrychain/updaters/election.py","gerrychain/metrics/partisan.py","gerrychain/updaters/tally.py"],
 ["vote tallies per party"],
 [("Election / ElectionUpdater / ElectionResults","gerrychain/updaters/election.py"),("partisan metrics","gerrychain/metrics/partisan.py")],
 ["partition[election]","ElectionResults methods"])

prop("C16", "County and locality split reports are exact",
 "At every plan reachable by flips, each county is reported with exactly its nodes and the districts it meets, and as not split (one district), newly split (split now but not in the plan flipped from) or an old split; the rule refusing new splits rejects exactly plans with a newly split county. The split scores of localities (pairs of locality and district, connected pieces, cut edges inside localities, split localities, Shannon and power entropy) and the count of regions with a cut edge inside equal their definitions on the current plan.",
 ["inputs","histories"], "every graph, labelling with counties (strings, numbers), and history of flips",
 "The split status depends on the history and the scores on the whole plan; tests look at two or three plans.",
 ["gerrychain/updaters/county_splits.py","gerrychain/updaters/locality_split_scores.py","gerrychain/constraints/validity.py"],
 ["county info per plan"],
 [("county_splits, tally_region_splits","gerrychain/updaters/county_splits.py"),("LocalitySplits","gerrychain/updaters/locality_split_scores.py"),("refuse_new_splits","gerrychain/constraints/validity.py")],
 ["partition[county updater]","partition[locality updater]"])

prop("C17", "Optimization runs track the best plan and start each burst from it",
 "An optimization run yields exactly the announced number of plans and behaves like the underlying Markov chain; when it ends, the best score is the best over all plans seen (including the initial one) and the best plan is the latest one with that score, for maximizing and minimizing alike. Every burst starts at the best plan so far; bursts of variable length start at length 2 and double exactly after the given number of bursts of the current length in a row without improvement. Every run starts over, and tracks at each point the best of the plans already processed.",
 ["inputs","histories"], "every score function, proposal sequence, burst length and number, also repeated and mixed runs of one optimizer",
 "The bookkeeping spans bursts and runs for every sequence of scores, with ties; tests check that a minimum is found.",
 ["gerrychain/optimization/optimization.py","gerrychain/chain.py"],
 ["best plan","best score","burst length","time stuck"],
 [("short_bursts, variable_length_short_bursts","gerrychain/optimization/optimization.py"),("tilted_run, simulated_annealing","gerrychain/optimization/optimization.py")],
 ["yielded plans","best_part","best_score"])

prop("C18", "Gingles scores equal their definitions at and around the threshold",
 "The number of opportunity districts counts the districts whose minority share is at least the threshold; the partial, next-highest-close, maximum-excess and average-excess scores add to it exactly the documented term, for every combination of districts above, at and below the threshold, including none or all above it. Shares computed from population columns are minority over total per district of the current plan; when a column of shares is named, those shares count, whether or not population columns are named too. The optimizer maximizes the chosen score.",
 ["inputs"], "every vector of district shares, threshold and score function",
 "The formulas have case distinctions at the threshold; tests use one vector.",
 ["gerrychain/optimization/gingleator.py"],
 ["minority shares"],
 [("Gingleator score functions","gerrychain/optimization/gingleator.py")],
 ["Gingleator score functions","Gingleator(...).score"])

prop("C19", "Diversity counts and one-flip neighbourhoods are exact",
 "While passing a run through unchanged, the diversity statistics report after each plan the number of plans seen, of distinct plans (up to renaming of districts) and of distinct district node sets. The one-flip neighbourhood of a plan lists every valid plan that differs by moving one boundary node into an adjacent district exactly once, and nothing else; the metagraph degree is their number.",
 ["inputs","histories"], "every sequence of plans, and every graph, plan and constraint",
 "Exactness over all sequences and all neighbours cannot be sampled by the single example in the tests.",
 ["gerrychain/meta/diversity.py","gerrychain/metagraph.py"],
 ["plans seen","districts seen"],
 [("collect_diversity_stats","gerrychain/meta/diversity.py"),("all_cut_edge_flips, all_valid_states_one_flip_away, metagraph_degree","gerrychain/metagraph.py")],
 ["yielded statistics","yielded neighbours"])

prop("C20", "Dual graphs mirror the geometry, and graph data survives every transfer",
 "The graph made from polygons has one node per polygon, an edge exactly where two polygons share a boundary of positive length (or any point, for queen adjacency) with that length, each polygon's area, and the rim flag and length of the outer boundary; grids are built to the same rules. Invalid polygons are refused with an error naming their rows, overlaps and islands are warned about, and reprojection uses the UTM zone of most polygons. Adding or joining columns puts exactly the requested values on exactly the matching nodes (and warns about missing values); a join that misses a row changes nothing. The table and the shapes kept with a graph made from polygons mirror its nodes, and plotting a plan shows each node's shape with the district of the node, whatever the order of the shapes, and refuses shapes of other nodes. Saving to JSON and loading returns the same nodes, edges and data (without geometries, or with them as GeoJSON). The graph of a plan refuses changes to its nodes, edges and columns, and shows the same neighbours, degrees, data and subgraphs as the original.",
 ["inputs","histories"], "every arrangement of (grid-aligned) polygons, index labels, data frame and adjacency rule, and every sequence of additions, joins, saving, loading and use",
 "The relation must hold for every arrangement incl. islands, corner contacts and holes; tests use one 2x2 example.",
 ["gerrychain/graph/graph.py","gerrychain/graph/adjacency.py","gerrychain/grid.py"],
 ["edge lengths","boundary flags and lengths","node attributes"],
 [("rook, queen","gerrychain/graph/adjacency.py"),("add_boundary_perimeters, join, add_data, to_json, from_json, FrozenGraph","gerrychain/graph/graph.py"),("create_grid_graph","gerrychain/grid.py")],
 ["Graph.from_geodataframe","Graph.join","Graph.add_data","Graph.to_json/from_json","Grid"])

prop("C21", "A seeded run is reproducible and all randomness comes from the seed",
 "With the same seed and inputs, in the same process or a new one with the same hash seed, every proposal, tree method, seeding method, acceptance rule and whole chain or optimization run yields the same sequence of plans. A run is not influenced by what was run, read or built before it was seeded, and leaves the nodes, edges and columns of the graph as they were (but for the scratch weights of spanning trees).",
 ["inputs","histories","configurations"], "every run configuration, with arbitrary other work done before seeding",
 "Tests run each configuration once; reproducibility compares two runs after different pasts.",
 ["gerrychain/proposals/proposals.py","gerrychain/proposals/tree_proposals.py","gerrychain/tree.py","gerrychain/accept.py","gerrychain/chain.py","gerrychain/optimization/optimization.py"],
 ["random state"],
 [("use of the random module","gerrychain/tree.py"),("random choices in proposals","gerrychain/proposals/proposals.py")],
 ["sequence of assignments of two runs"])

prop("C22", "Acceptance rules accept with exactly the documented probability",
 "The cut-edge rule accepts a plan with probability min(1, cut edges of its parent / its own cut edges) and always accepts a plan without parent. The tilted rule always accepts a score at least as good as the parent's and a worse one with probability p; annealing accepts a plan that is worse by d with probability exp(-beta(t) * magnitude * d), where t is the plan's number of steps in the chain, and always accepts one that is no worse. The hot-cold schedules give 0 in the hot phase, 1 in the cold phase, follow the documented linear or logit curve in between, and repeat.",
 ["inputs","histories"], "every pair of plan and parent, score, p, schedule, step number and random draw",
 "The claim is about acceptance thresholds for all draws and steps; tests check that runs finish.",
 ["gerrychain/accept.py","gerrychain/optimization/optimization.py"],
 ["step number","beta schedule"],
 [("cut_edge_accept","gerrychain/accept.py"),("tilted and annealing acceptance, beta functions","gerrychain/optimization/optimization.py")],
 ["accept(plan)","states of tilted and annealing runs","beta functions"])

prop("C23", "Flows between a plan and its parent are exact, and updaters can follow them",
 "For a plan made by flipping another, the reported node flows list for every district exactly the nodes that joined it and the nodes that left it, and the edge flows exactly the cut edges that the district gained and lost; districts not concerned have no flow. An updater defined by an initial value and a rule for what joins and leaves a district (by nodes or by cut edges) is told every change exactly once, so that its value at every plan reachable by flips equals the initial rule applied to that plan.",
 ["inputs","histories"], "every graph, plan, flip (single, multi-node, swaps, renamings, no-op, emptying) and history of flips, dropped parents and reads",
 "All incremental updaters, also those users write, rest on the flows; tests check one or two flips by hand.",
 ["gerrychain/updaters/flows.py","gerrychain/partition/partition.py"],
 ["node flows","edge flows"],
 [("flows_from_changes, compute_edge_flows","gerrychain/updaters/flows.py"),("on_flow, on_edge_flow","gerrychain/updaters/flows.py")],
 ["partition.flows","partition.edge_flows","updaters made with on_flow and on_edge_flow"])

prop("C24", "Region-aware cuts are taken along region lines first",
 "When surcharges are given for one to three kinds of regions, a bipartition is cut, among the balanced cuts found in the tree, at an edge that bridges the most kinds of regions, of those with the largest total surcharge, and of those that bridge the same regions the one with the largest weight, whether called directly or by a ReCom step. With four or more kinds, or none, the heaviest balanced cut is taken; when no surcharges are given, every balanced cut of the tree is equally likely. The weight of a cut is that of its tree edge, and where surcharges are given the tree itself is drawn with them: an edge weighs its random weight plus the surcharge of every kind of region it crosses (or that is missing at an end). This holds as well when only one side has to be in tolerance. A rule supplied by the user decides alone.",
 ["inputs"], "every graph, regions (also missing ones), surcharges, spanning tree, set of balanced cuts and outcome of the random choices",
 "The order is over all sets of regions and all lists of cuts; tests check aggregate counts of a few runs.",
 ["gerrychain/tree.py","gerrychain/proposals/tree_proposals.py"],
 ["balanced cuts","edge weights"],
 [("_region_preferred_max_weight_choice","gerrychain/tree.py"),("bipartition_tree","gerrychain/tree.py")],
 ["bipartition_tree(...)","recom(..., region_surcharge=...)"])

prop("C25", "A spectral ReCom step splits one pair of districts by its Fiedler vector",
 "A spectral ReCom step merges two adjacent districts, drawn in proportion to the number of cut edges between them, and splits them again into two non-empty districts with the same two labels according to the sign of each node's entry in the Fiedler vector of the (normalized) Laplacian of the merged districts; where no entry is zero, both halves are connected. No other node changes, and neither does the plan or the graph it started from. Equal edge weights act like none; with random weights the split of a pair varies.",
 ["inputs"], "every graph (with any node labels and order), contiguous plan, kind of Laplacian and weights",
 "The split must be right for every node order and label; the tests only run it on one grid.",
 ["gerrychain/proposals/spectral_proposals.py"],
 ["Fiedler vector","pair of districts"],
 [("spectral_cut, spectral_recom","gerrychain/proposals/spectral_proposals.py")],
 ["spectral_recom(plan)"])

prop("C26", "A run put together from the library's parts keeps all their promises at once",
 "For any run of a Markov chain or an optimizer put together from the library's own proposals, constraints, updaters and acceptance rules, from any initial plan: construction succeeds exactly if the initial plan satisfies the constraints (otherwise ValueError); the run hands out exactly the announced number of states, starting with the initial plan; every state satisfies every constraint as defined (contiguity, population bounds, cut-edge bounds, no new county splits, and so on); every proposal is a legal move of that proposal from the current state; a valid proposal is always decided and an invalid one never handed out; and every state, whenever it is looked at, also later, and whatever the constraints, the user or nobody has read before, reports exactly its own assignment, districts, cut edges, sums, boundaries, county splits and election results.",
 ["histories","inputs"], "every map, initial plan, proposal, list of constraints, acceptance rule, optimizer and pattern of reads during and after the run",
 "The parts share caches, parent links and plans; that they fit together for every combination and order of reads is what a user relies on, and tests only run a few fixed combinations.",
 ["gerrychain/chain.py","gerrychain/optimization/optimization.py","gerrychain/partition/partition.py","gerrychain/constraints/validity.py","gerrychain/proposals/proposals.py","gerrychain/proposals/tree_proposals.py","gerrychain/updaters/flows.py","gerrychain/grid.py"],
 ["current state","parent links","cached updater values","bounds"],
 [("MarkovChain.__next__","gerrychain/chain.py"),("SingleMetricOptimizer","gerrychain/optimization/optimization.py"),("Partition.flip, __getitem__","gerrychain/partition/partition.py")],
 ["states of the run","values read from the states"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

"""Writes properties.jsonl (one place to edit the wording)."""
import json, os
IG, IDG, IT = ("dynetworkx/classes/intervalgraph.py", "dynetworkx/classes/intervaldigraph.py", "dynetworkx/classes/intervaltree.py")
PG, PDG = ("dynetworkx/classes/impulsegraph.py", "dynetworkx/classes/impulsedigraph.py")
SG, SDG = ("dynetworkx/classes/snapshotgraph.py", "dynetworkx/classes/snapshotdigraph.py")
MO = "dynetworkx/algorithms/count_temporal_motif.py"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

EDGE_STATE = [{"name": "adjacency and time index", "meaning": "every edge is stored in a per-node adjacency and in a time index; the two must always describe the same edge set", "where": "IntervalGraph/ImpulseGraph and their DiGraph subclasses"}]

p("C01", "Interval graph edge histories are exact",
  "After any sequence of edge and node additions and removals on an IntervalGraph or IntervalDiGraph, the edges it reports (with their attributes) are exactly those added and not since removed. Adding an edge that already exists only updates its attributes and never duplicates it; removing edges between two nodes (optionally only those overlapping a window, or with overlapping=False only the one with exactly that interval) removes those edges, in that direction only for a directed graph, and nothing else. The edges found through the time index, through the adjacency of their nodes and through exact membership always agree.",
  ["histories", "inputs"], "every finite sequence of add/remove operations over any nodes (ints, strings, tuples, self-loops, parallel edges) and any numeric intervals with begin<=end, including 0, negative and zero-length ones",
  "Tests run one or two hand-written additions and removals on graphs of at most a handful of edges; they never remove from an index with more than a few entries, re-add removed edges, or mix removals with later queries.",
  [IG, IDG, IT], [("add_edge/remove_edge/remove_node", IG), ("add_edge/remove_edge/has_edge", IDG), ("insert/remove/discard of the balanced tree", IT)],
  ["edges()", "edges(data=True)", "edges(begin, end)", "has_edge", "remove_edge", "remove_node"], EDGE_STATE)

p("C02", "Impulse graph edge histories are exact",
  "After any sequence of edge and node additions and removals on an ImpulseGraph or ImpulseDiGraph, the edges it reports (with their attributes) are exactly those added and not since removed. Adding an edge that already exists at that timestamp updates its attributes without duplicating it or dropping the ones it had; remove_edge removes exactly the edges between the two nodes (in that direction only for a directed graph) whose timestamp lies in the given window, honouring `inclusive`. Edges found through the time index and through the adjacency of their nodes always agree.",
  ["histories", "inputs"], "every finite sequence of add/remove operations over any nodes and numeric timestamps, every window and inclusive flag",
  "Tests cover a few additions and single removals on tiny graphs; they never combine several timestamps per pair, self-loops, windowed removals and later re-additions.",
  [PG, PDG], [("add_edge/remove_edge/remove_node", PG), ("add_edge/remove_edge", PDG)],
  ["edges()", "edges(data=True)", "edges(begin, end)", "has_edge", "remove_edge", "remove_node"], EDGE_STATE)

p("C03", "Interval window queries follow one presence rule",
  "For an IntervalGraph or IntervalDiGraph and any window with begin<=end, an edge with interval [low, high) is in the window exactly when low<end and high>begin, or low==begin; an omitted bound leaves that side unbounded. edges, nodes, number_of_nodes, has_node and has_edge all answer by that one rule (a node is in a window when one of its edges is), so they agree with each other and with a scan over all edges, and with no window they report the whole graph.",
  ["inputs", "histories"], "every graph content and every window, including omitted bounds, point windows (begin==end), windows touching edge boundaries, 0 and negative times, and windows outside the graph's extent",
  "Tests probe a few windows on two or three edges with positive times; boundary, zero-valued and out-of-range windows on larger indexes are not reached.",
  [IG, IDG, IT], [("query/slice", IT), ("edges/nodes/has_node/number_of_nodes/has_edge", IG), ("edges/has_edge", IDG)],
  ["edges(begin,end)", "nodes(begin,end)", "number_of_nodes(begin,end)", "has_node(n,begin,end)", "has_edge(u,v,begin,end)"])

p("C04", "Impulse window queries honour inclusive bounds",
  "For an ImpulseGraph or ImpulseDiGraph and any window with begin<=end, an edge at timestamp t is in the window exactly when t lies between begin and end, each bound counting as inside or outside as the `inclusive` argument says; an omitted bound leaves that side unbounded, and a point window (begin==end) selects exactly the edges at that timestamp. edges, nodes, number_of_nodes, has_node and has_edge all answer by that rule, report each edge once, and agree with each other and with a scan over all edges.",
  ["inputs", "histories"], "every graph content, every window and all four inclusive combinations, including timestamp 0, negative timestamps and bounds that coincide with timestamps",
  "Tests probe a few windows with the default flags on graphs of a few positive timestamps.",
  [PG, PDG], [("edges/nodes/has_node/number_of_nodes/has_edge", PG), ("edges/has_edge", PDG)],
  ["edges(begin,end,inclusive)", "nodes", "number_of_nodes", "has_node", "has_edge"])

p("C05", "Node lifecycle and node attributes are exact",
  "In every interval and impulse graph the node set is exactly the nodes added explicitly or as edge endpoints and not since removed, and each node's attributes are the union of those given, the latest value winning; removing edges never removes nodes, and re-adding a node keeps its edges. Removing a node without a window removes it and every edge touching it; removing it within a window removes exactly its edges in that window and then the node itself when it has no edge left; removing an absent node changes nothing. len, in, nodes, number_of_nodes, has_node and graph attributes/name all agree with that.",
  ["histories", "inputs"], "every sequence of add_node, add_nodes_from, add_edge, remove_edge and remove_node (with and without windows) over ints, strings and tuples as nodes, isolated nodes and self-loops",
  "Tests add a few nodes and remove one; no test removes a node with several edges within a window, or continues using the graph afterwards.",
  [IG, IDG, PG, PDG], [("add_node/add_nodes_from/remove_node", IG), ("add_node", IDG), ("add_node/add_nodes_from/remove_node", PG), ("add_node", PDG)],
  ["nodes(data=...)", "len", "in", "has_node", "number_of_nodes", "remove_node", "edges"])

p("C06", "Node-constrained edge selection is exact",
  "In every interval and impulse graph, edges(u, v, ...) returns exactly the edges allowed by the constraints: with one node given, the edges touching it (leaving u or entering v in a directed graph); with both, the edges between them (from u to v in a directed graph); with lists of nodes, the union over the listed nodes or pairs, without duplicates; combined with a window, the intersection. A node may be any hashable, including strings, tuples and 0, and a string or tuple naming a node is one node; unknown nodes select nothing. `data` and `default` only decorate the same selection with the right attributes.",
  ["inputs", "histories"], "every graph content and every combination of u, v (absent, one node, list), window and data/default",
  "Tests use single integer nodes on small graphs; lists of nodes, string or tuple nodes and combinations with windows are not covered.",
  [IG, IDG, PG, PDG], [("edges", IG), ("edges", IDG), ("edges", PG), ("edges", PDG)],
  ["edges(u=, v=, begin=, end=, data=, default=)"])

p("C07", "Degrees equal counts over the selected edges",
  "degree, in_degree and out_degree of a node within a window equal the number of edges touching, entering or leaving it in that window (in a directed graph degree is in-degree plus out-degree), and without a node they are the mean over the nodes of the window. With delta=True, interval graphs report, in time order, each time in the window at which one of the node's edges begins or ends together with the degree right after that change, starting from the degree at the window's beginning; impulse graphs report each timestamp in the window with the number of the node's edges at it.",
  ["inputs", "histories"], "every graph content, node, window (and inclusive flag for impulse graphs), including edges that start or end together and windows that start or end on an event",
  "Tests check one three-edge graph per class; simultaneous starts and ends, several edges at once and windowed deltas are not reached.",
  [IG, IDG, PG, PDG], [("degree", IG), ("degree/in_degree/out_degree", IDG), ("degree", PG), ("degree/in_degree/out_degree", PDG)],
  ["degree", "in_degree", "out_degree", "delta=True"])

p("C08", "Graph extent and unique timestamps track the edges",
  "At every point of a history, interval() returns the earliest begin and the latest end (for impulse graphs the first and last timestamp) over the edges present at that point, no matter which edges were added or removed before. For interval graphs, unique_timestamps, unique_begin_timestamps and unique_end_timestamps return, sorted and without repetition, exactly the begin and end times of the present edges that lie within the given bounds (inclusive or not as asked), and an empty list for a graph without edges.",
  ["histories", "inputs"], "every sequence of additions and removals, including removal of the first or last edge in time and of all edges, and every pair of bounds",
  "Tests query the extent only after additions, never after the extreme edge was removed, and never with bounds of 0 or on empty graphs.",
  [IG, IT, PG], [("remove/unique_*", IT), ("interval", IG), ("interval", PG)],
  ["interval()", "unique_timestamps", "unique_begin_timestamps", "unique_end_timestamps"])

p("C09", "Static subgraphs contain exactly the window's edges",
  "to_subgraph and to_networkx_graph return a NetworkX graph (directed or not like the source, multigraph if asked) whose edges are exactly those in the given window and whose nodes are exactly their endpoints. As a multigraph it has one edge per temporal edge carrying exactly the requested data (attributes, begin/end or timestamp, both, or nothing); as a simple graph each connected pair has one edge carrying requested data of temporal edges of that pair; node attributes are included when asked.",
  ["inputs"], "every graph content, window and combination of multigraph/edge_data/interval-or-timestamp-data/node_data flags, for all four classes",
  "Tests check a few flag combinations for the undirected classes on three edges; the directed interval class and combined flags on impulse graphs are not covered.",
  [IG, IDG, PG, PDG], [("to_subgraph/to_networkx_graph", IG), ("to_subgraph", IDG), ("to_subgraph", PG), ("to_subgraph", PDG)],
  ["to_subgraph", "to_networkx_graph"])

p("C10", "Equal-length snapshots cover the graph",
  "to_snapshots splits the graph's extent into consecutive windows of equal length, either the requested number of them or as many of the requested length as needed to reach its end, and returns one static graph per window, in order, holding exactly the edges in that window; the last window also includes the end of the extent, so every edge of the graph appears in at least one snapshot (exactly one for impulse graphs). With return_length the length used is returned, and requests with both, neither, a non-positive length or fewer than two snapshots are rejected.",
  ["inputs"], "every graph with a non-empty extent, any number of snapshots >= 2 or positive length (integer or fractional), and all data flags, for all four classes",
  "Tests use one or two integer lengths and counts on a small graph; fractional lengths, rounding at the last window and the directed interval class are not covered.",
  [IG, IDG, PG], [("to_snapshots", IG), ("to_snapshots", PG)], ["to_snapshots"])

p("C11", "Change-driven snapshot graphs reproduce the history",
  "to_snapshot_graph turns an interval graph into snapshots whose intervals do not overlap and whose boundaries are begin and end times of edges, such that each snapshot contains exactly the edges present throughout its interval (plus any zero-length edges inside it) and every instant at which an edge is present is covered by a snapshot; zero-length edges, and only they, give an additional instantaneous snapshot at their time, which holds all edges present then. For an impulse graph it gives exactly one snapshot per distinct timestamp with exactly the edges at that timestamp. Requested edge and node data are carried along, and directed graphs give directed snapshots.",
  ["inputs", "histories"], "every graph content, including shared begin or end times, nested, chained and disjoint intervals, gaps, and graphs after removals",
  "Tests check two small hand-written graphs; shared end times, gaps with several pending ends and graphs after removals are not reached.",
  [IG, IDG, PG], [("to_snapshot_graph", IG), ("to_snapshot_graph", PG)], ["to_snapshot_graph().snapshots", "get", "len"])

p("C12", "Snapshot selection is exact",
  "A SnapshotGraph or SnapshotDiGraph keeps its snapshots ordered by time, one per interval (inserting at an existing interval replaces it), whatever the order of insertion, including empty snapshots. get and every per-snapshot query and subgraph select, in order, exactly the snapshots listed by position, or exactly those whose interval meets [start, end) (they start before end, and either finish after start or start exactly at start); an omitted bound leaves that side unbounded. subgraph restricts the selected snapshots to the given nodes and keeps their intervals, class of edges and attributes.",
  ["inputs", "histories"], "every collection of snapshots (adjacent, with gaps, instantaneous, empty), every insertion order, every position list and every window, including bounds of 0, inside a snapshot, in a gap or beyond the ends",
  "Tests select from a few adjacent snapshots with one or two windows; windows starting inside the last snapshot, in gaps or at 0, and position lists for subgraph are not covered.",
  [SG, SDG], [("insert/add_snapshot/_get/get/subgraph", SG), ("add_snapshot", SDG)], ["get", "subgraph", "len", "in", "iteration", "snapshots keys"])

p("C13", "Windowed snapshot updates change only that window",
  "Adding nodes or edges to a SnapshotGraph or SnapshotDiGraph for a window [start, end) changes the network at every instant inside the window that a snapshot covers, and at no instant outside it: snapshots straddling a bound are split there into independent copies, each instant keeps exactly the nodes, edges and attributes it had plus the added ones inside the window, and no snapshot is lost. Adding by position changes exactly the snapshots at those positions.",
  ["histories", "inputs"], "every sequence of windowed and positional updates over non-overlapping snapshots, every window, including ones that start or end inside a snapshot, lie within a single snapshot, in a gap, or start at 0",
  "Tests do one update on adjacent snapshots; a window inside a single snapshot, inside the last one, or repeated updates are not reached.",
  [SG], [("add_nodes_from/add_edges_from with splitting", SG)], ["add_nodes_from", "add_edges_from", "get", "snapshots keys"])

p("C14", "Per-snapshot statistics equal NetworkX on each snapshot",
  "degree, number_of_nodes, order, size, has_node, is_multigraph, is_directed, to_directed, to_undirected and compute_network_statistic of a SnapshotGraph or SnapshotDiGraph return one result per selected snapshot, in time order (for positions: in the order they are given), each equal to applying the corresponding NetworkX operation to that snapshot, with node restriction, weight and extra arguments passed through.",
  ["inputs"], "every collection of (multi)(di)graph snapshots, every selection by position or window, and arguments nbunch, weight and keyword arguments",
  "Tests check one fixed pair of snapshots per method.",
  [SG, SDG], [("degree, size, order, ... , compute_network_statistic", SG)], ["each listed method"])

p("C15", "Interval and impulse graphs survive a text round trip",
  "Writing an interval or impulse graph, directed or not, to text and loading it back with the matching delimiter and types gives a graph of the same class with exactly the same edges (endpoints, order of endpoints and times) and, for numeric or plain-string attributes (also containing '='), the same edge attributes. Saving an empty graph or using '=' as delimiter is refused.",
  ["inputs"], "every non-empty graph with text-representable nodes, numeric times (integer, fractional, negative, 0) and attributes, and any ordinary delimiter (space, comma, tab, semicolon, '|', multi-character)",
  "Tests load one fixed file per class and save one graph; delimiters other than the space, fractional times and directed classes are hardly covered.",
  [IG, IDG, PG, PDG], [("save_to_txt/load_from_txt", IG), ("save_to_txt/load_from_txt", PG), ("load_from_txt", PDG)], ["save_to_txt", "load_from_txt"])

p("C16", "Text loading honours its options",
  "load_from_txt of interval and impulse graphs gives the edges and attributes described by the file whatever the column `order`, comment marker, delimiter, blank, whitespace-only or comment-only lines, node type, time type and whether a predictive model is asked for; with a begin or end column plus a duration the missing bound is derived from the duration. With merge=(True, gap), records of the same pair with equal attributes whose intervals overlap or lie within the gap of each other are merged into one interval spanning both, and other edges are left alone. Values that cannot be converted and malformed orders are rejected with an error.",
  ["inputs"], "every well-formed file and option combination",
  "Tests load one fixed file for a few option values and never exercise merging across several records, durations with attributes or blank lines.",
  [IG, PG, PDG], [("load_from_txt", IG), ("load_from_txt", PG), ("load_from_txt", PDG)], ["load_from_txt"])

p("C17", "Snapshot graphs survive a text round trip",
  "Writing a SnapshotGraph (or SnapshotDiGraph) of simple snapshots to text and loading it back gives the same snapshot intervals and, in each, the same adjacency including edge weights (and direction for the directed class) with nodes numbered by position. Start and end may come in either order, comments and blank lines are ignored, refused delimiters and missing or non-numeric intervals raise an error.",
  ["inputs"], "every non-empty collection of non-empty simple snapshots with numeric weights, intervals with any numeric bounds, and any ordinary delimiter or start/end key names",
  "The tests load one fixed file and compare one property of the result.",
  [SG, SDG], [("save_to_txt/load_from_txt", SG)], ["save_to_txt", "load_from_txt"])

p("C18", "Conversions from NetworkX and snapshot graphs preserve the history",
  "from_networkx_graph gives a temporal graph of the class it is called on with one edge per (parallel) NetworkX edge, at the interval or timestamp held in the named attributes and with the remaining attributes. IntervalGraph.from_snapshot_graph assigns consecutive periods to the snapshots and gives, for each pair, maximal intervals exactly covering the periods of the snapshots that contain it, each with the attributes the pair has in one of those snapshots. Converting an interval or impulse graph to a NetworkX multigraph with data and back gives the same edges and attributes.",
  ["inputs"], "every (multi)graph with time attributes under any attribute names, every sequence of snapshots, begin and period, every temporal graph for the round trip",
  "Tests convert one fixed graph each way.",
  [IG, IDG, PG, PDG], [("from_networkx_graph/from_snapshot_graph", IG), ("from_networkx_graph", PG), ("from_networkx_graph", PDG)], ["from_networkx_graph", "from_snapshot_graph", "to_networkx_graph"])

p("C19", "The predictive model never changes answers",
  "Training the predictive query model, with any training outcome, changes only which strategy answers a query, never the answer: for every query by nodes, window, inclusive flag and data, edges and everything built on it (degree and so on) return the same edges with and without a trained model. Training itself terminates on graphs with edges over a non-empty extent and leaves the graph unchanged.",
  ["inputs", "configurations"], "every graph content, every query, and models that predict either strategy to be faster, for all four classes",
  "Tests train the model once on one graph and compare nothing, or one query, and the strategy chosen depends on timing.",
  [IG, IDG, PG, PDG], [("edges with a trained model, generate_predictive_model", IG), ("edges", IDG), ("edges", PG), ("edges", PDG)], ["generate_predictive_model", "edges", "degree"])

p("C20", "Temporal motif counts equal exhaustive enumeration",
  "For a connected motif, count_temporal_motif(G, sequence, delta) counts exactly the sequences of edges of G, in strictly increasing time order and with last minus first timestamp at most delta, that map edge by edge onto the motif under a one-to-one assignment of motif nodes to graph nodes. The total is the sum of the per-assignment counts, each per-assignment count is exact, and the participation table gives for each node and motif position the sum of the counts of the assignments with that node at that position. Graphs of other classes are rejected.",
  ["inputs"], "every ImpulseDiGraph (nodes of any hashable kind, simultaneous edges, reciprocal edges, self-loop-free or not), every connected motif of 2-4 edges on distinct nodes and every delta",
  "The only existing test does not pass on the pinned dependencies and covers three motifs on one graph.",
  [MO], [("count_temporal_motif", MO)], ["count_temporal_motif"])

p("C21", "Invalid requests are rejected without side effects",
  "Edge tuples of the wrong length and interval edges that end before they begin (in interval and impulse graphs, alone or anywhere in a bulk addition), single edges whose node is unhashable or whose time cannot be ordered among the graph's times, windows whose end precedes their begin given to edge, node and degree queries, static subgraphs and removals, exact-match requests without both bounds, inconsistent snapshot selections or intervals, forbidden delimiters and orders, and impossible snapshot counts raise an error (or select nothing) instead of being half applied: afterwards the graph reports exactly what it reported before. Removing absent edges or nodes, and querying absent nodes, is harmless.",
  ["inputs", "fault_sequences"], "every kind of invalid request at every point of a history, on all classes",
  "Tests check a few error messages on fresh graphs and never look at the graph afterwards.",
  [IG, IDG, PG, PDG, SG, SDG], [("argument validation", IG), ("argument validation", PG), ("argument validation", SG)], ["raised errors", "full observable state before and after"])

p("C22", "The result depends on what was added, not in which order",
  "Two interval or impulse graphs built from the same set of edges and nodes, in any insertion order, one by one or in bulk, with any edges added and removed in between, answer every query identically (as sets), for graphs of tens to thousands of edges and any shape of intervals, including sorted, reversed, nested and identical ones.",
  ["histories", "inputs"], "every permutation of additions and every interleaving with temporary edges; sizes up to several thousand edges",
  "Tests build every graph in one order with at most a dozen edges, so the balancing of the time index is hardly exercised.",
  [IT, IG, IDG, PG, PDG], [("insert/rotations/updateMax", IT)], ["edges(begin,end)", "interval", "unique_timestamps", "to_snapshot_graph"])

p("C23", "Queries are read-only and results are independent",
  "No query, conversion, statistic, export or snapshot extraction changes what a graph reports afterwards, and repeating a query gives the same answer. Changing the structure or the edge and node attributes of a NetworkX graph obtained by conversion, or the list of edges returned by a query, does not change the temporal graph it came from, lists and graphs already handed out do not change when the temporal graph is updated (attribute dictionaries in lists are live), and attribute dictionaries given by the caller are not modified.",
  ["histories", "inputs"], "every sequence of queries and conversions on every class, and every modification of their results",
  "Tests look only at the result of a single query on a fresh graph.",
  [IG, IDG, PG, PDG, SG], [("query and conversion methods", IG), ("query and conversion methods", PG), ("_get", SG)], ["full observable state before and after each query"])

p("C24", "No timestamp or node label is special",
  "Shifting every time of a history and of the queries by the same constant (so that values cross or hit 0), or renaming the nodes one-to-one to other hashable labels, shifts or renames the answers of every query, degree, extent, snapshot and conversion accordingly and changes nothing else.",
  ["inputs", "histories"], "every history, every integer shift and every renaming to ints, strings or tuples, on all classes",
  "Tests use positive times and small integer labels; none compares two shifted or renamed runs.",
  [IG, IDG, PG, PDG, SG, IT], [("all time comparisons and None defaults", IG)], ["all query results of the shifted or renamed graph"])

p("C25", "Times of any orderable type give the corresponding answers",
  "Interval, impulse and snapshot graphs accept times of any one orderable type (numbers, strings, dates, tuples, infinite floats): a history and its queries translated to another totally ordered type by an order-preserving mapping give the correspondingly translated answers for every operation which only compares times: additions, removals, window and exact queries, degrees, extent, unique timestamps, static subgraphs, change-driven snapshot graphs, snapshot selection and windowed updates, and text round trips with the matching type; and, for times which can be subtracted and divided (dates with a time of day, durations, fractions), equal-length snapshots by number.",
  ["inputs", "histories"], "every history and query, every order-preserving translation of its times to another orderable type, on all classes",
  "Tests use numbers and a few date strings on one graph; none compares the answers for two kinds of times.",
  [IG, IDG, PG, PDG, SG, IT], [("add_edge: begin, end orderable", IG), ("begin and end of the tree and its queries", IT)], ["all query results of the translated history"])

p("C26", "Copies and pickles are faithful and independent",
  "A graph of any of the six classes copied with copy.deepcopy or pickled and unpickled (also inside other objects, repeatedly, or after training) is a graph of the same class which answers every query as the original did, through every view (listing, time index, adjacency, nodes, extent); from then on each follows its own history: no update of one, or of its graph attributes or snapshots, shows in the other, and both keep answering exactly.",
  ["histories"], "every history before the copy and every pair of histories after it, on all classes and copying protocols",
  "No test copies or pickles a graph.",
  [IG, IDG, PG, PDG, SG, IT], [("trees, adjacency and node dictionaries shared inside one graph", IG), ("SortedDict of snapshots", SG)], ["all queries of both graphs", "graph attributes"])

p("C27", "Graphs living side by side are independent",
  "Any number of graphs, of the same or of different classes, created at any time, derived from one another by conversion or not, and given the same objects by the caller, do not influence each other: each reports exactly the result of its own history, and a new graph is empty with no attributes.",
  ["histories"], "every way of interleaving the histories of several graphs, on all classes",
  "Each test looks at one graph at a time.",
  [IG, IDG, PG, PDG, SG, IT], [("constructors and shared defaults", IG), ("constructors", PG), ("constructors", SG)], ["all queries of every graph"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")

import json, glob, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def row(pid, gen, oracle, why): T[pid] = (gen, oracle, why)
row("C01", "histories of up to 14 (sometimes 42) operations – add, bulk add, re-add with other attributes, removal by pair / window / exact interval / node, bulk removal – over 2–16 nodes of nine label schemes and eighteen time schemes (integers, fractions, mixed types, far and very fine times, nanoseconds beyond the precision of floats); removals aim at the bounds of edges of the history; variants with up to 90 bulk edges, and `many` with 600–3000 edges in seven orders of insertion and removal",
    "a dict from (u, v, begin, end) to attributes; listing, time index (query with bounds), adjacency (query by node), exact `has_edge`, nodes and `number_of_edges`-style counts must all equal it, at the end and at drawn points inside the history",
    "the three views are separate data structures kept in step by hand; a slip needs a certain tree shape or a certain earlier removal")
row("C02", "the same for timestamps, with `inclusive` given on removals", "the same with (u, v, t)", "the timestamp index, both adjacencies and the attribute dicts are updated separately")
row("C03", "histories x 8–12 windows near event times (bounds at an event, one tick or half a tick beside it, zero, open, points, outside) x single-node and pair arguments; large variants with up to 150 edges, wide ones with several hundred nodes",
    "one presence predicate scanned over the model's edges; the five queries must also agree with each other", "the half-open rule with zero-length edges has many corners and four implementations (tree, adjacency, membership, node scan)")
row("C04", "as C03 with the four `inclusive` settings", "one predicate", "sorted-index slicing at equal timestamps and open bounds")
row("C05", "histories biased to node operations with attributes (per-node, common, re-adds, removal over windows of all edges / some / none)", "dict node -> attributes", "node removal has to clean three structures; windowed removal has a case split on what is left")
row("C06", "u, v each absent / one node / a tuple or string node / a list (repeats, unknown nodes) x windows x data (False, True, name) x default", "selection over the model, compared as a set with a no-duplicates test and the decorations", "5 x 5 argument shapes x 4 strategies")
row("C07", "node / no node x window x inclusive x delta, directed and undirected, self-loops", "counts over the model; for delta a replay of begin and end events", "delta counts are incremental; simultaneous events and events at the window's edge are the corner cases")
row("C08", "histories with removals aimed at the edges that define the extent; `unique_*` with all bound and flag combinations", "min / max / sorted set over the model", "the extent is maintained incrementally from the tree's maxima")
row("C09", "window x multigraph / edge_data / edge_interval_data / node_data flags", "multiset of decorated edges computed from the model", "64 flag combinations on each of four classes")
row("C10", "number of snapshots or length (integer, fractional, larger than the extent, exact divisors) x flags", "the windows computed with exact rationals; presence predicate per window; coverage of every edge", "rounding at the end of the extent")
row("C11", "interval shapes (chains, nested, gaps, coinciding ends, zero length) x data flags", "pointwise: for each elementary segment of the event times the snapshot covering it holds exactly the edges present; no overlap; boundaries are event times", "the statement quantifies over every instant")
row("C12", "1–9 snapshots (adjacent, gaps, instantaneous, empty, equal intervals, all NetworkX kinds) inserted in any order and by every entry point, later replacements; positions (negative, repeated, empty) and windows; containment of keys, copies, None", "a sorted list of (interval, graph), compared by identity", "selection by binary search over sorted intervals; collections of several dozen snapshots")
row("C13", "collections x histories of windowed and positional additions of nodes and edges with attributes", "the state of the network (nodes, edges, attributes) at every elementary segment, before and after", "splitting and sharing: an update may leak through a shared attribute dict")
row("C14", "collections of all graph kinds x selections x weights, node bunches, statistics from NetworkX with positional and keyword arguments", "NetworkX called on private copies of the selected snapshots", "result order and argument passing over all selections")
row("C15", "graphs x delimiters x types, attributes (numbers, zero, None excluded, text with =)", "round trip, compared with the model; refusal cases", "writer and reader are separate code")
row("C16", "files rendered from records: column orders, durations instead of a bound, comment markers, blank lines, noise, merge gaps, options, prediction", "the records (and an independent merge of intervals); the merged result is checked as a pointwise cover", "the options interact")
row("C17", "snapshot graphs x layouts x delimiters; end-first lines, comments, weights; refused files", "adjacency matrices of the source snapshots", "reader is separate from writer")
row("C18", "NetworkX graphs of four kinds with the times under drawn attribute names (None values, clashes); sequences of snapshots (leading, inner, trailing empties; changing attributes)", "reference conversion; maximal runs per pair; round trip through NetworkX", "runs over snapshots and attribute naming")
row("C19", "graphs x all forced model outcomes (tree first / adjacency first / real training) x queries of C06, C07", "the same graph without a model, and the model of C06", "the model only exists after training, which the tests exercise on one graph")
row("C20", "multigraphs on 2–8 nodes of every label scheme (also labels which cannot be compared or are only partly ordered), up to 120 edges, motifs of 1–6 edges on 1–4 nodes, long motifs recurring along the time, delta at the critical values", "brute force over ordered tuples of edges and injective assignments", "an online algorithm with pruning against exhaustive enumeration")
row("C21", "valid history, then invalid requests of every kind (malformed tuples anywhere in a bulk, reversed windows and intervals, missing bounds, bad positions, unhashable nodes, times that cannot be ordered, forbidden delimiters/orders), then queries; also further updates after the refusal", "error (or empty selection), full observable state before = after", "a half-applied update is only visible through a later query of another view")
row("C22", "the same content by a permutation, one by one or bulk, with temporary edges; up to 400 edges compared through all queries, 1000–3000 in `many`", "the two graphs' answers to every query", "tree rotations depend on insertion order")
row("C23", "every query, conversion, export and statistic of the six classes; mutation of every returned graph and list (also lists of timestamps), of the caller's dicts and lists; answers kept across later updates", "full observable state before = after; deep copies of kept answers", "aliasing")
row("C24", "histories x queries x shift crossing zero x bijective relabelling", "shifted / renamed answers", "falsy labels and times (0, '', empty tuple)")
row("C25", "histories in nine types of time (strings, dates, Timestamps, Decimals, Fractions, tuples, numpy numbers, mixed numbers, a class with only `<` and equality, infinite floats)", "the same history in integers, answers mapped through the order isomorphism", "arithmetic or key tricks on times are invisible with numbers")
row("C26", "history, copy by deepcopy / pickle (protocols 0, 1, 2, 5 and the default; nested, repeated, after training), then separate histories on both", "the two models", "sentinels, shared structures and caches survive construction but not copying")
row("C27", "2–3 graphs of drawn classes with interleaved histories, created late, derived by conversion, given the same attribute dicts and lists; and rows of graphs of one shape made one after the other while the earlier ones are dropped", "one model per graph; corresponding answers along a row", "class-level or default-argument state")

ev = {}
for f in glob.glob(HERE + "/evidence/*.json"):
    e = json.load(open(f)); ev[e["property"]] = e
props = {json.loads(l)["id"]: json.loads(l) for l in open(HERE + "/properties.jsonl")}
out = []
out.append(open(HERE + "/tools/design/head.md").read())
out.append("## Per property\n")
out.append("Numbers: cases of the quick tier at seed 1 / distinct non-trivial ones / seconds on 8 cores.\n")
for pid in sorted(T):
    g, o, w = T[pid]
    e = ev[pid]; c = e["coverage"]
    out.append("### %s %s\n\n* Generated: %s.\n* Oracle: %s.\n* Beyond the tests: %s.\n* Quick: %d cases, %d non-trivial, %d s.\n" % (
        pid, props[pid]["title"], g, o, w, c["evaluations"], c["distinct_nontrivial"], round(e["wall_s"])))
out.append(open(HERE + "/tools/design/mid.md").read())
out.append("## Planted bugs\n\nEach is caught by the check of its property (quick tier, seed 1).\n\n| bug | property | what it breaks | needs |\n|---|---|---|---|\n" + "".join(
    "| %s | %s | %s | %s |\n" % (os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"))
    for d in sorted(glob.glob(HERE + "/seeded/*")) for m in [json.load(open(d + "/meta.json"))]))
out.append(open(HERE + "/tools/design/tail.md").read())
open(HERE + "/DESIGN.md", "w").write("\n".join(out))

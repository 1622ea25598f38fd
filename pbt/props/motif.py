"""C20: temporal motif counts."""
from collections import Counter
from itertools import chain

import dynetworkx as dnx
import networkx as nx
from hypothesis import strategies as st

from ..core import Sub, Violation, register
from ..drive import Driver, check, graph_state, same, short
from ..gen import Fresh, LABELS, history, label


def brute(edges, seq, delta):
    """{assignment key: count} by exhaustive enumeration of increasing edge sequences"""
    edges = sorted(edges, key=lambda e: e[2])
    out = Counter()
    k = len(seq)

    def walk(i, start, first, last, amap, key):
        if i == k:
            out[key] += 1
            return
        a, b = seq[i]
        for j in range(start, len(edges)):
            u, v, t = edges[j]
            if i and (t <= last or t - first > delta):
                if t - first > delta:
                    break
                continue
            m = dict(amap)
            ok = True
            for x, y in ((a, u), (b, v)):
                if x in m:
                    ok = ok and m[x] == y
                elif y in m.values():
                    ok = False
                else:
                    m[x] = y
                if not ok:
                    break
            if ok:
                walk(i + 1, j + 1, t if i == 0 else first, t, m, key + (u, v))
    walk(0, 0, None, None, {}, ())
    return out


SHAPES = [[[0, 1]], [[0, 0]], [[0, 1], [0, 1]], [[0, 1], [1, 0]], [[0, 1], [1, 2]], [[0, 1], [2, 1]], [[0, 1], [0, 2]],
          [[0, 1], [1, 2], [2, 0]], [[0, 1], [0, 2], [0, 1]], [[0, 1], [1, 0], [0, 1]], [[0, 1], [1, 2], [1, 2]],
          [[0, 0], [0, 1]], [[0, 1], [1, 1]], [[0, 1], [1, 2], [2, 3]], [[0, 1], [2, 1], [3, 1]], [[0, 1], [0, 1], [0, 1], [0, 1]],
          [[0, 1], [1, 2], [2, 3], [3, 0]], [[0, 1], [1, 0], [0, 1], [1, 0], [0, 1]], [[0, 1], [1, 2], [2, 0], [0, 1], [1, 2], [2, 0]], [[0, 1], [0, 2], [0, 3], [0, 4]], [[0, 1], [1, 2], [0, 2]], [[0, 0], [0, 0]], [[0, 1], [2, 3], [1, 2]]]


def connected(seq):
    return nx.is_connected(nx.Graph([tuple(e) for e in seq]))


free = st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list), min_size=1, max_size=5).filter(connected)
# half of the cases with nodes which can be compared with each other
NODES = ["int0", "ints", "chars", "words", "big", "tuples", "mixed", "sets", "collide", "sets"]
NAMES = ["int0", "chars", "words", "ints", "tuples", "mixed", "sets"]


@st.composite
def motif_case(draw, nodes, ticks, edges):
    k = draw(st.integers(2, nodes))
    case = draw(history(max_ops=2, min_ops=0, k=k, labels=NODES, attr=False, nodes=False,
                        time=st.sampled_from([[0, 1], [0, 1], [-4, 1], [100, 1], [0, 0.5], [-1.5, 0.25]])))
    node, t = st.integers(0, k - 1), st.integers(0, ticks)
    es = draw(st.lists(st.tuples(node, node, t), min_size=edges // 3 if edges > 12 else 0, max_size=edges))
    ops = [["edge", u, v, b, b, {}] for u, v, b in es]
    case["ops"] = ops + case["ops"]
    # counting takes time exponential in the length of the motif
    most = 6 if edges <= 12 else 4 if edges <= 40 else 3
    case["motif"] = draw(st.one_of(st.sampled_from(SHAPES), free).filter(lambda m: len(m) <= most))
    case["names"] = draw(st.sampled_from(NAMES))
    case["delta"] = draw(st.integers(0, ticks + 1 if ticks < 50 else 8))
    return case


LONG = [[[0, 1]] * 4, [[0, 1]] * 5, [[0, 1]] * 6, [[0, 1], [1, 0]] * 2, [[0, 1], [1, 0]] * 3, [[0, 1], [1, 2], [2, 0], [0, 1]],
        [[0, 1], [1, 2], [2, 0]] * 2, [[0, 0], [0, 1]] * 2, [[0, 1], [0, 2]] * 3, [[0, 1], [2, 1], [1, 2], [1, 0], [0, 2]], [[0, 0]] * 5]


@st.composite
def recurring_case(draw):
    """long motifs, and edges which follow them again and again while the window moves on"""
    motif = draw(st.one_of(st.sampled_from(LONG), free.filter(lambda m: len(m) >= 4)))
    k = max(max(e) for e in motif) + 1 + draw(st.integers(0, 1))
    node = st.integers(0, k - 1)
    to = draw(st.permutations(range(k)))
    n = draw(st.integers(len(motif), 14))
    steps = draw(st.lists(st.sampled_from([0, 1, 1, 1, 2, 5]), min_size=n, max_size=n))
    ops, t = [], 0
    for i, s in enumerate(steps):
        t += s
        u, v = motif[i % len(motif)]
        ops.append(["edge", to[u], to[v], t, t, {}])
    for i, u, v in draw(st.lists(st.tuples(st.integers(0, n - 1), node, node), max_size=3)):
        ops[i][1:3] = u, v
    case = {"labels": LABELS[draw(st.sampled_from(NODES))][:k], "time": draw(st.sampled_from([[0, 1], [-4, 1], [0, 0.5]])), "ops": ops, "stops": []}
    case["motif"], case["names"] = motif, draw(st.sampled_from(NAMES))
    case["delta"] = draw(st.integers(0, 12))
    return case


def motif_check(case, obs):
    d = Driver("P", True, case)
    d.run_asking(case, lambda: motif_query(d, case, obs))


def motif_query(d, case, obs):
    names = Fresh(label(x) for x in LABELS[case["names"]])
    seq = tuple((names[a], names[b]) for a, b in case["motif"])
    delta = case["delta"] * case["time"][1]
    before = graph_state(d.g)
    res = dnx.count_temporal_motif(d.g, seq, delta)
    same(graph_state(d.g), before, "the graph after counting")
    w = "count_temporal_motif(%s, %r)" % (seq, delta)
    check(isinstance(res, tuple) and len(res) == 3, "%s: expected a triple, got %s", w, short(res))
    total, counts, table = res
    want = brute(d.m.edges, seq, delta)
    same({k: int(n) for k, n in counts.items() if n}, dict(want), w + " counts per assignment")
    same(int(total), sum(want.values()), w + " total")
    pos = list(dict.fromkeys(chain.from_iterable(seq)))
    check(list(table.columns) == pos, "%s: table columns %r, expected %r", w, list(table.columns), pos)
    exp = {}
    for key, n in want.items():
        for i, x in enumerate(chain.from_iterable(seq)):
            exp.setdefault(key[i], {}).setdefault(x, {})[key] = n
    exp = {(n, x): sum(c.values()) for n, row in exp.items() for x, c in row.items()}
    got = {}
    rows = list(table.index)
    check(len(set(rows)) == len(rows), "%s: repeated table rows %r", w, rows)
    values = table.values.tolist()
    for n, row in zip(rows, values):
        for x, c in zip(pos, row):
            if not isinstance(c, (int, float)) or c != c:
                raise Violation("%s: table entry %r at %r, %r" % (w, c, n, x))
            if c:
                got[n, x] = int(c)
    same(got, exp, w + " participation")
    obs.nt(sum(want.values()) > 0)
    if sum(want.values()) > 1:
        obs.hit("several occurrences")
    if any(c > 1 for c in want.values()):
        obs.hit("assignment counted more than once")
    if len(seq) > 2 and want:
        obs.hit("motif of 3+ edges found")
    if any(u == v for u, v in seq) and want:
        obs.hit("self-loop motif found")
    ts = Counter(e[2] for e in d.m.edges)
    if any(c > 1 for c in ts.values()) and want:
        obs.hit("simultaneous edges")
    if any(not x for k in want for x in k):
        obs.hit("falsy node label")


def reject_check(case, obs):
    obs.nt()
    kinds = {"ImpulseGraph": dnx.ImpulseGraph, "IntervalGraph": dnx.IntervalGraph, "IntervalDiGraph": dnx.IntervalDiGraph,
             "SnapshotGraph": dnx.SnapshotGraph, "DiGraph": nx.DiGraph, "list": list, "none": lambda: None,
             "MultiDiGraph": nx.MultiDiGraph, "SnapshotDiGraph": dnx.SnapshotDiGraph}
    g = kinds[case["class"]]()
    for u, v, t in case["edges"]:
        if case["class"].startswith("Interval"):
            g.add_edge(u, v, t, t + 1)
        elif case["class"] == "ImpulseGraph":
            g.add_edge(u, v, t)
        elif case["class"].endswith("DiGraph") and not case["class"].startswith("Snapshot"):
            g.add_edge(u, v)
    try:
        dnx.count_temporal_motif(g, tuple(map(tuple, case["motif"])), case["delta"])
    except TypeError:
        return
    raise Violation("count_temporal_motif accepted a %s" % case["class"])


reject_case = st.fixed_dictionaries({
    "class": st.sampled_from(["ImpulseGraph", "IntervalGraph", "IntervalDiGraph", "SnapshotGraph", "SnapshotDiGraph", "DiGraph", "MultiDiGraph", "list", "none"]),
    "edges": st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2), st.integers(0, 4)).map(list), max_size=4),
    "motif": st.sampled_from(SHAPES), "delta": st.integers(0, 5)})

register("C20", "ImpulseDiGraphs (2-6 nodes, up to ~150 edges, labels of every kind including incomparable ones, 0 and '', self-loops, many "
         "simultaneous edges, after removals), connected motifs of 1-6 edges and up to 5 nodes (named shapes and random), delta 0 to beyond the span; "
         "motifs of 4-6 edges recurring while the window moves; "
         "total, per-assignment counts and participation table compared with exhaustive enumeration; other classes must raise TypeError; "
         "non-trivial: at least one occurrence (rejection: always).",
         [Sub("small", motif_case(4, 7, 12), motif_check, 1500),
          Sub("dense", motif_case(3, 12, 40), motif_check, 300),
          Sub("wide", motif_case(6, 15, 30), motif_check, 300),
          Sub("long", motif_case(5, 150, 150), motif_check, 80),
          Sub("recurring", recurring_case(), motif_check, 500),
          Sub("reject", reject_case, reject_check, 100)])

"""C21 and C23: rejected requests and queries leave the graph as it was."""
import copy
import os
import shutil
import tempfile

import dynetworkx as dnx
import networkx as nx
from hypothesis import strategies as st

from ..core import Sub, Violation, register
from ..drive import Driver, check, frz, graph_state, same, short
from ..gen import node_count, LABELS, attrs, dur, history, incl, tick, window
from .nodes import CLS
from .snaps import SUBS, SnapDriver, build, canon_graph, collection, graph_spec, selection
from .snaps import with_selections as snap_selections

STRANGERS = ["nobody", 987654321, ("no", "one"), -0.125]


def refused(f, what, exceptions=Exception):
    """the request must raise"""
    try:
        r = f()
    except exceptions:
        return
    raise Violation("%s: accepted, gave %s" % (what, short(r)))


def refused_or(f, empty, what):
    """the request must raise or select nothing"""
    try:
        r = f()
    except Exception:
        return True
    if empty(r):
        return False
    raise Violation("%s: gave %s" % (what, short(r)))


# ---------------------------------------------------------------- C21, interval and impulse graphs
def bad_request(k):
    node, t = st.integers(0, k - 1), tick
    good = st.lists(st.tuples(node, node, t, dur).map(lambda x: [x[0], x[1], x[2], x[2] + x[3]]), max_size=3)
    rev = st.tuples(t, st.integers(1, 9)).map(lambda x: [x[0] + x[1], x[0]])
    inside = st.tuples(st.integers(0, 200), st.integers(0, 3), st.integers(1, 3))
    some = st.one_of(st.none(), node)
    return st.one_of(
        st.tuples(st.just("tuple"), good, good, st.sampled_from([0, 1, 2, 3, 4, 5, 6]), st.booleans(), attrs),
        st.tuples(st.just("inverted"), good, good, node, node, rev, st.booleans()),
        st.tuples(st.just("reversed"), some, some, rev, incl),
        st.tuples(st.just("reversed-at"), st.integers(0, 200), st.integers(0, 30), st.integers(0, 1), incl),
        st.tuples(st.just("half"), st.integers(0, 200), st.integers(0, 2)),
        st.tuples(st.just("absent"), node, st.integers(0, 3), window(), incl),
        st.tuples(st.just("absent-pair"), node, node, window(), incl),
        st.tuples(st.just("snapshots"), st.integers(0, 9)),
        st.tuples(st.just("delimiter"), st.booleans()),
        st.tuples(st.just("impossible"), node, node, t, dur, st.integers(0, 2), st.integers(0, 3), st.booleans()),
    ).map(list)


@st.composite
def bad_case(draw, fam):
    k = draw(node_count)
    case = draw(history(max_ops=9, min_ops=2, k=k, incls=(fam == "P")))
    n = draw(st.integers(min(1, len(case["ops"])), len(case["ops"])))
    case["at"] = n
    case["requests"] = draw(st.lists(bad_request(k), min_size=1, max_size=4))
    return case


SNAPS = [{}, {"number_of_snapshots": 3, "length_of_snapshots": 1}, {"length_of_snapshots": 0}, {"length_of_snapshots": -1},
         {"length_of_snapshots": -0.5}, {"number_of_snapshots": 1}, {"number_of_snapshots": 0}, {"number_of_snapshots": -3},
         {"number_of_snapshots": 2.5}, {"length_of_snapshots": 10 ** 21}]


def ask(d, r, obs):
    """one invalid request; returns True if it was tried"""
    g, m, L, T, kind = d.g, d.m, d.labels, d.T, r[0]
    width = 4 if d.interval else 3
    if kind in ("tuple", "inverted"):
        pre, post = [d.edge(*e) for e in r[1]], [d.edge(*e) for e in r[2]]
    if kind == "tuple":
        n = r[3] if r[3] != width else width + 1
        bad = (L[0], L[1], T(0), T(3), T(4), T(5))[:n]
        es = pre + [bad] + post
        what = "add_edges_from(%r)" % (es,)
        refused(lambda: g.add_edges_from(iter(es) if r[4] else es, **r[5]), what)
    elif kind == "inverted":
        if not d.interval:
            return False
        bad = (L[r[3]], L[r[4]], T(r[5][0]), T(r[5][1]))
        if r[6]:
            refused(lambda: g.add_edge(*bad, w=1), "add_edge%r" % (bad,))
        else:
            es = pre + [bad] + post
            refused(lambda: g.add_edges_from(es), "add_edges_from(%r)" % (es,))
    elif kind in ("reversed", "reversed-at"):
        if kind == "reversed":
            u, v = [None if i is None else L[i] for i in r[1:3]]
            b, e, i = T(r[3][0]), T(r[3][1]), r[4]
        else:
            if not m.edges:
                return False
            x = list(m.edges)[r[1] % len(m.edges)]
            u, v = (x[0], x[1]) if r[3] == 0 or d.directed else (x[1], x[0])
            # reversed windows which span the edge, begin with it, or have a bound of 0
            ends = [x[2], x[-1], x[2] - 1, x[-1] + 1, (x[2] + x[-1]) / 2, 0]
            pairs = [p for p in [(x[-1], x[2] - 1), (x[2], 0), (0, x[2])] + [(p, q) for p in ends for q in ends] if p[0] > p[1]]
            (b, e), i = pairs[r[2] % len(pairs)], r[4]
        kw = d.kw(i)
        w = "u=%r, v=%r, window (%r, %r) %s: " % (u, v, b, e, kw)
        if (u is None or d.queryable(u)) and (v is None or d.queryable(v)):
            refused_or(lambda: g.edges(u, v, b, e, **kw), lambda x: x == [], w + "edges")
        refused_or(lambda: g.nodes(b, e, **kw), lambda x: len(list(x)) == 0, w + "nodes")
        refused_or(lambda: g.number_of_nodes(b, e, **kw), lambda x: x == 0, w + "number_of_nodes")
        for f in (g.to_subgraph, g.to_networkx_graph):
            refused_or(lambda: f(b, e, **kw), lambda x: len(x) == 0 and x.number_of_edges() == 0, w + f.__name__)
        if u is not None:
            refused_or(lambda: g.has_node(u, b, e, **kw), lambda x: not x, w + "has_node")
            if d.queryable(u):
                for f in [g.degree] + ([g.in_degree, g.out_degree] if d.directed else []):
                    refused_or(lambda: f(u, b, e, **kw), lambda x: x == 0, w + f.__name__)
        if u is not None and v is not None:
            refused_or(lambda: g.has_edge(u, v, b, e, **kw), lambda x: not x, w + "has_edge")
            refused_or(lambda: g.remove_edge(u, v, b, e, **kw), lambda x: True, w + "remove_edge")
        if u is not None and (u not in m.nodes or any(u in x[:2] for x in m.edges)):
            # a node without edges goes when its edges in any window are removed
            refused_or(lambda: g.remove_node(u, b, e, **kw), lambda x: True, w + "remove_node")
        if b != e:
            obs.hit("reversed window")
    elif kind == "half":
        if not d.interval or not m.edges:
            return False
        x = list(m.edges)[r[1] % len(m.edges)]
        kw = [{"begin": x[2]}, {"end": x[3]}][r[2] % 2]
        if r[2] == 2:
            kw = {}
        else:
            refused(lambda: g.has_edge(x[0], x[1], overlapping=False, **kw), "has_edge(%r, %r, overlapping=False, %s)" % (x[0], x[1], kw))
            refused(lambda: g.remove_edge(x[0], x[1], overlapping=False, **kw), "remove_edge(%r, %r, overlapping=False, %s)" % (x[0], x[1], kw))
        if not kw:
            refused(lambda: g.remove_edge(x[0], x[1], overlapping=False), "remove_edge(%r, %r, overlapping=False)" % x[:2])
    elif kind == "absent":
        u, x = L[r[1]], STRANGERS[r[2]]
        b, e, i = T(r[3][0]), T(r[3][1]), r[4]
        kw = d.kw(i)
        w = "stranger %r (with %r, window %r, %r): " % (x, u, b, e)
        g.remove_node(x)
        g.remove_node(x, b, e, **kw)
        for p in ((x, u), (u, x), (x, x)):
            g.remove_edge(*p)
            g.remove_edge(*p, begin=b, end=e, **kw)
            if d.interval:
                g.remove_edge(*p, begin=T(0), end=T(3), overlapping=False)
                same(bool(g.has_edge(*p, begin=T(0), end=T(3), overlapping=False)), False, w + "has_edge exact")
            same(bool(g.has_edge(*p)), False, w + "has_edge")
            same(bool(g.has_edge(*p, begin=b, end=e, **kw)), False, w + "has_edge in window")
            if d.queryable(u):
                same(g.edges(*p), [], w + "edges")
                same(g.edges(*p, begin=b, end=e, **kw), [], w + "edges in window")
        for f in (g.has_node,):
            same(bool(f(x)), False, w + "has_node")
            same(bool(f(x, b, e, **kw)), False, w + "has_node in window")
        same(g.edges(u=x), [], w + "edges(u)")
        same(g.edges(v=x, begin=b, end=e), [], w + "edges(v)")
        same(g.edges(u=[x], data=True), [], w + "edges([u])")
        same(g.degree(x), 0, w + "degree")
        same(list(g.degree(x, b, e, delta=True)), [], w + "delta degree")
        if d.directed:
            same((g.in_degree(x), g.out_degree(x, b, e)), (0, 0), w + "in and out degree")
        check(x not in g, "%s reported as a node", w)
    elif kind == "absent-pair":
        u, v = L[r[1]], L[r[2]]
        b, e, i = T(r[3][0]), T(r[3][1]), r[4]
        kw = d.kw(i)
        if not any(m.joins(x, u, v) for x in m.edges):
            g.remove_edge(u, v)
            g.remove_edge(u, v, b, e, **kw)
            obs.hit("absent pair")
        elif not m.select([u], [v], b, e, d.inc(i, (True, True) if d.directed else (True, False))):
            g.remove_edge(u, v, b, e, **kw)
            obs.hit("pair absent in the window")
        else:
            return False
    elif kind == "snapshots":
        if not m.edges or m.extent()[0] == m.extent()[1]:
            return False
        kw = SNAPS[r[1]]
        refused(lambda: g.to_snapshots(**kw), "to_snapshots(%s)" % kw)
    elif kind == "impossible":
        # a node that cannot be a key, or a time that cannot be ordered among the graph's times
        if not m.edges:
            return False
        e = list(d.edge(r[1], r[2], r[3], r[3] + r[4]))
        if r[5] == 2:
            i = 2 + r[6] % (width - 2)
            e[i] = None if r[6] > 1 else object()
        else:
            e[r[5]] = [["a"], {}, {1}, ("x", [])][r[6]]
        what = "add_edge(%s)" % short(e)
        for _ in range(2):
            refused((lambda: g.add_edge(*e, w=1)) if r[7] else (lambda: g.add_edges_from([tuple(e)], w=1)), what)
        if r[5] != 2:
            refused(lambda: g.add_node(e[r[5]], w=1), "add_node(%r)" % (e[r[5]],))
    elif kind == "delimiter":
        tmp = tempfile.mkdtemp(prefix="dnxpbt")
        try:
            p = os.path.join(tmp, "g.txt")
            if r[1]:
                with open(p, "w") as f:
                    f.write("kept\n")
            refused(lambda: g.save_to_txt(p, delimiter="="), "save_to_txt(delimiter='=')")
            if r[1]:
                same(open(p).read(), "kept\n", "the file after a refused save")
            else:
                check(not os.path.exists(p), "a refused save left a file")
        finally:
            shutil.rmtree(tmp)
    return True


def reject_check(fam, directed):
    def run(case, obs):
        d = Driver(fam, directed, case)
        for op in case["ops"][:case["at"]]:
            d.apply(op)
        for r in case["requests"]:
            before = graph_state(d.g)
            nodes = set(d.m.nodes)
            if ask(d, r, obs):
                obs.hit(r[0])
                obs.nt(bool(d.m.edges))
            same(graph_state(d.g), before, "the graph after %s" % (r,))
            same({n for n in d.labels if n in d.g}, nodes & set(d.labels), "nodes after %s" % (r,))
            d.check_index("after %s: " % (r,))
        for op in case["ops"][case["at"]:]:
            d.apply(op)
        d.check_edges("after further updates: ")
        d.check_nodes("after further updates: ")
    return run


# ---------------------------------------------------------------- C21, snapshot graphs
def snap_request(k):
    t = st.integers(-5, 13)
    rev = st.tuples(t, st.integers(0, 9)).map(lambda x: [x[0] + x[1], x[0]])
    e = st.lists(st.tuples(st.integers(0, k - 1), st.integers(0, k - 1)).map(list), min_size=1, max_size=3)
    return st.one_of(
        st.tuples(st.just("insert"), graph_spec(k), st.integers(0, 6), t, st.integers(1, 5), st.integers(0, 2)),
        st.tuples(st.just("both"), st.integers(0, 20), t, st.integers(0, 2)),
        st.tuples(st.just("missing"), st.integers(0, 3), st.integers(0, 2), e),
        st.tuples(st.just("reversed"), rev, st.integers(0, 2), e),
        st.tuples(st.just("delimiter"), st.integers(0, 1)),
        st.tuples(st.just("strangers"), st.integers(0, 3))).map(list)


@st.composite
def snap_case(draw):
    case = draw(collection(overlap=False))
    case["requests"] = draw(st.lists(snap_request(len(case["labels"])), min_size=1, max_size=4))
    return case


def snap_state(S):
    return ([(tuple(k), canon_graph(G)) for k, G in S.snapshots.items()], dict(S.graph), len(S))


def snap_reject(directed):
    def run(case, obs):
        d = SnapDriver(case, directed)
        S, L, T, n = d.S, d.L, d.T, len(d.m)
        for r in case["requests"]:
            before, ids = snap_state(S), [id(G) for G in S.get()]
            kind = r[0]
            obs.hit(kind)
            if kind == "insert":
                G = build(r[1], L, directed)
                t = T(r[3])
                kw = [{"start": T(r[3] + r[4]), "end": t}, {"start": t}, {"end": t}, {}, {"start": t, "time": t},
                      {"end": t, "time": t}, {"start": t, "end": T(r[3] + r[4]), "time": t}][r[2]]
                if r[5] == 0:
                    refused(lambda: S.insert(G, **kw), "insert(%s)" % kw)
                elif r[5] == 1:
                    refused(lambda: S.add_snapshot(graph=G, **kw), "add_snapshot(graph, %s)" % kw)
                else:
                    refused(lambda: S.add_snapshot([(L[0], L[1])], **kw), "add_snapshot(edges, %s)" % kw)
            elif kind == "both":
                kw = {"sbunch": [0]}
                kw.update([{"start": T(r[2])}, {"end": T(r[2])}, {"start": T(r[2]), "end": T(r[2] + 4)}][r[3]])
                fs = [lambda: S.get(**kw), lambda: S.degree(**kw), lambda: S.number_of_nodes(**kw), lambda: S.order(**kw),
                      lambda: S.size(**kw), lambda: S.has_node(L[0], **kw), lambda: S.is_multigraph(**kw), lambda: S.is_directed(**kw),
                      lambda: S.to_directed(**kw), lambda: S.to_undirected(**kw), lambda: S.subgraph([L[0]], **kw),
                      lambda: S.compute_network_statistic(nx.density, **kw),
                      lambda: S.add_nodes_from(["new"], **kw), lambda: S.add_edges_from([(L[0], "new")], **kw)]
                i = r[1] % len(fs)
                refused(fs[i], "request %d with %s" % (i, kw))
            elif kind == "missing":
                sb = [[0, n], [n], [-n - 1], [0, -n - 1]][r[1]]
                es = [(L[u], L[v]) for u, v in r[3]]
                f = [lambda: S.add_edges_from(es, sbunch=sb, w=1), lambda: S.add_nodes_from(["new", L[0]], sbunch=sb, c=2),
                     lambda: S.get(sbunch=sb)][r[2]]
                refused(f, "request %d at positions %r of %d snapshots" % (r[2], sb, n))
            elif kind == "reversed":
                b, e = T(r[1][0]), T(r[1][1])
                es = [(L[u], L[v]) for u, v in r[3]]
                f = [lambda: S.add_edges_from(es, start=b, end=e, w=1), lambda: S.add_nodes_from(["new", L[0]], start=b, end=e, c=2),
                     lambda: S.degree(start=b, end=e)][r[2]]
                if b == e and any(k == (b, e) for k in d.m):
                    continue
                try:
                    f()
                except Exception:
                    pass
            elif kind == "delimiter":
                tmp = tempfile.mkdtemp(prefix="dnxpbt")
                try:
                    p = os.path.join(tmp, "s.txt")
                    refused(lambda: S.save_to_txt(p, delimiter=[" ", "\n"][r[1]]), "save_to_txt(delimiter=%r)" % [" ", "\n"][r[1]])
                    check(not os.path.exists(p), "a refused save left a file")
                finally:
                    shutil.rmtree(tmp)
            else:
                x = STRANGERS[r[1]]
                same(S.has_node(x), [False] * n, "has_node(%r)" % (x,))
                sub = S.subgraph([x])
                same([len(G) for G in sub.get()], [0] * n, "subgraph of an absent node")
            same(snap_state(S), before, "the snapshot graph after %s" % (r,))
            same([id(G) for G in S.get()], ids, "the snapshots (as objects) after %s" % (r,))
            obs.nt()
    return run


register("C21", "Histories on all four classes interrupted by 1-4 invalid or void requests (bulk additions with a tuple of wrong length or an edge "
         "ending before it begins at any place, lists and iterators, reversed windows in queries, extractions and removals, exact matches with a "
         "bound missing, absent nodes and pairs, impossible snapshot counts, refused delimiters), and snapshot graphs with inconsistent "
         "insertions, selections by position and window together, missing positions, reversed windows and refused delimiters; the request must "
         "raise (or select nothing where allowed), the complete observable state must be unchanged and later updates must still work; "
         "non-trivial: a request was made on a graph with edges (snapshots).",
         [Sub(n, bad_case(f), reject_check(f, dr), 1100) for f, dr, n in CLS] +
         [Sub("snapshots-" + n, snap_case(), snap_reject(dr), 1100) for n, dr in SUBS])


# ---------------------------------------------------------------- C23
def plain(x):
    """a comparable copy of any answer"""
    if isinstance(x, nx.Graph):
        return canon_graph(x)
    if isinstance(x, (dnx.SnapshotGraph,)):
        return snap_state(x)
    if isinstance(x, (dnx.IntervalGraph, dnx.ImpulseGraph)):
        return graph_state(x)
    if isinstance(x, dict):
        return ("dict", sorted((repr(k), repr(plain(v))) for k, v in x.items()))
    if isinstance(x, (str, int, float, bool, type(None))):
        return int(x) if isinstance(x, float) and x.is_integer() else x
    if isinstance(x, tuple):
        return tuple(plain(y) for y in x)
    if hasattr(x, "__iter__"):
        return sorted(repr(plain(y)) for y in x)
    return repr(x)


def given(q, x):
    """what a caller keeps of an answer: everything but the attribute dictionaries of the graph itself, which follow its updates"""
    if q[0] == "edges" and q[5] is True:
        x = [e for e, _ in x]
    elif q[0] == "nodes" and q[3] is True:
        x = ([n for n, _ in x[0]],) + x[1:]
    return plain(x)


def spoil(x):
    """changes an answer in every way a caller might; node and edge attribute dictionaries in lists are left alone"""
    if isinstance(x, nx.Graph):
        if nx.is_frozen(x):
            return
        x.graph["spoiled"] = True
        for n in list(x):
            x.nodes[n]["spoiled"] = 1
            x.nodes[n].pop("w", None)
            x.nodes[n]["c"] = "changed"
        for *_, a in list(x.edges(data=True)):
            a["w"] = "changed"
            a.pop("c", None)
            a["spoiled"] = 1
        ns = list(x)
        x.add_edge("spoil", "t")
        if ns:
            x.add_edge(ns[0], "spoil", w=3)
            x.remove_node(ns[-1])
        x.clear()
    elif isinstance(x, dnx.SnapshotGraph):
        for G in x.get():
            spoil(G)
        x.insert(nx.Graph(), start=-999, end=-998)
    elif isinstance(x, (dnx.IntervalGraph, dnx.ImpulseGraph)):
        for n in list(x.nodes()):
            x.add_node(n, w="changed")
        for e in x.edges():
            x.add_edge(*e, w="changed")
            x.remove_edge(e[0], e[1])
        x.graph["spoiled"] = 1
    elif isinstance(x, tuple):
        for y in x:
            spoil(y)
    elif isinstance(x, list):
        for y in x:
            if isinstance(y, (nx.Graph, list)):
                spoil(y)
        x.clear()


flag = st.booleans()


def question(k, fam):
    node = st.integers(0, k - 1)
    some = st.one_of(st.none(), node, st.lists(node, max_size=3))
    i = incl if fam == "P" else st.none()
    data = st.sampled_from([False, True, "w", "c"])
    return st.one_of(
        st.tuples(st.just("edges"), some, some, window(), i, data),
        st.tuples(st.just("edges"), some, some, st.just([None, None]), st.none(), data),
        st.tuples(st.just("nodes"), window(), i, data),
        st.tuples(st.just("has"), node, node, window(), i),
        st.tuples(st.just("degree"), st.one_of(st.none(), node), window(), i, flag, st.integers(0, 2)),
        st.tuples(st.just("extent"), window()),
        st.tuples(st.just("to_subgraph"), window(), i, flag, flag, flag, flag),
        st.tuples(st.just("to_networkx_graph"), window(), i, flag, flag, flag, flag),
        st.tuples(st.just("to_snapshots"), st.integers(2, 6), flag, flag, flag, flag, flag),
        st.tuples(st.just("to_snapshot_graph"), flag, flag, flag, flag),
        st.tuples(st.just("round"), flag),
        st.tuples(st.just("save"), st.sampled_from([" ", ",", ";"])),
        st.tuples(st.just("motif"), st.integers(0, 6)),
        st.tuples(st.just("name"),)).map(list)


@st.composite
def question_case(draw, fam):
    k = draw(node_count)
    case = draw(history(max_ops=9, min_ops=2, k=k, incls=(fam == "P")))
    case["time"] = case["time"][:2]      # answers are compared by their text
    case["questions"] = draw(st.lists(question(k, fam), min_size=1, max_size=5))
    case["trained"] = draw(st.integers(0, 4)) == 0
    return case


def answer(d, q):
    """one query; returns its answer, or None when it does not apply"""
    g, m, L, T, kind = d.g, d.m, d.labels, d.T, q[0]

    def flags(mg, ed, td, nd):
        return {"multigraph": mg, "edge_data": ed, ("edge_interval_data" if d.interval else "edge_timestamp_data"): td, "node_data": nd}

    def nb(x):
        return None if x is None else L[x] if isinstance(x, int) else [L[j] for j in x]
    extent = m.extent()
    if kind == "edges":
        u, v = nb(q[1]), nb(q[2])
        if any(not isinstance(x, list) and x is not None and not d.queryable(x) for x in (u, v)):
            return None
        return g.edges(u, v, T(q[3][0]), T(q[3][1]), data=q[5], **d.kw(q[4]))
    if kind == "nodes":
        w = T(q[1][0]), T(q[1][1])
        return list(g.nodes(*w, data=q[3], **d.kw(q[2]))), g.number_of_nodes(*w, **d.kw(q[2])), list(g.nodes()), len(g)
    if kind == "has":
        w = T(q[3][0]), T(q[3][1])
        return (g.has_edge(L[q[1]], L[q[2]], *w, **d.kw(q[4])), g.has_node(L[q[1]], *w, **d.kw(q[4])), g.has_edge(L[q[1]], L[q[2]]),
                L[q[1]] in g, g.has_node(L[q[2]]))
    if kind == "degree":
        n = None if q[1] is None else L[q[1]]
        w = T(q[2][0]), T(q[2][1])
        if n is None and not m.win_nodes(*w, d.inc(q[3])):
            return None
        if n is not None and not d.queryable(n):
            return None
        f = getattr(g, ["degree", "in_degree", "out_degree"][q[5] if d.directed else 0])
        return f(n, *w, delta=bool(q[4] and n is not None), **d.kw(q[3]))
    if kind == "extent":
        if extent is None:
            return None
        if not d.interval:
            return g.interval()
        b, e = T(q[1][0]), T(q[1][1])
        # the lists themselves: they are changed afterwards
        xs = (g.unique_timestamps(), g.unique_begin_timestamps(b, e), g.unique_end_timestamps(b, e),
              g.unique_timestamps(b, e), g.unique_begin_timestamps(), g.unique_end_timestamps())
        return (g.interval(),) + tuple(x if isinstance(x, list) else list(x) for x in xs)
    if kind in ("to_subgraph", "to_networkx_graph"):
        return getattr(g, kind)(T(q[1][0]), T(q[1][1]), **flags(*q[3:7]), **d.kw(q[2]))
    if kind == "to_snapshots":
        if extent is None or extent[0] == extent[1]:
            return None
        return g.to_snapshots(number_of_snapshots=q[1], return_length=q[2], **flags(*q[3:7]))
    if kind == "to_snapshot_graph":
        return g.to_snapshot_graph(**flags(*q[1:5])) if extent else None
    if kind == "round":
        if extent is None:
            return None
        if q[1] and d.interval:
            return dnx.IntervalGraph.from_snapshot_graph(g.to_snapshot_graph()) if not d.directed else None
        G = g.to_networkx_graph(None, None, multigraph=True, edge_data=True,
                                **({"edge_interval_data": True} if d.interval else {"edge_timestamp_data": True}))
        before = canon_graph(G)
        h = d.cls.from_networkx_graph(G)
        same(canon_graph(G), before, "the NetworkX graph given to from_networkx_graph")
        st1 = graph_state(h)
        spoil(G)
        same(graph_state(h), st1, "the converted graph after changing the NetworkX graph it came from")
        return h
    if kind == "save":
        if not len(g):
            return None
        tmp = tempfile.mkdtemp(prefix="dnxpbt")
        try:
            p = os.path.join(tmp, "g.txt")
            g.save_to_txt(p, delimiter=q[1])
            return sorted(open(p).read().split("\n"))
        finally:
            shutil.rmtree(tmp)
    if kind == "motif":
        if d.interval or not d.directed:
            return None
        total, counts, table = dnx.count_temporal_motif(g, ((1, 2), (2, 3)), q[1])
        return total, dict(counts)
    return g.name, str(g), dict(g.graph)


def readonly_check(fam, directed):
    def run(case, obs):
        d = Driver(fam, directed, case, graph_attrs={"name": "orig", "k": 1})
        trained = [not case["trained"]]
        kept = []

        def ask_all():
            ex = d.m.extent()
            if not trained[0] and ex and ex[0] < ex[1]:
                d.g.generate_predictive_model(training_size=3)
                trained[0] = True
                obs.hit("trained")
            before = graph_state(d.g)
            done = 0
            for q, a, was in kept:
                same(given(q, a), was, "the answer to %s after later updates of the graph" % (q,))
                obs.hit("answers kept over updates")
            for q in case["questions"]:
                a = answer(d, q)
                if a is None:
                    continue
                done += 1
                obs.hit(q[0])
                w = "after %s" % (q,)
                same(graph_state(d.g), before, w + ": the graph")
                c = plain(a)
                spoil(a)
                same(graph_state(d.g), before, w + " and changing its result: the graph")
                again = answer(d, q)
                same(plain(again), c, w + " repeated after its first result was changed")
                kept.append((q, again, given(q, again)))
            for q in reversed(case["questions"]):
                answer(d, q)
            same(graph_state(d.g), before, "after all questions: the graph")
            d.check_edges("after all questions: ")
            d.check_nodes("after all questions: ")
            obs.nt(done > 0 and bool(d.m.edges))
            del kept[:-12]
        # also in the middle of the history: later updates find the graph as they would have without the questions
        d.run_asking(case, ask_all)
    return run


# caller's dictionaries and containers -------------------------------------------
@st.composite
def caller_case(draw, fam):
    k = draw(node_count)
    lab = draw(st.sampled_from(sorted(LABELS)))
    node = st.integers(0, k - 1)
    ea = st.sampled_from([{}, {"w": 1}, {"c": "r"}, {"w": 2, "c": ""}])
    return {"labels": LABELS[lab][:k], "time": draw(st.sampled_from([[0, 1], [-4, 1], [0.1, 0.1]])),
            "edges": draw(st.lists(st.tuples(node, node, tick, dur).map(list), min_size=1, max_size=5)),
            "again": draw(st.lists(st.tuples(st.integers(0, 4), ea).map(list), max_size=3)),
            "attrs": draw(ea), "nodes": draw(st.lists(st.tuples(node, ea).map(list), max_size=4)), "common": draw(ea)}


def caller_check(fam, directed):
    def run(case, obs):
        d = Driver(fam, directed, {"labels": case["labels"], "time": case["time"], "ops": []})
        g, m, L = d.g, d.m, d.labels
        given = dict(case["attrs"])
        es = []
        for x in case["edges"]:
            e = d.edge(x[0], x[1], x[2], x[2] + x[3])
            if not m.twin(e) and e not in es and (directed or (e[1], e[0]) + e[2:] not in es):
                es.append(e)
        listed = list(es)
        g.add_edges_from(es, **given)
        for e in es:
            m.add_edge(e, given)
        same(es, listed, "the caller's edge list")
        same(given, case["attrs"], "the caller's attributes after add_edges_from")
        # edges added together must not share their attributes
        for i, a in case["again"]:
            e = es[i % len(es)]
            mine = dict(a)
            g.add_edge(*e, **mine)
            m.add_edge(e, a)
            same(mine, a, "the caller's attributes after add_edge")
        ns = [(L[i], dict(a)) for i, a in case["nodes"]]
        copy_ns = copy.deepcopy(ns)
        common = dict(case["common"])
        g.add_nodes_from(ns, **common)
        for n, a in copy_ns:
            m.add_node(n, common)
            m.add_node(n, a)
        same(ns, copy_ns, "the caller's node list after add_nodes_from")
        same(common, case["common"], "the caller's common attributes")
        d.check_edges()
        d.check_nodes()
        for n, a in copy_ns:
            g.add_node(n, extra=1)
            m.add_node(n, {"extra": 1})
        same(ns, copy_ns, "the caller's node list after later updates")
        for n, a in ns:
            a["late"] = 1
        for k in list(given):
            given[k] = "late"
        common["late"] = 1
        es.clear()
        d.check_edges("after changing the caller's dictionaries: ")
        d.check_nodes("after changing the caller's dictionaries: ")
        obs.nt(bool(case["again"]) or bool(ns))
    return run


@st.composite
def snap_question_case(draw):
    case = draw(snap_selections(collection()))
    case["nbunch"] = draw(st.lists(st.integers(0, len(case["labels"]) - 1), max_size=3))
    return case


def snap_readonly(directed):
    def run(case, obs):
        d = SnapDriver(case, directed)
        S, L = d.S, d.L
        before, ids = snap_state(S), [id(G) for G in S.get()]
        nb = [L[i] for i in case["nbunch"]]

        def asks(kw):
            yield "get", lambda: len(S.get(**kw)), False
            yield "degree", lambda: [dict(x) for x in S.degree(nbunch=nb, **kw)], True
            yield "number_of_nodes", lambda: S.number_of_nodes(**kw), True
            yield "order", lambda: S.order(**kw), True
            yield "size", lambda: S.size(weight="w" if case["time"][0] else None, **kw), True
            yield "has_node", lambda: S.has_node(L[0], **kw), True
            yield "is_directed", lambda: S.is_directed(**kw), True
            yield "to_directed", lambda: S.to_directed(**kw), True
            yield "to_undirected", lambda: S.to_undirected(**kw), True
            yield "subgraph", lambda: [canon_graph(G) for G in S.subgraph(nb, **kw).get()], True
            yield "statistic", lambda: S.compute_network_statistic(nx.density, **kw), True
        for sel in case["selections"]:
            kw = selection(d, sel)
            kept = {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}
            for name, f, destroy in asks(kw):
                a = f()
                w = "%s(%s)" % (name, kw)
                same(snap_state(S), before, "snapshots after " + w)
                c = [plain(x) for x in a] if isinstance(a, list) else a
                if destroy:
                    spoil(a)
                    same(snap_state(S), before, "snapshots after changing the result of " + w)
                b = f()
                same([plain(x) for x in b] if isinstance(b, list) else b, c, w + " repeated")
            same(kw, kept, "the caller's selection")
        S.get().clear()
        same(snap_state(S), before, "snapshots after clearing the list of get()")
        same([id(G) for G in S.get()], ids, "the snapshots as objects")
        if all(a < b for a, b in d.m) and not directed and not any(G.is_multigraph() for G in d.m.values()):
            h = dnx.IntervalGraph.from_snapshot_graph(S)
            same(snap_state(S), before, "snapshots after from_snapshot_graph")
            spoil(h)
            same(snap_state(S), before, "snapshots after changing the graph made from them")
            obs.hit("from_snapshot_graph")
        if all(len(G) and not G.is_multigraph() for G in d.m.values()):
            tmp = tempfile.mkdtemp(prefix="dnxpbt")
            try:
                p = os.path.join(tmp, "s.txt")
                S.save_to_txt(p)
                first = open(p).read()
                S.save_to_txt(p)
                same(open(p).read(), first, "the file saved again")
            finally:
                shutil.rmtree(tmp)
            same(snap_state(S), before, "snapshots after save_to_txt")
            obs.hit("save_to_txt")
        obs.nt(any(G.number_of_edges() for G in d.m.values()))
    return run


register("C23", "Graphs of all four classes built by histories (some trained) asked 1-5 generated questions of every kind (edges, nodes, has, degrees, "
         "extents, subgraphs, snapshots, snapshot graphs, conversions there and back, exports, motif counts); after each the complete observable "
         "state is unchanged, still after the result was changed in every way (structure, attributes, graph attributes, clearing), and the repeated "
         "answer is the same; containers and attribute dictionaries given by the caller are compared and then changed; snapshot graphs likewise; "
         "non-trivial: a question was answered on a graph with edges.",
         [Sub(n, question_case(f), readonly_check(f, dr), 800) for f, dr, n in CLS] +
         [Sub("caller-" + n, caller_case(f), caller_check(f, dr), 400) for f, dr, n in CLS] +
         [Sub("snapshots-" + n, snap_question_case(), snap_readonly(dr), 400) for n, dr in SUBS])

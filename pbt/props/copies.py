"""C26: copies and pickles. C27: graphs side by side."""
import copy
import pickle

import dynetworkx as dnx
import networkx as nx
from hypothesis import strategies as st

from ..core import Sub, register
from ..drive import Driver, check, extent_of, graph_state, same, same_set
from ..gen import few_or_many, history, incl, window_near
from .meta import View, questions
from .nodes import CLS
from .snaps import SUBS, SnapDriver, build, c13_case, canon_graph, selection

COPIES = {"deepcopy": copy.deepcopy, "pickle": lambda g: pickle.loads(pickle.dumps(g)), "pickle 2": lambda g: pickle.loads(pickle.dumps(g, 2)),
          "pickle 0": lambda g: pickle.loads(pickle.dumps(g, 0)), "pickle 1": lambda g: pickle.loads(pickle.dumps(g, 1)),
          "pickle 5": lambda g: pickle.loads(pickle.dumps(g, 5)),
          "in a container": lambda g: copy.deepcopy({"g": [g, g]})["g"][1],
          "twice": lambda g: pickle.loads(pickle.dumps(copy.deepcopy(g)))}
NAMES = ["deepcopy", "deepcopy", "pickle", "pickle 0", "pickle 1", "pickle 2", "pickle 5", "in a container", "twice"]


def everything(d, windows, where):
    """the whole graph and some windows of it against the model"""
    g, m = d.g, d.m
    d.check_edges(where)
    d.check_exact(where)
    d.check_nodes(where)
    same(extent_of(g), m.extent(), where + "interval()")
    if d.interval:
        same(list(g.unique_timestamps()), m.times(), where + "unique_timestamps()")
    for (b, e), i in windows:
        b, e = d.T(b), d.T(e)
        same_set(g.edges(begin=b, end=e, **d.kw(i)), m.window(b, e, d.inc(i)), "%sedges(begin=%r, end=%r, %s)" % (where, b, e, d.kw(i)))
    for n in d.labels[:3]:
        if d.queryable(n):
            same(g.degree(n), m.degree(n), "%sdegree(%r)" % (where, n))


@st.composite
def copy_case(draw, hist, inclusive):
    case = draw(hist)
    n = len(case["ops"])
    case["how"] = draw(st.sampled_from(NAMES))
    case["at"] = draw(st.integers(min(2, n), n))
    case["side"] = draw(st.lists(st.integers(0, 2), min_size=n, max_size=n))
    case["windows"] = draw(st.lists(st.tuples(window_near(case), incl if inclusive else st.none()).map(list), max_size=3))
    case["graph"] = draw(st.sampled_from([{}, {"name": "g"}, {"k": 0, "tags": ["x"]}]))
    case["trained"] = draw(st.integers(0, 5)) == 0
    return case


def copy_check(fam, directed):
    def run(case, obs):
        given = copy.deepcopy(case["graph"])
        a = Driver(fam, directed, case, graph_attrs=given)
        for op in case["ops"][:case["at"]]:
            a.apply(op)
        x = a.m.extent()
        if case["trained"] and x and x[0] < x[1]:
            a.g.generate_predictive_model(training_size=3)
            obs.hit("trained")
        before = graph_state(a.g)
        b = Driver(fam, directed, case)
        b.g, b.m = COPIES[case["how"]](a.g), a.m.copy()
        w = "%s: " % case["how"]
        check(type(b.g) is a.cls and b.g is not a.g, "%sa %s", w, type(b.g).__name__)
        same(graph_state(b.g), before, w + "the copy")
        same(graph_state(a.g), before, w + "the original after copying")
        everything(b, case["windows"], w + "copy: ")
        rest = case["ops"][case["at"]:]
        for i, op in enumerate(rest):
            side = case["side"][i]
            for d, n, other in ((a, 0, b), (b, 1, a)):
                if side in (n, 2):
                    kept = graph_state(other.g)
                    d.apply(op)
                    same(graph_state(other.g), kept, "%sthe other graph after %s on the %s" % (w, op, ["original", "copy"][n]))
        b.g.graph["later"] = 1
        b.g.graph.setdefault("tags", []).append("y")
        same(dict(a.g.graph), case["graph"], w + "graph attributes of the original after changing the copy's")
        everything(a, case["windows"], w + "original after updates: ")
        everything(b, case["windows"], w + "copy after updates: ")
        obs.hit(case["how"])
        if rest:
            obs.hit("updated after copying")
        obs.nt(bool(a.m.edges or b.m.edges) and bool(rest))
    return run


@st.composite
def snap_copy_case(draw):
    case = draw(c13_case())
    case["how"] = draw(st.sampled_from(NAMES))
    case["graph"] = draw(st.booleans())
    return case


def snap_state(S):
    return ([(tuple(k), canon_graph(G)) for k, G in S.snapshots.items()], dict(S.graph), len(S), [canon_graph(G) for G in S.get()])


def snap_apply(S, L, case, op, directed, d):
    what, items, at, sel = op
    if what == "replace":
        k = list(S.snapshots.keys())
        k = k[at % len(k)]
        S.insert(build(items, L, directed), start=k[0], end=k[1])
        return
    kw = selection(d, sel)
    if "sbunch" in kw and any(not -len(S) <= i < len(S) for i in kw["sbunch"]):
        return
    if what == "nodes":
        S.add_nodes_from([(L[i], dict(x or {})) for i, x in items], **kw, **at)
    else:
        S.add_edges_from([(L[u], L[v], dict(x or {})) for u, v, x in items], **kw, **at)


def snap_copy_check(directed):
    def run(case, obs):
        a, twin = SnapDriver(case, directed), SnapDriver(case, directed)
        first = snap_state(a.S)
        c = COPIES[case["how"]](a.S)
        w = "%s: " % case["how"]
        check(type(c) is a.cls, "%sa %s", w, type(c).__name__)
        same(snap_state(c), first, w + "the copy")
        check(not {id(G) for G in c.get()} & {id(G) for G in a.S.get()}, "%sthe copy holds the same graphs", w)
        for op in case["ops"]:
            snap_apply(c, a.L, case, op, directed, a)
            same(snap_state(a.S), first, "%sthe original after %s on the copy" % (w, op))
            snap_apply(twin.S, twin.L, case, op, directed, twin)
            same(snap_state(c), snap_state(twin.S), "%sthe copy after %s" % (w, op))
        for G in c.get():
            G.add_edge("only", "copy")
        c.graph["later"] = 1
        same(snap_state(a.S), first, w + "the original after changing the graphs of the copy")
        obs.hit(case["how"])
        obs.nt(snap_state(twin.S) != first)
    return run


register("C26", "Graphs of all six classes built by histories (some trained) copied by copy.deepcopy, by pickling (several protocols), inside containers and twice; "
         "the copy is compared with the original, then further operations are applied to either or both, and after each the other graph is unchanged; "
         "at the end both are compared in full with their own models; non-trivial: operations followed the copying and there are edges.",
         [Sub(n, copy_case(history(max_ops=9, min_ops=2), f == "P"), copy_check(f, dr), 900) for f, dr, n in CLS] +
         [Sub(n + "-large", copy_case(history(max_ops=5, bulk=120, k=few_or_many), f == "P"), copy_check(f, dr), 100) for f, dr, n in CLS] +
         [Sub("snapshots-" + n, snap_copy_case(), snap_copy_check(dr), 700) for n, dr in SUBS])


# ---------------------------------------------------------------- C27
@st.composite
def side_case(draw, hist, inclusive):
    case = draw(hist)
    n = len(case["ops"])
    case["others"] = draw(st.lists(st.integers(0, 3), min_size=1, max_size=2))
    case["who"] = draw(st.lists(st.integers(0, 5), min_size=n, max_size=n))
    case["late"] = draw(st.integers(0, n))           # the last graph is made only then
    case["windows"] = draw(st.lists(st.tuples(window_near(case), incl if inclusive else st.none()).map(list), max_size=2))
    case["derive"] = draw(st.sampled_from(["none", "networkx", "networkx", "snapshots", "subgraph"]))
    case["derive_at"] = draw(st.integers(0, n))
    return case


def side_check(fam, directed):
    def run(case, obs):
        ds = [Driver(fam, directed, case)]
        for i in case["others"]:
            # mostly another graph of the same class
            f, dr, _ = CLS[i] if i != 3 else (fam, directed, None)
            ds.append(Driver(f, dr, case))
        late = ds.pop()
        shared = {"w": 5, "tags": "s"}
        derived = None
        for i, op in enumerate(case["ops"] + [None]):
            if i == case["late"]:
                f, dr = late.fam, late.directed
                ds.append(Driver(f, dr, case))
                same(len(ds[-1].g), 0, "nodes of a new graph")
                same(list(ds[-1].g.edges()), [], "edges of a new graph")
                same(dict(ds[-1].g.graph), {}, "attributes of a new graph")
                same(extent_of(ds[-1].g), None, "extent of a new graph")
                ds[-1].g.graph["me"] = i
            if i == case["derive_at"] and case["derive"] != "none":
                derived = derive(ds[0], case["derive"])
                if derived is not None:
                    ds.append(derived)
                    obs.hit("derived by " + case["derive"])
            if op is None:
                break
            who = case["who"][i]
            for n, d in enumerate(ds):
                if who >= 4 or n == who % len(ds):
                    d.apply(op)
                    if who >= 4 and op[0] in ("edge", "edges", "node", "nodes"):
                        # the same objects given to every graph
                        ns = [(x, shared) for x in d.labels[:2]]
                        d.g.add_nodes_from(ns)
                        for x, _ in ns:
                            d.m.add_node(x, shared)
            if who >= 4:
                obs.hit("same update on all")
            for n, d in enumerate(ds):
                d.check_index("graph %d after step %d: " % (n, i))
        for n, d in enumerate(ds):
            everything(d, [] if d.fam != fam else case["windows"], "graph %d of %d: " % (n, len(ds)))
        same(shared, {"w": 5, "tags": "s"}, "the attributes given to several graphs")
        obs.nt(sum(1 for d in ds if d.m.edges) >= 2 and any(d.m.edges != ds[0].m.edges for d in ds[1:]))
    return run


def derive(d, how):
    """another graph made from this one, with its own model"""
    g, m = d.g, d.m
    if not m.edges:
        return None
    b = Driver(d.fam, d.directed, {"labels": [], "time": [0, 1]}, T=d.T)
    b.labels = d.labels
    if how == "snapshots":
        if not d.interval or any(e[2] == e[3] for e in m.edges):
            return None
        b.g = d.cls.from_snapshot_graph(g.to_snapshot_graph(edge_data=True))
    elif how == "networkx":
        G = g.to_networkx_graph(None, None, multigraph=True, edge_data=True, node_data=True,
                                **({"edge_interval_data": True} if d.interval else {"edge_timestamp_data": True}))
        b.g = d.cls.from_networkx_graph(G)
    else:
        G = nx.MultiDiGraph() if d.directed else nx.MultiGraph()
        x = m.extent()
        H = g.to_subgraph(x[0], None, multigraph=True, edge_data=True,
                          **({"edge_interval_data": True} if d.interval else {"edge_timestamp_data": True}))
        G.add_edges_from(H.edges(data=True))
        b.g = d.cls.from_networkx_graph(G)
    check(type(b.g) is d.cls, "derived by %s: a %s", how, type(b.g).__name__)
    # its content is what it reports now; from here on it must follow its own history
    for n, a in b.g.nodes(data=True):
        b.m.add_node(n, dict(a))
    for e, a in b.g.edges(data=True):
        b.m.add_edge(e, dict(a))
    return b


@st.composite
def row_case(draw, fam):
    k = draw(st.integers(2, 5))
    case = draw(history(max_ops=6, min_ops=1, k=k, incls=(fam == "P"), time=st.just([0, 1]), labels=["chars", "int0"]))
    case["questions"] = draw(st.lists(questions(k, fam), min_size=2, max_size=6))
    case["shifts"] = draw(st.lists(st.integers(-6, 6), min_size=2, max_size=4))
    case["turns"] = draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=3))
    return case


def row_check(fam, directed):
    """graphs of one shape made one after the other, each dropped before (or kept until) the next"""
    def run(case, obs):
        first = want = None
        kept = []
        qs = [["extent", [None, None], 0], ["snapshots", 2, [False, False, False, False]]] + case["questions"]
        for n, s in enumerate(case["shifts"] + case["shifts"][:2]):
            L = case["labels"]
            turn = case["turns"][n % len(case["turns"])]
            names = L[turn:] + L[:turn]
            d = Driver(fam, directed, case, labels=names, T=lambda k: None if k is None else k + s)
            view = View(d, lambda t: t - s)
            for op in case["ops"]:
                d.apply(op)
            w = "graph %d of a row, shifted by %d: " % (n, s)
            everything(d, [[q, None] for q in ([None, None], [0, None], [None, 3])], w)
            got = [view.ask(q) for q in qs]
            if first is None:
                first, want = s, got
            for q, x, y in zip(qs, got, want):
                same(x, y, "%s%s" % (w, q))
            if n % 3 == 2:
                kept.append(d)
            obs.nt(bool(d.m.edges) and s != first)
            view = d = None
    return run


@st.composite
def snap_side_case(draw):
    case = draw(c13_case())
    case["who"] = draw(st.lists(st.integers(0, 2), min_size=len(case["ops"]), max_size=len(case["ops"])))
    return case


def snap_side_check(directed):
    def run(case, obs):
        a, b = SnapDriver(case, directed), SnapDriver(case, directed)
        new = (dnx.SnapshotDiGraph if directed else dnx.SnapshotGraph)()
        same((len(new), dict(new.graph), list(new.get())), (0, {}, []), "a new snapshot graph beside another")
        for op, who in zip(case["ops"], case["who"]):
            for n, (d, other) in enumerate(((a, b), (b, a))):
                if who in (n, 2):
                    kept = snap_state(other.S)
                    snap_apply(d.S, d.L, case, op, directed, d)
                    same(snap_state(other.S), kept, "the other snapshot graph after %s" % (op,))
        # the part selected from one and inserted in another is the same graph, but the collections are separate
        part = a.S.subgraph(a.L)
        first = snap_state(a.S)
        part.insert(nx.DiGraph() if directed else nx.Graph(), start=-10 ** 9, end=-10 ** 9 + 1)
        same(snap_state(a.S), first, "the snapshot graph after changing a subgraph of it")
        same(len(new), 0, "a new snapshot graph after updates of others")
        obs.nt(any(w == 0 or w == 1 for w in case["who"]) and snap_state(a.S) != snap_state(b.S))
    return run


register("C27", "Two to four graphs built side by side (one made late, one derived from another by conversion, mostly of one class) with the operations of a history "
         "dealt out to one or all of them, sharing the objects given by the caller; every graph is compared in full with its own model, new graphs are empty; "
         "snapshot graphs likewise; and rows of four to six graphs of one history at shifted times and turned names, made one after the other while most of the "
         "earlier ones are gone, which must give corresponding answers; non-trivial: at least two graphs with edges and different contents (snapshots: the "
         "two collections differ).",
         [Sub(n, side_case(history(max_ops=10, min_ops=3), f == "P"), side_check(f, dr), 800) for f, dr, n in CLS] +
         [Sub(n + "-in-a-row", row_case(f), row_check(f, dr), 300) for f, dr, n in CLS] +
         [Sub("snapshots-" + n, snap_side_case(), snap_side_check(dr), 500) for n, dr in SUBS])

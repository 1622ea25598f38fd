"""C12-C14, C17: snapshot graphs."""
import copy
import os
import shutil
import tempfile
from collections import Counter

import dynetworkx as dnx
import networkx as nx
from hypothesis import strategies as st

from ..core import Sub, Violation, register
from ..drive import check, frz, same, short
from ..gen import Fresh, node_count, LABELS, attrs, label, label_names, mktime, times
from ..model import near

KINDS = [nx.Graph, nx.DiGraph, nx.MultiGraph, nx.MultiDiGraph]
SUBS = [("undirected", False), ("directed", True)]


def graph_spec(k, weights=False, max_nodes=3, min_nodes=0, kinds=None):
    node = st.integers(0, k - 1)
    ea = st.sampled_from([{}, {}, {"weight": 2}, {"weight": 0.5}, {"w": 1}, {"weight": -1, "c": "r"}])
    return st.fixed_dictionaries({
        "kind": st.sampled_from(kinds if kinds is not None else [0, 0, 2]),
        "nodes": st.lists(st.tuples(node, attrs).map(list), min_size=min_nodes, max_size=max_nodes),
        "edges": st.lists(st.tuples(node, node, ea).map(list), max_size=5)})


def build(spec, L, directed):
    """the NetworkX graph of a specification (kind 0/2: simple/multi of the wanted direction)"""
    k = spec["kind"]
    G = KINDS[k + 1 if directed and k in (0, 2) else k]()
    for n, a in spec["nodes"]:
        G.add_node(L[n], **a)
    for u, v, a in spec["edges"]:
        G.add_edge(L[u], L[v], **a)
    return G


def canon_graph(G):
    """comparable value of a NetworkX graph"""
    es = Counter()
    for u, v, a in G.edges(data=True):
        p = (u, v) if G.is_directed() else tuple(sorted((u, v), key=lambda x: (str(type(x)), repr(x))))
        es[repr((p, frz(a)))] += 1
    return {"directed": G.is_directed(), "multi": G.is_multigraph(), "graph": dict(G.graph),
            "nodes": {repr(n): frz(a) for n, a in G.nodes(data=True)}, "edges": es}


# intervals ------------------------------------------------------------------
@st.composite
def pieces(draw, instants=True, overlap=False, max_n=6):
    """[[start, end] ticks], distinct; without overlap unless asked"""
    if draw(st.integers(0, 19)) == 7:
        max_n = 40      # now and then many
    cuts = sorted(draw(st.lists(st.integers(-4, 12 if max_n < 20 else 60), min_size=2, max_size=max_n + 1, unique=True)))
    keep = draw(st.lists(st.booleans(), min_size=len(cuts) - 1, max_size=len(cuts) - 1))
    out = [[a, b] for a, b, k in zip(cuts, cuts[1:], keep) if k or len(cuts) == 2]
    if instants:
        out += [[t, t] for t in draw(st.lists(st.one_of(st.sampled_from(cuts), st.integers(-4, 12)), max_size=2, unique=True))]
    if overlap:
        for a, n in draw(st.lists(st.tuples(st.integers(-4, 12), st.integers(1, 9)), max_size=2)):
            if [a, a + n] not in out:
                out.append([a, a + n])
    if not out:
        out = [[cuts[0], cuts[1]]]
    return out


win = st.one_of(st.tuples(st.none(), st.none()), st.tuples(st.integers(-6, 14), st.none()), st.tuples(st.none(), st.integers(-6, 14)),
                st.tuples(st.integers(-6, 14), st.integers(0, 9)).map(lambda x: (x[0], x[0] + x[1])),
                st.tuples(st.integers(-6, 14), st.integers(1, 5)).map(lambda x: (x[0], x[0] + x[1]))).map(list)


@st.composite
def collection(draw, instants=True, overlap=False, kinds=None, weights=False):
    k = draw(node_count)
    lab = draw(label_names)
    iv = draw(pieces(instants, overlap))
    iv = draw(st.permutations(iv))
    gs = draw(st.lists(graph_spec(k, kinds=kinds), min_size=len(iv), max_size=len(iv)))
    how = draw(st.lists(st.integers(0, 3), min_size=len(iv), max_size=len(iv)))
    return {"labels": LABELS[lab][:k], "time": draw(times), "snapshots": [[list(i), g, h] for i, g, h in zip(iv, gs, how)]}


def chosen(key, start, end):
    a, b = key
    return (end is None or a < end) and (start is None or b > start or a == start)


class SnapDriver:
    def __init__(self, case, directed, convert=False):
        self.directed = directed
        self.L = Fresh(label(x) for x in case["labels"])
        self.T = case["time"] if convert else mktime(case["time"])
        self.cls = dnx.SnapshotDiGraph if directed else dnx.SnapshotGraph
        self.S = self.cls(name="s", k=1)
        self.m = {}                 # (start, end) -> graph
        for (a, b), spec, how in case["snapshots"]:
            self.put(self.T(a), self.T(b), spec, how)

    def put(self, a, b, spec, how):
        G = build(spec, self.L, self.directed)
        S = self.S
        plain = spec["kind"] == 0 and not spec["nodes"]
        multi = self.directed and spec["kind"] == 2 and not spec["nodes"]
        if how == 1 and (plain or multi):
            eb = [(self.L[u], self.L[v], dict(at)) if at else (self.L[u], self.L[v]) for u, v, at in spec["edges"]]
            kw = {"multi": True} if multi else {}
            S.add_snapshot(eb, start=a, end=b, **kw) if a != b else S.add_snapshot(eb, time=a, **kw)
            G = S.snapshots[(a, b)]
            same(canon_graph(G), canon_graph(build(spec, self.L, self.directed)), "snapshot added from edges")
        elif how in (1, 2):
            S.add_snapshot(graph=G, start=a, end=b) if a != b else S.add_snapshot(graph=G, time=a)
        elif how == 3 and a == b:
            S.insert(G, time=a)
        else:
            S.insert(G, start=a, end=b)
        self.m[(a, b)] = G

    def keys(self):
        return sorted(self.m)

    def chosen(self, sel):
        keys = self.keys()
        if "sbunch" in sel:
            return [keys[i] for i in sel["sbunch"]]
        return [k for k in keys if chosen(k, sel.get("start"), sel.get("end"))]


@st.composite
def with_selections(draw, coll):
    case = draw(coll)
    n = len({tuple(s[0]) for s in case["snapshots"]})
    sb = st.lists(st.integers(-n, n - 1), max_size=4).map(lambda x: {"sbunch": x})
    ws = win.map(lambda w: {"win": w})
    ev = sorted({t for s in case["snapshots"] for t in s[0]})
    wev = st.tuples(st.sampled_from(ev), st.sampled_from(ev)).map(lambda x: {"win": sorted(x)})
    case["selections"] = draw(st.lists(st.one_of(sb, ws, ws, wev), min_size=1, max_size=6))
    case["form"] = draw(st.sampled_from(["list", "list", "tuple", "range"]))
    return case


def selection(d, sel):
    """keyword arguments of one generated selection"""
    if "sbunch" in sel:
        return {"sbunch": list(sel["sbunch"])}
    a, b = sel["win"]
    out = {}
    if a is not None:
        out["start"] = d.T(a)
    if b is not None:
        out["end"] = d.T(b)
    return out


def ident(xs):
    return [id(x) for x in xs]


# ---------------------------------------------------------------- C12
@st.composite
def c12_case(draw):
    case = draw(with_selections(collection(overlap=True)))
    n = len(case["snapshots"])
    k = len(case["labels"])
    # some intervals are inserted again with another graph
    again = draw(st.lists(st.tuples(st.integers(0, n - 1), graph_spec(k)), max_size=2))
    case["snapshots"] = case["snapshots"] + [[case["snapshots"][i][0], g, 2] for i, g in again]
    # and some are inserted, or inserted again, after questions have been asked
    new = st.tuples(st.integers(-4, 12), st.integers(0, 6)).map(lambda x: [x[0], x[0] + x[1]])
    old = st.integers(0, n - 1).map(lambda i: case["snapshots"][i][0])
    case["later"] = draw(st.lists(st.tuples(st.one_of(new, old), graph_spec(k), st.integers(0, 3)).map(list), max_size=3))
    case["nbunch"] = draw(st.lists(st.integers(0, k - 1), max_size=4))
    return case


def select_check(directed):
    def run(case, obs):
        d = SnapDriver(case, directed)
        ask_selections(d, case, obs)
        for (a, b), spec, how in case.get("later", ()):
            d.put(d.T(a), d.T(b), spec, how)
            ask_selections(d, case, obs)
            obs.hit("inserted after questions")
        d.S.name = "renamed"
        same((d.S.name, str(d.S), dict(d.S.graph)), ("renamed", "renamed", {"name": "renamed", "k": 1}), "name after assignment")
        if len(d.m) < len(case["snapshots"]):
            obs.hit("replaced snapshot")
        if any(not len(G) for G in d.m.values()):
            obs.hit("empty snapshot")
        if any(a == b for a, b in d.m):
            obs.hit("instantaneous")
        keys = d.keys()
        if any(x[1] > y[0] for x, y in zip(keys, keys[1:])):
            obs.hit("overlapping")
    return run


def ask_selections(d, case, obs):
    S, m = d.S, d.m
    keys = d.keys()
    same([tuple(k) for k in S.snapshots.keys()], keys, "intervals in order")
    same(len(S), len(keys), "len")
    same(ident(S), ident(m[k] for k in keys), "iteration")
    for k in keys:
        check(m[k] in S, "snapshot at %r is not in the snapshot graph", k)
    check(nx.Graph() not in S, "a graph never added is in the snapshot graph")
    for k in keys[:2]:
        for x in (k, k[0], m[k].copy(), [m[k]], None):
            check(x not in S, "%r is in the snapshot graph", x)
    same(ident(S.get()), ident(m[k] for k in keys), "get()")
    same((S.name, str(S), S.graph["name"]), ("s", "s", "s"), "name")
    nb = [d.L[i] for i in case["nbunch"]]
    for sel in case["selections"]:
        kw = selection(d, sel)
        want = d.chosen(kw)
        w = "get(%s) over %s" % (kw, keys)
        got = S.get(**kw)
        check(isinstance(got, list), "%s: expected a list", w)
        pos = {id(m[k]): k for k in keys}
        same([pos.get(id(x), "?") for x in got], want, w)
        if "sbunch" in kw:
            same(ident(S.get(kw["sbunch"])), ident(m[k] for k in want), w + " positional")
            same(ident(S.get(tuple(kw["sbunch"]))), ident(m[k] for k in want), w + " tuple")
            obs.hit("positions")
            if not kw["sbunch"]:
                obs.hit("no positions")
        else:
            same(ident(S.get(None, kw.get("start"), kw.get("end"))), ident(m[k] for k in want), w + " positional")
            if any(k[0] < x < k[1] for x in kw.values() for k in keys):
                obs.hit("bound inside a snapshot")
            if 0 in kw.values():
                obs.hit("bound 0")
            if kw and not want:
                obs.hit("selects nothing")
        same(S.number_of_nodes(**kw), [m[k].number_of_nodes() for k in want], "number_of_nodes: " + w)
        sub = S.subgraph(nb, **kw)
        w = "subgraph(%r, %s) over %s" % (nb, kw, keys)
        check(type(sub) is d.cls, "%s: got a %s", w, type(sub).__name__)
        same(dict(sub.graph), {"name": "s", "k": 1}, w + ": graph attributes")
        if len(set(want)) == len(want):
            same([tuple(k) for k in sub.snapshots.keys()], sorted(want), w + ": intervals")
            for k in want:
                H = nx.Graph.subgraph(m[k], nb).copy()
                same(canon_graph(sub.snapshots[k]), canon_graph(H), w + ": snapshot %r" % (k,))
        if 0 < len(set(want)) < len(keys):
            obs.nt()


register("C12", "Collections of 1-9 snapshots (adjacent, gaps, instantaneous, empty, sometimes overlapping, simple and multigraphs) "
         "inserted in any order and in all ways, replacements, then get / number_of_nodes / subgraph by position lists (negative, "
         "repeated, empty) and windows (open, inside snapshots, in gaps, at 0), compared by identity with a list of intervals; "
         "non-trivial: a selection of a proper non-empty subset.",
         [Sub(n, c12_case(), select_check(dr), 3600) for n, dr in SUBS])


# ---------------------------------------------------------------- C13
@st.composite
def c13_case(draw):
    case = draw(collection(overlap=False))
    # instants strictly inside another snapshot would overlap it
    iv = [s[0] for s in case["snapshots"]]
    case["snapshots"] = [s for s in case["snapshots"] if not (s[0][0] == s[0][1] and any(a < s[0][0] < b for a, b in iv))]
    n = len(case["snapshots"])
    k = len(case["labels"])
    node = st.integers(0, k - 1)
    wnd = win.filter(lambda w: w[0] is None or w[1] is None or w[0] < w[1]).map(lambda w: {"win": w})
    ev = sorted({t for s in case["snapshots"] for t in s[0]})
    at = st.tuples(st.sampled_from(ev), st.sampled_from([0, 0, 0, 1, -1])).map(sum)
    wev = st.tuples(at, at).filter(lambda w: w[0] != w[1]).map(sorted)
    wev = st.one_of(wev, wev, wev, st.tuples(at, st.none()).map(list), st.tuples(st.none(), at).map(list)).map(lambda w: {"win": w})
    sel = st.one_of(wnd, wev, wev, wev, st.lists(st.integers(-n, n - 1), max_size=3).map(lambda x: {"sbunch": x}))
    few = draw(st.sampled_from([0, 1, 1, 1]))
    op = st.one_of(
        st.tuples(st.just("nodes"), st.lists(st.tuples(node, st.one_of(st.none(), attrs)).map(list), min_size=few, max_size=3), attrs, sel),
        st.tuples(st.just("edges"), st.lists(st.tuples(node, node, st.one_of(st.none(), attrs)).map(list), min_size=few, max_size=3), attrs, sel),
        st.tuples(st.just("replace"), graph_spec(k), st.integers(0, 20), sel))
    case["ops"] = draw(st.lists(op.map(list), min_size=draw(st.sampled_from([1, 2, 3])), max_size=6))
    case["tags"] = draw(st.integers(0, 3)) == 0
    return case


def update_check(directed):
    def run(case, obs):
        d = SnapDriver(case, directed)
        S, T, L = d.S, d.T, d.L
        if case.get("tags"):
            # attribute values which can themselves be changed
            for G in d.m.values():
                G.graph["tags"] = []
                for _, a in G.nodes(data=True):
                    a["tags"] = []
                for _, _, a in G.edges(data=True):
                    a["tags"] = []
        model = {k: G.copy() for k, G in d.m.items()}
        splits = 0
        for step, (what, items, at, sel) in enumerate(case["ops"]):
            kw = selection(d, sel)
            if what == "replace":
                # another graph takes the place of a snapshot
                k = sorted(model)[at % len(model)]
                S.insert(build(items, L, directed), start=k[0], end=k[1])
                model[k] = build(items, L, directed)
                obs.hit("replaced")
            elif what == "nodes":
                bunch = [L[i] if a is None else (L[i], dict(a)) for i, a in items]
                # a tuple label followed by nothing is ambiguous for NetworkX: give it attributes
                bunch = [(x, {}) if isinstance(x, tuple) and not (len(x) == 2 and isinstance(x[1], dict)) else x for x in bunch]
            else:
                bunch = [(L[u], L[v]) if a is None else (L[u], L[v], dict(a)) for u, v, a in items]
            if what == "replace":
                touched = []
            elif "sbunch" in kw:
                try:
                    keys = sorted(model)
                    touched = [keys[i] for i in kw["sbunch"]]
                except IndexError:
                    continue
            else:
                s, e = kw.get("start"), kw.get("end")
                for x in (s, e):
                    for k in list(model):
                        if x is not None and k[0] < x < k[1]:
                            G = model.pop(k)
                            model[(k[0], x)], model[(x, k[1])] = G, G.copy()
                            splits += 1
                touched = [k for k in model if chosen(k, s, e)]
                if not touched:
                    obs.hit("window without snapshots")
            for k in touched:
                G = model[k]
                (G.add_nodes_from if what == "nodes" else G.add_edges_from)(copy.deepcopy(bunch), **at)
            if what == "replace":
                w = "after step %d (insert of %s at %s): " % (step, items, k)
            else:
                w = "after step %d (add_%s_from(%r, %s, %s)): " % (step, what, bunch, kw, at)
                (S.add_nodes_from if what == "nodes" else S.add_edges_from)(bunch, **kw, **at)
            # the network at every instant: between the boundaries, and the instantaneous snapshots
            real = {tuple(k): G for k, G in S.snapshots.items()}
            same(list(real), sorted(model), w + "intervals")
            for k in sorted(model):
                same(canon_graph(real[k]), canon_graph(model[k]), w + "snapshot %r" % (k,))
            if len({id(G) for G in real.values()}) < len(real):
                raise Violation(w + "two intervals share one graph")
            if case.get("tags"):
                values = [id(a["tags"]) for G in real.values() for a in
                          [G.graph] + [a for _, a in G.nodes(data=True)] + [a for _, _, a in G.edges(data=True)] if "tags" in a]
                if len(set(values)) < len(values):
                    raise Violation(w + "two snapshots share an attribute value that can be changed")
            if "sbunch" not in kw:
                same(ident(S.get(**kw)), [id(real[k]) for k in sorted(model) if chosen(k, kw.get("start"), kw.get("end"))], w + "get(%s)" % kw)
            if len(touched) < len(model) and touched and items:
                obs.nt()
        if splits:
            obs.hit("split")
        if splits > 1:
            obs.hit(">=2 splits")
        if any(set(selection(d, o[3])) == {"start", "end"} and any(
                k[0] <= selection(d, o[3])["start"] and selection(d, o[3])["end"] <= k[1] for k in d.m) for o in case["ops"]):
            obs.hit("window within one snapshot")
    return run


register("C13", "Collections of non-overlapping snapshots and 1-5 updates (nodes or edges with attributes, by window or position); after "
         "every update the intervals and the content of every snapshot are compared with a model that splits at the window's "
         "bounds; non-trivial: an update changed some snapshots and left others.",
         [Sub(n, c13_case(), update_check(dr), 3600) for n, dr in SUBS])


# ---------------------------------------------------------------- C14
@st.composite
def c14_case(draw, directed):
    case = draw(with_selections(collection(kinds=[0, 2] if directed else [0, 0, 2, 1, 3])))
    k = len(case["labels"])
    case["nbunch"] = draw(st.one_of(st.none(), st.integers(0, k - 1), st.lists(st.integers(0, k - 1), max_size=3)))
    case["weight"] = draw(st.sampled_from([None, "weight", "w"]))
    case["n"] = draw(st.integers(0, k - 1))
    case["stat"] = draw(st.integers(0, 4))
    # updates after which all is asked again
    node = st.integers(0, k - 1)
    spec = graph_spec(k, kinds=[0, 2] if directed else [0, 0, 2, 1, 3])
    case["later"] = draw(st.lists(st.one_of(
        st.tuples(st.just("put"), st.integers(-4, 12), st.integers(0, 6), spec),
        st.tuples(st.just("replace"), st.integers(0, 20), spec),
        st.tuples(st.just("direct"), st.integers(0, 20), node, node),
        st.tuples(st.just("drop"), st.integers(0, 20), st.integers(0, 20)),
        st.tuples(st.just("nodes"), st.lists(node, min_size=1, max_size=3), win),
        st.tuples(st.just("edges"), st.lists(st.tuples(node, node).map(list), min_size=1, max_size=3), win)).map(list), max_size=3))
    return case


def change(d, op):
    """one update of a snapshot graph between questions"""
    S, L, T = d.S, d.L, d.T
    if op[0] == "put":
        d.put(T(op[1]), T(op[1] + op[2]), op[3], 2)
        return
    keys = d.keys()
    if op[0] == "replace":
        k = keys[op[1] % len(keys)]
        d.put(k[0], k[1], op[2], 3)
    elif op[0] == "direct":
        # a stored graph is changed by its owner
        d.m[keys[op[1] % len(keys)]].add_edge(L[op[2]], L[op[3]])
    elif op[0] == "drop":
        G = d.m[keys[op[1] % len(keys)]]
        if len(G):
            G.remove_node(sorted(G, key=repr)[op[2] % len(G)])
    else:
        kw = selection(d, {"win": op[2]})
        if set(kw) == {"start", "end"} and not kw["start"] < kw["end"]:
            return
        if op[0] == "nodes":
            S.add_nodes_from([(L[i], {"late": 1}) for i in op[1]], **kw)
        else:
            S.add_edges_from([(L[u], L[v]) for u, v in op[1]], weight=3, **kw)
        d.m = {tuple(k): G for k, G in S.snapshots.items()}


def as_degrees(x):
    return x if isinstance(x, (int, float)) else sorted(((repr(n), v) for n, v in x))


def density_of(G, scale=1, shift=0):
    return nx.density(G) * scale + shift


def nodes_with(G, nodes):
    return sorted(map(repr, (n for n in G if n in nodes)))


def stats_check(directed):
    def run(case, obs):
        d = SnapDriver(case, directed)
        ask_statistics(d, case, obs)
        for op in case.get("later", ()):
            change(d, op)
            ask_statistics(d, case, obs)
            obs.hit("updated after questions")
        if any(G.is_multigraph() for G in d.m.values()):
            obs.hit("multigraph")
        if any(G.is_directed() for G in d.m.values()):
            obs.hit("directed")
    return run


def ask_statistics(d, case, obs):
    S, m, L = d.S, d.m, d.L
    nb = case["nbunch"]
    nb = None if nb is None else L[nb] if isinstance(nb, int) else [L[i] for i in nb]
    before = {k: canon_graph(G) for k, G in m.items()}
    for sel in case["selections"]:
        kw = selection(d, sel)
        gs = [m[k] for k in d.chosen(kw)]
        w = "(%s) over %s" % (kw, d.keys())
        wt = case["weight"]
        nbk = nb
        single = nb is not None and not isinstance(nb, list)
        if not single or all(nb in G for G in gs):
            dkw = {} if nb is None else {"nbunch": nbk}
            if wt is not None:
                dkw["weight"] = wt
            got = S.degree(**kw, **dkw)
            same([as_degrees(x) for x in got], [as_degrees(G.degree(**dkw) if nb is not None else G.degree(weight=wt)) for G in gs],
                 "degree%s %s" % (w, dkw))
            obs.hit("degree of one node" if single else "degree")
        same(S.number_of_nodes(**kw), [G.number_of_nodes() for G in gs], "number_of_nodes" + w)
        same(S.order(**kw), [G.order() for G in gs], "order" + w)
        same(S.size(**kw), [G.size() for G in gs], "size" + w)
        if wt is not None:
            got, want = S.size(weight=wt, **kw), [G.size(weight=wt) for G in gs]
            check(len(got) == len(want) and all(near(x, y) for x, y in zip(got, want)), "size%s weight=%r: got %r, expected %r", w, wt, got, want)
        n = L[case["n"]]
        same(S.has_node(n, **kw), [G.has_node(n) for G in gs], "has_node%s %r" % (w, n))
        same(S.is_multigraph(**kw), [G.is_multigraph() for G in gs], "is_multigraph" + w)
        same(S.is_directed(**kw), [G.is_directed() for G in gs], "is_directed" + w)
        for name in ("to_directed", "to_undirected"):
            got = getattr(S, name)(**kw)
            same([canon_graph(G) for G in got], [canon_graph(getattr(G, name)()) for G in gs], name + w)
            if any(a is b for a in got for b in m.values()):
                raise Violation("%s%s returned a stored snapshot itself" % (name, w))
        fn, args = [(nx.density, {}), (density_of, {"scale": 3, "shift": -1}), (nx.number_of_selfloops, {}),
                    (nodes_with, {"nodes": L[:2]}), (lambda G: canon_graph(G), {})][case["stat"]]
        same(S.compute_network_statistic(fn, **kw, **args), [fn(G, **args) for G in gs], "compute_network_statistic%s" % w)
        if len(gs) >= 2:
            obs.nt()
        if "sbunch" in kw and len(gs) < len(m):
            obs.hit("by position")
        elif len(gs) < len(m):
            obs.hit("by window")
    same({k: canon_graph(G) for k, G in m.items()}, before, "snapshots after the statistics")


register("C14", "Collections of simple and multi, directed and undirected snapshots; every per-snapshot method over selections by position and "
         "window, with nbunch (absent, one node, lists, empty), weight and extra arguments, compared with NetworkX applied to each selected graph; "
         "non-trivial: at least two snapshots selected.",
         [Sub(n, c14_case(dr), stats_check(dr), 2400) for n, dr in SUBS])


# ---------------------------------------------------------------- C17
DELIMS = [";", ";", ",", "|", "||", "::", "\t", "/", " ; ", "+", ".*", "&"]


@st.composite
def c17_case(draw):
    k = draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4), st.sampled_from([7, 12, 40])))
    iv = draw(st.permutations(draw(pieces())))
    node = st.integers(0, k - 1)
    w = st.sampled_from([None, None, 1, 2, -1, 0.5, 2.25, -3.75, 10, 1e-3, 12345.5, 0.1, 1234567.890625, 1 / 3, -1e-9, 98765432109.5, 1e-05 / 7, -1.2345678901234e-300, 2e22 / 3, 1e300])
    g = st.tuples(st.lists(node, min_size=1, max_size=3 if k < 5 else k, unique=k > 4), st.lists(st.tuples(node, node, w).map(list), max_size=6)).map(list)
    gs = draw(st.lists(g, min_size=len(iv), max_size=len(iv)))
    labels = LABELS[draw(label_names)][:k] if k < 5 else ["n%d" % i for i in range(k)]
    return {"labels": labels, "time": draw(times), "snapshots": [[list(i), x] for i, x in zip(iv, gs)],
            "delimiter": draw(st.sampled_from(DELIMS)), "keys": draw(st.sampled_from([None, None, ["start", "end"], ["begin", "finish"], ["S", "T"], ["from", "to"], ["t", "tt"], ["end", "start"], ["ab", "a"]])),
            "noise": draw(st.lists(st.tuples(st.integers(0, 6), st.integers(0, 5)).map(list), max_size=4)),
            "comments": draw(st.sampled_from(["#", "#", "@", "%%"])),
            "layout": draw(st.sampled_from([0, 0, 1, 2, 3])),
            "bad": draw(st.sampled_from([None, None, None, "nostart", "noend", "text", "none"]))}


NOISE = ["\n", "   \n", "%s comment\n", "  %s comment 1 2 start=4\n", "\t\n", "%s\n"]


def text_check(directed):
    def run(case, obs):
        L, T = Fresh(label(x) for x in case["labels"]), mktime(case["time"])
        cls = dnx.SnapshotDiGraph if directed else dnx.SnapshotGraph
        S = cls()
        want = {}
        dl = case["delimiter"]
        for (a, b), (nodes, edges) in case["snapshots"]:
            # a delimiter which occurs in the text of a weight is not one
            edges = [e for e in edges if e[2] is None or dl not in repr(float(e[2]))]
            G = nx.DiGraph() if directed else nx.Graph()
            G.add_nodes_from((L[n], {}) for n in nodes)
            for u, v, w in edges:
                G.add_edge(L[u], L[v], **({} if w is None else {"weight": w}))
            S.insert(G, start=T(a), end=T(b))
            order = {n: i for i, n in enumerate(G.nodes())}
            adj = {}
            for u, v, x in G.edges(data=True):
                i, j = order[u], order[v]
                adj[(i, j) if directed else tuple(sorted((i, j)))] = float(x.get("weight", 1))
            want[(T(a), T(b))] = (len(order), adj)
        kw = {} if dl == ";" and len(want) % 2 else {"delimiter": dl}
        if case["keys"]:
            kw["start"], kw["end"] = case["keys"]
        tmp = tempfile.mkdtemp(prefix="dnxpbt")
        try:
            path = os.path.join(tmp, "g.txt")
            for bad in (" ", "\n"):
                for f in (lambda: S.save_to_txt(path, delimiter=bad), lambda: cls.load_from_txt(path, delimiter=bad)):
                    try:
                        f()
                    except ValueError:
                        continue
                    raise Violation("delimiter %r accepted" % bad)
            check(not os.path.exists(path), "a refused save wrote the file")
            try:
                cls().save_to_txt(path)
            except ValueError:
                pass
            else:
                raise Violation("an empty snapshot graph was saved")
            S.save_to_txt(path, **kw)
            lines = open(path).read().splitlines(True)
            cm = case["comments"]
            if case.get("layout"):
                # the same file, written by someone else: end before start, whole numbers without a fraction, other line ends
                for i, line in enumerate(lines):
                    rows, first, second = line.rstrip("\n").rsplit(" ", 2)
                    if case["layout"] & 1:
                        first, second = second, first
                    if case["layout"] & 2:
                        rows = dl.join(" ".join(x[:-2] if x.endswith(".0") else x for x in r.split(" ")) for r in rows.split(dl))
                        second += " "
                    lines[i] = rows + " " + first + "  "[:case["layout"]] + second + "\n"
                obs.hit("other layout")
            lkw = dict(kw) if cm == "#" else dict(kw, comments=cm)
            for pos, kind in case["noise"]:
                t = NOISE[kind]
                lines.insert(min(pos, len(lines)), t % cm if "%s" in t else t)
            if case["noise"] and case["noise"][0][0] % 2:
                i = next(i for i, l in enumerate(lines) if "=" in l and cm not in l)
                lines[i] = lines[i].rstrip("\n") + " " + cm + " trailing start=9\n"
                obs.hit("trailing comment")
            with open(path, "w") as f:
                f.write("".join(lines))
            got = cls.load_from_txt(path, **lkw)
            what = "round trip with %s" % lkw
            check(type(got) is cls, "%s: got a %s", what, type(got).__name__)
            same([tuple(k) for k in got.snapshots.keys()], sorted(want), what + ": intervals")
            for k, G in got.snapshots.items():
                n, adj = want[tuple(k)]
                same(G.is_directed(), directed, what + ": directed")
                check(not G.is_multigraph(), "%s: multigraph", what)
                same(sorted(G.nodes()), list(range(n)), what + ": nodes of %r" % (k,))
                r = {}
                for u, v, x in G.edges(data=True):
                    r[(u, v) if directed else tuple(sorted((u, v)))] = x.get("weight")
                same(set(r), set(adj), what + ": edges of %r" % (k,))
                for e in r:
                    check(isinstance(r[e], (int, float)) and r[e] == adj[e], "%s: weight of %r in %r: got %r, expected %r", what, e, k, r[e], adj[e])
            if case["bad"]:
                sk, ek = case["keys"] or ("start", "end")
                line = {"nostart": "0 1;1 0 %s=3" % ek, "noend": "0 1;1 0 %s=3" % sk, "text": "0 1;1 0 %s=x %s=4" % (sk, ek),
                        "none": "0 1;1 0"}[case["bad"]].replace(";", dl)
                with open(path, "w") as f:
                    f.write("".join(lines) + line + "\n")
                try:
                    cls.load_from_txt(path, **lkw)
                except ValueError:
                    obs.hit("malformed interval refused")
                else:
                    raise Violation("%s: line %r accepted" % (what, line))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if case["noise"]:
            obs.hit("comments and blank lines")
        if dl != ";":
            obs.hit("delimiter " + repr(dl))
        obs.nt(any(adj for _, adj in want.values()) and len(want) >= 2)
    return run


register("C17", "Collections of non-empty simple snapshots with numeric weights, any labels, saved and loaded with generated delimiters, key names, "
         "comment markers and inserted blank / comment lines; intervals, adjacency, weights, direction and class compared; malformed "
         "intervals and delimiters must be refused; non-trivial: at least two snapshots, one with an edge.",
         [Sub(n, c17_case(), text_check(dr), 1600) for n, dr in SUBS])

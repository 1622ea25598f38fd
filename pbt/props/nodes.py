"""C05: node lifecycle. C07: degrees."""
from hypothesis import strategies as st

from ..core import Sub, register
from ..drive import Driver, check, same, same_set
from ..gen import ends, few_or_many, history, incl, window_near, wide
from ..model import near

CLS = [("I", False, "interval-undirected"), ("I", True, "interval-directed"),
       ("P", False, "impulse-undirected"), ("P", True, "impulse-directed")]


# ---------------------------------------------------------------- C05
GRAPH_ATTRS = [{}, {"name": "g"}, {"day": "fri"}, {"name": "", "k": 0}, {"name": 7}]


@st.composite
def node_history(draw, hist=None, **kw):
    case = draw(history(**kw) if hist is None else hist)
    case["graph"] = draw(st.sampled_from(GRAPH_ATTRS))
    case["rename"] = draw(st.sampled_from([None, None, "new", ""]))
    return case


def node_check(fam, directed):
    def run(case, obs):
        d = Driver(fam, directed, case, graph_attrs=case["graph"])
        g, m = d.g, d.m
        same(dict(g.graph), case["graph"], "graph attributes of a new graph")
        want_graph = dict(case["graph"])

        def each(i):
            op = case["ops"][i]
            w = "after step %d (%s): " % (i, op[0])
            d.check_nodes(w)
            d.check_index(w)
            if op[0] == "rmn":
                # the removal took the edges from both views
                same_set(g.edges(), m.edges, w + "edges()")
                for n in d.labels:
                    if d.queryable(n):
                        same_set(g.edges(u=n), m.select([n]), w + "edges(u=%r)" % (n,))
                        if directed:
                            same_set(g.edges(v=n), m.select(None, [n]), w + "edges(v=%r)" % (n,))
            same(dict(g.graph), want_graph, w + "graph attributes")
            same(g.name, want_graph.get("name", ""), w + "name")
        d.run_comparing(case, each)
        if case["rename"] is not None:
            g.name = case["rename"]
            want_graph["name"] = case["rename"]
            same(g.name, case["rename"], "name after assignment")
            same(str(g), case["rename"], "str after naming")
            same(dict(g.graph), want_graph, "graph attributes after naming")
        for key in ("w", "c", "missing"):
            for default in (None, 0, "dflt"):
                same(dict(g.nodes(data=key, default=default)), {n: a.get(key, default) for n, a in m.nodes.items()},
                     "nodes(data=%r, default=%r)" % (key, default))
        s = d.stats
        linked = {n for e in m.edges for n in e[:2]}
        if s["rmn"]:
            obs.hit("node removed")
        if set(m.nodes) - linked:
            obs.hit("isolated nodes")
        if any(a for a in m.nodes.values()):
            obs.hit("node attributes")
        if any(e[0] == e[1] for e in m.edges):
            obs.hit("self-loop")
        if s["rmn"] and s["removed"]:
            obs.hit("removed node had edges")
        obs.nt(s["removed"] > 0 or bool(s["rmn"] and m.nodes))
    return run


register("C05", "Histories of 3-14 node and edge operations (add_node(s), attributes, edge additions, removals by pair and of nodes "
         "with and without windows) on all four classes; node set, node attributes, len/in/has_node/number_of_nodes, graph "
         "attributes and (after node removals) all edge views compared with the model after every step; non-trivial: an edge or node was removed.",
         [Sub(n, node_history(max_ops=14, min_ops=3), node_check(f, dr), 1500) for f, dr, n in CLS] +
         [Sub(n + "-large", node_history(max_ops=7, bulk=60, k=few_or_many), node_check(f, dr), 250) for f, dr, n in CLS] +
         [Sub(n + "-wide", node_history(wide()), node_check(f, dr), 6) for f, dr, n in CLS])


# ---------------------------------------------------------------- C07
@st.composite
def with_degrees(draw, hist, inclusive):
    case = draw(hist)
    k = len(case["labels"])
    linked = [n for p in ends(case) for n in p] or [0]
    node = st.one_of(st.integers(0, k - 1), st.sampled_from(linked), st.sampled_from(linked))
    w = window_near(case)
    case["queries"] = draw(st.lists(st.tuples(node, st.one_of(st.just([None, None]), w, w),
                                              incl if inclusive else st.none()).map(list), min_size=1, max_size=5))
    return case


def delta_events(m, node, begin, end, kinds):
    """interval graphs: [(time, degree)] as documented; kinds: edge ends of the node that count"""
    ex = m.extent()
    if ex is None:
        return []
    begin = ex[0] if begin is None else begin
    end = ex[1] if end is None else end
    if begin > end:
        return []
    inc = []
    for e in m.edges:
        if not m.directed:
            inc += [e] if node in e[:2] else []
        else:
            inc += [e] if "out" in kinds and e[0] == node else []
            inc += [e] if "in" in kinds and e[1] == node else []
    inc = [e for e in inc if m.inside(e, begin, end)]
    cur = sum(1 for e in inc if m.inside(e, begin, begin))
    ev = []
    for e in inc:
        if e[2] >= begin:
            ev.append((e[2], 1))
        if e[3] < end:
            ev.append((e[3], -1))
    out = []
    for t, s in sorted(ev):
        if t != begin or s == -1:
            cur += s
        out.append((t, cur))
    return out


def degree_queries(d, queries, obs):
    """degree, in_degree, out_degree of nodes and graphs, plain and delta, against the model"""
    g, m, T, L, fam, directed = d.g, d.m, d.T, d.labels, d.fam, d.directed
    methods = [("degree", "all", ("in", "out"))]
    if directed:
        methods += [("in_degree", "in", ("in",)), ("out_degree", "out", ("out",))]
    for q, (b, e), i in queries:
        b, e = T(b), T(e)
        kw, inc = d.kw(i), d.inc(i)
        nodes = m.win_nodes(b, e, inc)
        for name, kind, ends in methods:
            f = getattr(g, name)
            for n in [L[q]] + L[:2]:
                if not d.queryable(n):
                    continue
                w = "%s(%r, %r, %r%s" % (name, n, b, e, kw or "")
                want = m.degree(n, b, e, inc, kind)
                same(f(n, b, e, **kw), want, w + ")")
                if b is None and e is None:
                    same(f(n), m.degree(n, kind=kind), "%s(%r)" % (name, n))
                got = f(n, begin=b, end=e, delta=True, **kw)
                w += ", delta=True)"
                check(isinstance(got, list), "%s: expected a list, got %r", w, got)
                if fam == "I":
                    exp = delta_events(m, n, b, e, ends)
                    same([tuple(x) for x in got], exp, w)
                    if len({t for t, _ in exp}) < len(exp):
                        obs.hit("simultaneous events")
                else:
                    exp = {}
                    for x in m.window(b, e, inc):
                        c = (n in x[:2]) if not directed else (("out" in ends and x[0] == n) + ("in" in ends and x[1] == n))
                        if c:
                            exp[x[2]] = exp.get(x[2], 0) + c
                    same(sorted(tuple(x) for x in got), sorted(exp.items()), w)
                    if any(c > 1 for c in exp.values()):
                        obs.hit("several edges at one timestamp")
                if len(exp) >= 2:
                    obs.nt()
                    obs.hit("delta with >=2 events")
            if nodes:
                mean = sum(m.degree(n, b, e, inc, kind) for n in nodes) / len(nodes)
                got = f(begin=b, end=e, **kw)
                check(near(got, mean), "mean %s in %r..%r %s: got %r, expected %r", name, b, e, kw, got, mean)
                obs.hit("mean degree")
                if b is None and e is None:
                    got = f()
                    check(near(got, mean), "mean %s: got %r, expected %r", name, got, mean)
        if b is not None or e is not None:
            obs.hit("window")


def degree_check(fam, directed):
    def run(case, obs):
        d = Driver(fam, directed, case)
        m = d.m
        d.run_asking(case, lambda: degree_queries(d, case["queries"], obs))
        if any(e[0] == e[1] for e in m.edges):
            obs.hit("self-loop")
    return run


register("C07", "Graphs of all four classes built by histories (including removals, up to ~60 edges); degree, in_degree and out_degree "
         "of several nodes (known, unknown, any label kind), of the whole graph (mean) and with delta=True, over generated windows "
         "and inclusive flags, compared with counts and an event replay over the model; non-trivial: a delta with at least two events.",
         [Sub(n, with_degrees(history(max_ops=11, min_ops=3, incls=(f == "P")), f == "P"), degree_check(f, dr), 1300) for f, dr, n in CLS] +
         [Sub(n + "-large", with_degrees(history(max_ops=4, bulk=60, k=few_or_many), f == "P"), degree_check(f, dr), 300) for f, dr, n in CLS] +
         [Sub(n + "-wide", with_degrees(wide(edges=600), f == "P"), degree_check(f, dr), 5) for f, dr, n in CLS])

"""C22 and C24: the same content reached another way, or at other times and names, answers the same."""
import random
from fractions import Fraction

import dynetworkx as dnx
import networkx as nx
from hypothesis import strategies as st

from ..core import Sub, register
from ..drive import INCL, Driver, check, frz, same, same_set, short
from ..gen import node_count, LABELS, attrs, dur, history, incl, label, label_names, tick, window, HI, LO
from .many import many_subs
from .nodes import CLS


# ---------------------------------------------------------------- questions and their canonical answers
def questions(k, fam):
    node = st.integers(0, k - 1)
    some = st.one_of(st.none(), node, st.lists(node, max_size=3))
    i = incl if fam == "P" else st.none()
    flag = st.booleans()
    fl = st.tuples(flag, flag, flag, flag).map(list)
    return st.one_of(
        st.tuples(st.just("edges"), some, some, window(), i),
        st.tuples(st.just("edges"), some, st.none(), window(), i),
        st.tuples(st.just("nodes"), window(), i),
        st.tuples(st.just("has"), node, node, window(), i),
        st.tuples(st.just("exact"), node, node, tick, dur),
        st.tuples(st.just("degree"), st.one_of(st.none(), node, node), window(), i, flag, st.integers(0, 2)),
        st.tuples(st.just("extent"), window(), st.integers(0, 3)),
        st.tuples(st.just("subgraph"), window(), i, fl),
        st.tuples(st.just("snapshots"), st.sampled_from([2, 4, 8, -1, -2, -3]), fl),
        st.tuples(st.just("snapshot graph"), fl, window()),
        st.tuples(st.just("round"),),
        st.tuples(st.just("motif"), st.integers(0, 6), st.integers(0, 3))).map(list)


MOTIFS = [((1, 2), (2, 3)), ((1, 2), (2, 1)), ((0, 1), (2, 1)), (("a", "b"), ("a", "b"))]


class View:
    """reads one graph, translating nodes to indices and times to ticks"""

    def __init__(self, d, ticks, by_number=False):
        self.d, self.g = d, d.g
        self.by_number = by_number      # times can only be subtracted and divided by a number
        self.ix = {n: i for i, n in enumerate(d.labels)}
        self.tk = ticks

    def node(self, n):
        return self.ix.get(n, repr(n))

    def edge(self, e):
        u, v = self.node(e[0]), self.node(e[1])
        return (u, v) + tuple(self.tk(t) for t in e[2:])

    def data(self, a):
        return repr(frz({k: ("tick", self.tk(v)) if k in ("begin", "end", "timestamp") else v for k, v in a.items()}))

    def graph(self, G, exact):
        """a static graph; with exact=False only which pairs are connected how often"""
        es = []
        for u, v, a in G.edges(data=True):
            u, v = self.node(u), self.node(v)
            if not G.is_directed():
                u, v = sorted((u, v), key=repr)
            es.append((u, v, self.data(a)) if exact else (u, v, sorted(map(str, a))))
        return (G.is_directed(), G.is_multigraph(), sorted(map(repr, es)), sorted((repr(self.node(n)), repr(frz(a))) for n, a in G.nodes(data=True)))

    def ask(self, q, near_ok=False):
        d, g, m, L, T = self.d, self.g, self.d.m, self.d.labels, self.d.T
        kind = q[0]

        def nb(x):
            return None if x is None else L[x] if isinstance(x, int) else [L[j] for j in x]

        def ok(*xs):
            return all(isinstance(x, list) or x is None or x in m.nodes for x in xs)

        def flags(f):
            # a simple graph keeps the data of some of the parallel edges: any of them is right
            mg, ed, td, nd = f
            return {"multigraph": mg, "edge_data": ed, ("edge_interval_data" if d.interval else "edge_timestamp_data"): td, "node_data": nd}
        if kind == "edges":
            u, v = nb(q[1]), nb(q[2])
            if not ok(u, v):
                return None
            return sorted((self.edge(e), repr(frz(a))) for e, a in g.edges(u, v, T(q[3][0]), T(q[3][1]), data=True, **d.kw(q[4])))
        if kind == "nodes":
            w = T(q[1][0]), T(q[1][1])
            return (sorted(repr((self.node(n), frz(a))) for n, a in g.nodes(*w, data=True, **d.kw(q[2]))), g.number_of_nodes(*w, **d.kw(q[2])), len(g))
        if kind == "has":
            w = T(q[3][0]), T(q[3][1])
            return [bool(x) for x in (g.has_edge(L[q[1]], L[q[2]], *w, **d.kw(q[4])), g.has_node(L[q[1]], *w, **d.kw(q[4])),
                                      g.has_edge(L[q[1]], L[q[2]]), L[q[1]] in g)]
        if kind == "exact":
            if not d.interval:
                return None
            return bool(g.has_edge(L[q[1]], L[q[2]], T(q[3]), T(q[3] + q[4]), overlapping=False))
        if kind == "degree":
            n = None if q[1] is None else L[q[1]]
            w = T(q[2][0]), T(q[2][1])
            if n is None and not m.win_nodes(*w, d.inc(q[3])) or n is not None and n not in m.nodes:
                return None
            fs = [getattr(g, x) for x in (["degree", "in_degree", "out_degree"] if d.directed else ["degree"])]
            f = fs[q[5] % len(fs)]
            if q[4]:
                # the changes at every node
                out = []
                for x in ([n] if n is not None and q[5] == 2 else [x for x in L if x in m.nodes]):
                    for f in fs:
                        r = [(self.tk(t), c) for t, c in f(x, *w, delta=True, **d.kw(q[3]))]
                        out.append((self.node(x), r if d.interval else sorted(r)))
                return out
            r = f(n, *w, **d.kw(q[3]))
            return round(r, 9)
        if kind == "extent":
            if m.extent() is None:
                return None
            r = [tuple(map(self.tk, g.interval()))]
            if d.interval:
                b, e = T(q[1][0]), T(q[1][1])
                if None not in (b, e):
                    r += [list(map(self.tk, f(b, e, INCL[q[2]]))) for f in (g.unique_timestamps, g.unique_begin_timestamps, g.unique_end_timestamps)]
                r += [list(map(self.tk, f())) for f in (g.unique_timestamps, g.unique_begin_timestamps, g.unique_end_timestamps)]
            return r
        if kind == "subgraph":
            return self.graph(g.to_subgraph(T(q[1][0]), T(q[1][1]), **flags(q[3]), **d.kw(q[2])), q[3][0])
        if kind == "snapshots":
            x = m.extent()
            if x is None or x[0] == x[1]:
                return None
            if self.by_number:
                gs, n = g.to_snapshots(number_of_snapshots=abs(q[1]) * 2, return_length=True, **flags(q[2]))
                return [self.graph(G, q[2][0]) for G in gs], bool(x[0] + n * (abs(q[1]) * 2) == x[1])
            span = Fraction(x[1]) - Fraction(x[0])
            step = Fraction(T(1)) - Fraction(T(0))
            if q[1] < 0 and span / (step * -q[1]) <= 1:
                return None
            kw = {"number_of_snapshots": q[1]} if q[1] > 0 else {"length_of_snapshots": (T(1) - T(0)) * -q[1]}
            gs, n = g.to_snapshots(return_length=True, **kw, **flags(q[2]))
            return [self.graph(G, q[2][0]) for G in gs], Fraction(n) / step
        if kind == "snapshot graph":
            if m.extent() is None:
                return None
            S = g.to_snapshot_graph(**flags(q[1]))
            kw = {k: T(x) for k, x in zip(("start", "end"), q[2]) if x is not None}
            return ([(tuple(map(self.tk, k)), self.graph(G, q[1][0])) for k, G in S.snapshots.items()],
                    [self.graph(G, q[1][0]) for G in S.get(**kw)], S.number_of_nodes(**kw), S.size(**kw))
        if kind == "round":
            G = g.to_networkx_graph(None, None, multigraph=True, edge_data=True,
                                    **({"edge_interval_data": True} if d.interval else {"edge_timestamp_data": True}))
            h = d.cls.from_networkx_graph(G)
            return sorted((repr(orient(self.edge(e), d.directed)), repr(frz(a))) for e, a in h.edges(data=True))
        if kind == "motif":
            if d.interval or not d.directed:
                return None
            total, counts, table = dnx.count_temporal_motif(g, MOTIFS[q[2]], (T(1) - T(0)) * q[1])
            return (total, sorted((tuple(map(self.node, k)), c) for k, c in counts.items() if c),
                    sorted((self.node(n), p, c) for n, row in zip(table.index, table.values.tolist()) for p, c in zip(map(str, table.columns), row) if c))
        raise ValueError(kind)


def orient(e, directed):
    return e if directed else tuple(sorted(e[:2])) + e[2:]


def compare(a, b, qs, what, obs):
    n = 0
    for q in qs:
        x, y = a.ask(q), b.ask(q)
        same(y, x, "%s, %s" % (what, q))
        if x is not None:
            n += 1
            obs.hit(q[0])
            if q[0] in ("edges", "subgraph") and x and x != a.whole:
                obs.nt()
    return n


# ---------------------------------------------------------------- C22
SHAPES = ["random", "sorted", "reversed", "nested", "same", "stairs", "same begin", "same end", "two ends", "long and short"]


def shape_edges(name, n, k, seed):
    r = random.Random(seed)
    out = []
    for i in range(n):
        u, v = r.randrange(k), r.randrange(k)
        if name == "random":
            b = r.randrange(0, 40)
            e = b + r.choice([0, 1, 2, 3, 5, 8, 13, 30])
        elif name == "sorted":
            b, e = i, i + 1 + i % 3
        elif name == "reversed":
            b, e = n - i, n - i + 2
        elif name == "nested":
            b, e = i, 2 * n - i
        elif name == "same":
            b, e = 3, 9
        elif name == "stairs":
            b, e = i // 3, i // 3 + 4
        elif name == "same begin":
            b, e = 2, 2 + r.randrange(1, 50)
        elif name == "same end":
            b, e = r.randrange(-20, 20), 20
        elif name == "two ends":
            b, e = ((0, 1) if i % 2 else (50, 60))
        else:
            b = r.randrange(0, 30)
            e = b + (200 if i % 7 == 0 else 1)
        out.append([u, v, b, e])
    return out


@st.composite
def order_case(draw, fam, small):
    k = draw(st.integers(2, 6 if small else 8))
    lab = draw(label_names)
    node = st.integers(0, k - 1)
    if small:
        es = draw(st.lists(st.tuples(node, node, tick, dur).map(lambda x: [x[0], x[1], x[2], x[2] + x[3]]), min_size=1, max_size=9))
        shape = None
    else:
        es = None
        shape = [draw(st.sampled_from(SHAPES)), draw(st.integers(10, 260)), draw(st.integers(0, 10 ** 6))]
    case = {"labels": LABELS[lab][:k], "time": draw(st.sampled_from([[0, 1], [-4, 1], [-20, 1], [0, 0.5], [100, 1]])),
            "edges": es, "shape": shape,
            "attrs": draw(st.lists(attrs, min_size=1, max_size=4)),
            "node_attrs": draw(st.lists(attrs, min_size=1, max_size=3)),
            "permute": draw(st.integers(0, 10 ** 6)),
            "how": draw(st.sampled_from(["singles", "bulk", "mixed", "mixed"])),
            "temporary": draw(st.lists(st.tuples(node, node, st.one_of(tick, st.integers(-30, 60)), dur, st.integers(0, 3), st.integers(0, 9), st.integers(0, 9))
                                       .map(list), max_size=5 if small else 25))}
    case["questions"] = draw(st.lists(questions(k, fam), min_size=3, max_size=8))
    return case


def order_check(fam, directed):
    def run(case, obs):
        base = {"labels": case["labels"], "time": case["time"]}
        raw = case["edges"] if case["edges"] is not None else shape_edges(*case["shape"][:2], len(case["labels"]), case["shape"][2])
        a = Driver(fam, directed, base)
        pairs = []
        for i, x in enumerate(raw):
            e = a.edge(*x)
            mirror = (e[1], e[0]) + e[2:]
            if all(e != f and (directed or mirror != f) for f, _ in pairs) if len(pairs) < 40 else e not in seen and (directed or mirror not in seen):
                pairs.append((e, case["attrs"][i % len(case["attrs"])]))
                seen = {f for f, _ in pairs} if len(pairs) <= 40 else seen | {e}
        nodes = [(n, case["node_attrs"][i % len(case["node_attrs"])]) for i, n in enumerate(a.labels)]
        # first way: in the order given, one by one
        for n, at in nodes:
            a.g.add_node(n, **at)
            a.m.add_node(n, at)
        for e, at in pairs:
            a.g.add_edge(*e, **at)
            a.m.add_edge(e, at)
        # second way: permuted, in groups, with temporary edges and nodes in between
        b = Driver(fam, directed, base)
        b.m = a.m
        r = random.Random(case["permute"])
        final = {f for f, _ in pairs}
        steps = [("edge", e, at) for e, at in pairs] + [("node", n, at) for n, at in nodes]
        r.shuffle(steps)
        alive = []
        temps = []
        for t in case["temporary"]:
            e = b.edge(t[0], t[1], t[2], t[2] + t[3])
            m = (e[1], e[0]) + e[2:]
            if e in final or (not directed and m in final) or e in temps or m in temps:
                continue
            temps.append(e)
            steps.insert(len(steps) * t[5] // 10, ("temp", e, t[4]))
        group = []

        def flush():
            # edges sharing their attributes are added together
            while group:
                at = group[0][1]
                es = [e for e, x in group if x == at]
                b.g.add_edges_from(es, **at)
                group[:] = [(e, x) for e, x in group if x != at]

        def drop(e):
            if b.interval:
                b.g.remove_edge(e[0], e[1], e[2], e[3], overlapping=False)
            else:
                b.g.remove_edge(e[0], e[1], e[2], e[2], inclusive=(True, True))
        for i, s in enumerate(steps):
            if s[0] == "edge":
                if case["how"] == "singles" or case["how"] == "mixed" and i % 3:
                    b.g.add_edge(*s[1], **s[2])
                else:
                    group.append((s[1], s[2]))
                    if len(group) > 5 and case["how"] == "mixed":
                        flush()
            elif s[0] == "node":
                if i % 2:
                    b.g.add_node(s[1], **s[2])
                else:
                    b.g.add_nodes_from([(s[1], dict(s[2]))])
            else:
                e, how = s[1], s[2]
                if how == 3:
                    # by a node of its own
                    x = ("temporary", i)
                    b.g.add_edge(x, e[1], *e[2:], w=1)
                    b.g.add_edge(e[0], x, *e[2:])
                    b.g.remove_node(x)
                else:
                    b.g.add_edge(*e, temporary=1)
                    alive.append(e)
                    if how == 0:
                        drop(alive.pop())
                    elif how == 1 and len(alive) > 2:
                        drop(alive.pop(0))
        flush()
        r.shuffle(alive)
        for e in alive:
            drop(e)
        # both against the content, and against each other
        a.check_edges("built in order: ")
        b.check_edges("built in another order: ")
        b.check_nodes("built in another order: ")
        va, vb = View(a, lambda t: t), View(b, lambda t: t)
        va.whole = None
        compare(va, vb, case["questions"], "built in another order", obs)
        obs.nontrivial = len(pairs) >= 2
        if temps:
            obs.hit("temporary edges")
        if case["shape"]:
            obs.hit("shape " + case["shape"][0])
            if len(pairs) >= 100:
                obs.hit(">=100 edges")
    return run


register("C22", "The same edges and nodes with attributes (1-9 generated, or 10-260 edges of ten shapes: random, sorted, reversed, nested, identical, "
         "stairs, shared begins or ends, two clusters, long and short) built in order and one by one, and permuted, singly / in bulk / mixed, with up to "
         "25 temporary edges and nodes added and removed in between; both compared with the content and with each other by 3-8 generated questions "
         "of every kind; and 1200-4000 edges added in seven orders (ascending, descending, shuffled, zigzag, outwards, blocks, evens then odds), "
         "partly removed in such an order, queried by 3-8 windows against a scan; non-trivial: at least two edges (1000 in the last kind).",
         [Sub(n, order_case(f, True), order_check(f, dr), 700) for f, dr, n in CLS] +
         [Sub(n + "-large", order_case(f, False), order_check(f, dr), 220) for f, dr, n in CLS] +
         many_subs("IP", 24, 8))


# ---------------------------------------------------------------- C24
@st.composite
def shift_case(draw, fam, bulk=0):
    k = draw(node_count)
    case = draw(history(max_ops=9, min_ops=2, k=k, bulk=bulk, incls=(fam == "P"), time=st.just([0, 1]),
                        labels=["chars", "int0"]))
    case["questions"] = draw(st.lists(questions(k, fam), min_size=3, max_size=8))
    # often: a bound of some question's window becomes 0
    bounds = sorted({-x for q in case["questions"] for w in q[1:] if isinstance(w, list) for x in w if isinstance(x, int) and not isinstance(x, bool)})
    zero = st.sampled_from(bounds or [0])
    case["offset"] = draw(st.one_of(zero, zero, st.integers(-HI - 2, -LO + 2), st.sampled_from([0, -1000, 10 ** 6, 10 ** 9, -10 ** 12, 0.5, -3.5, -6.25])))
    case["scale"] = draw(st.sampled_from([1, 1, 1, 0.5, 4, 0.125]))
    case["rename"] = LABELS[draw(st.sampled_from(sorted(LABELS)))][:k]
    case["permute"] = draw(st.permutations(list(range(k))))
    case["which"] = draw(st.sampled_from(["time", "names", "both"]))
    return case


def shift_check(fam, directed):
    def run(case, obs):
        a = Driver(fam, directed, case)
        off, sc = (case["offset"], case["scale"]) if case["which"] != "names" else (0, 1)
        names = [case["rename"][i] for i in case["permute"]] if case["which"] != "time" else case["labels"]
        b = Driver(fam, directed, case, labels=names, T=lambda k: None if k is None else off + sc * k)
        va = View(a, lambda t: Fraction(t))
        vb = View(b, lambda t: (Fraction(t) - Fraction(off)) / Fraction(sc))
        va.whole = None
        what = "times %r + %r * t, names %r" % (off, sc, names)
        for i, op in enumerate(case["ops"]):
            a.apply(op)
            b.apply(op)
            if i in case.get("stops", ()):
                compare(va, vb, case["questions"], what + ", after step %d" % i, obs)
        va.whole = va.ask(["edges", None, None, [None, None], None])
        n = compare(va, vb, [["edges", None, None, [None, None], None], ["nodes", [None, None], None], ["extent", [None, None], 0]] + case["questions"],
                    what, obs)
        obs.nontrivial = n >= 3 and bool(a.m.edges) and (case["which"] == "names" or off != 0 or sc != 1)
        obs.hit(case["which"])
        if any(t == 0 for e in b.m.edges for t in e[2:]):
            obs.hit("a time is 0")
        if any(e[2] < 0 < e[-1] for e in b.m.edges):
            obs.hit("an edge spans 0")
        if any(not n for n in b.m.nodes):
            obs.hit("a falsy label")
    return run


register("C24", "One history of 2-9 operations replayed on two graphs: with integer times and plain names, and with every time mapped to offset + scale*t (offsets "
         "putting events before, at and after 0, far away, fractional) and nodes renamed to labels of every kind; 3-8 generated questions with correspondingly "
         "mapped windows and nodes must give corresponding answers; non-trivial: the mapping changes something and the graph has edges.",
         [Sub(n, shift_case(f), shift_check(f, dr), 1100) for f, dr, n in CLS] +
         [Sub(n + "-large", shift_case(f, bulk=50), shift_check(f, dr), 200) for f, dr, n in CLS])

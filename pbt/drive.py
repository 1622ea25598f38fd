"""Interprets a history on a real graph and on the model; reads the real graph's
observable state through the public API."""
from collections import Counter

import dynetworkx as dnx

from .core import Violation
from .gen import ATTRS, Fresh, bulk_edges, label, mktime, wide_edges
from .model import TModel

CLASSES = {("I", False): "IntervalGraph", ("I", True): "IntervalDiGraph",
           ("P", False): "ImpulseGraph", ("P", True): "ImpulseDiGraph"}
INCL = [(True, False), (True, True), (False, True), (False, False)]
FAR = 10 ** 20


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def same(got, want, what):
    if got != want:
        raise Violation("%s: got %s, expected %s" % (what, short(got), short(want)))


def as_counter(xs, what):
    try:
        return Counter(xs)
    except TypeError as e:
        raise Violation("%s: malformed result %s (%s)" % (what, short(xs), e))


def same_set(got, want, what):
    """got: iterable of hashables, must hold each element of want exactly once"""
    c = as_counter(got, what)
    dup = [x for x, n in c.items() if n > 1]
    if dup:
        raise Violation("%s: repeated %s" % (what, short(dup)))
    want = set(want)
    if set(c) != want:
        raise Violation("%s: missing %s, extra %s" % (what, short(sorted(want - set(c), key=repr)),
                                                      short(sorted(set(c) - want, key=repr))))


def same_bag(got, want, what):
    c, w = as_counter(got, what), Counter(want)
    if c != w:
        raise Violation("%s: missing %s, extra %s" % (what, short(dict(w - c)), short(dict(c - w))))


def frz(d):
    return tuple(sorted(((k, v) for k, v in d.items()), key=lambda kv: repr(kv[0])))


def rep(x):
    """repr of a value, the same for equal integers and floats"""
    if isinstance(x, tuple):
        return "(%s)" % ", ".join(map(rep, x))
    return repr(int(x) if isinstance(x, float) and x.is_integer() else x)


def edge_data(pairs, what):
    """[(edge, attrs)] -> {edge: attrs}, no repetition"""
    out = {}
    for p in pairs:
        e, d = p
        if e in out:
            raise Violation("%s: edge %s reported twice" % (what, short(e)))
        out[e] = dict(d)
    return out


class Driver:
    def __init__(self, fam, directed, case, cls=None, labels=None, T=None, graph_attrs=None):
        self.fam, self.directed = fam, directed
        self.interval = fam == "I"
        self.cls = cls or getattr(dnx, CLASSES[fam, directed])
        self.labels = Fresh(label(x) for x in (labels if labels is not None else case["labels"]))
        self.T = T or mktime(case["time"])
        self.g = self.cls(**(graph_attrs or {}))
        self.m = TModel(self.interval, directed)
        self.stats = Counter()

    # -- case vocabulary -> values ---------------------------------------
    def edge(self, u, v, b, e):
        L, T = self.labels, self.T
        return (L[u], L[v], T(b), T(e)) if self.interval else (L[u], L[v], T(b))

    def inc(self, i, default=(True, False)):
        return default if i is None else INCL[i]

    def kw(self, i):
        """keyword arguments for an inclusive index (None: use the default)"""
        return {} if self.interval or i is None else {"inclusive": INCL[i]}

    # -- updates ----------------------------------------------------------
    def add(self, e, attrs):
        """single addition on both sides; skips the mirror image of an existing undirected edge"""
        if self.m.twin(e):
            return False
        self.stats["readd" if e in self.m.edges else "add"] += 1
        self.g.add_edge(*e, **attrs)
        self.m.add_edge(e, attrs)
        return True

    def apply(self, op):
        k, g, m, L, T = op[0], self.g, self.m, self.labels, self.T
        if k == "edge":
            self.add(self.edge(*op[1:5]), op[5])
        elif k in ("edges", "bulk"):
            if k == "edges":
                es, at = [self.edge(*x) for x in op[1]], op[2]
            else:
                es, at = [self.edge(*x) for x in bulk_edges(op, len(L))], {}
            use, probe = [], set()
            for e in es:
                mirror = (e[1], e[0]) + e[2:]
                if m.twin(e) or (not self.directed and e[0] != e[1] and mirror in probe):
                    continue
                probe.add(e)
                use.append(e)
            g.add_edges_from(use, **at)
            for e in use:
                m.add_edge(e, at)
            self.stats["add"] += len(use)
        elif k == "wide":
            for i, n in enumerate(L):
                if i % 3:
                    g.add_node(n, **ATTRS[i % len(ATTRS)])
                    m.add_node(n, ATTRS[i % len(ATTRS)])
            for u, v, b, e, at in wide_edges(op, len(L)):
                self.add(self.edge(u, v, b, e), at)
        elif k == "node":
            g.add_node(L[op[1]], **op[2])
            m.add_node(L[op[1]], op[2])
        elif k == "nodes":
            g.add_nodes_from([L[i] if a is None else (L[i], dict(a)) for i, a in op[1]], **op[2])
            for i, a in op[1]:
                m.add_node(L[i], op[2])
                if a:
                    m.add_node(L[i], a)
        elif k == "rme":
            u, v, b, e, i = L[op[1]], L[op[2]], T(op[3]), T(op[4]), op[5]
            gone = m.select([u], [v], b, e, self.inc(i, (True, True) if self.directed else (True, False)))
            g.remove_edge(u, v, b, e, **self.kw(i))
            m.remove(gone)
            self.stats["removed"] += len(gone)
        elif k == "exact":
            e = self.edge(*op[1:5])
            u, v, b, f = e[0], e[1], e[2], e[-1]
            gone = [x for x in m.edges if m.joins(x, u, v) and x[2:] == e[2:]]
            if self.interval:
                g.remove_edge(u, v, b, f, overlapping=False)
            else:
                g.remove_edge(u, v, b, b, inclusive=(True, True))
            m.remove(gone)
            self.stats["removed"] += len(gone)
        elif k == "unbulk":
            for e in list(m.edges)[op[1]::op[2]]:
                if e not in m.edges:
                    continue
                gone = [x for x in m.edges if m.joins(x, e[0], e[1]) and x[2:] == e[2:]]
                if self.interval:
                    g.remove_edge(e[0], e[1], e[2], e[3], overlapping=False)
                else:
                    g.remove_edge(e[0], e[1], e[2], e[2], inclusive=(True, True))
                m.remove(gone)
                self.stats["removed"] += len(gone)
        elif k == "rmn":
            n, b, e, i = L[op[1]], T(op[2]), T(op[3]), op[4]
            before = len(m.edges)
            g.remove_node(n, b, e, **self.kw(i))
            m.remove_node(n, b, e, self.inc(i))
            self.stats["removed"] += before - len(m.edges)
            self.stats["rmn"] += 1
        else:
            raise ValueError(op)

    def run(self, ops, each=None):
        for i, op in enumerate(ops):
            self.apply(op)
            if each:
                each(i)

    def run_asking(self, case, ask):
        """the whole history; the questions are asked at its end and after the steps named by the case"""
        stops = set(case.get("stops", ()))
        if -1 in stops:
            ask()
        self.run(case["ops"], lambda i: ask() if i in stops else None)
        ask()

    def run_comparing(self, case, each):
        """the whole history, compared after every step or (for histories which say so) only at the stops and the end"""
        n = len(case["ops"])
        stops = None if case.get("every", True) else set(case.get("stops", ())) | {n - 1}
        self.run(case["ops"], lambda i: each(i) if stops is None or i in stops else None)

    # -- reading ----------------------------------------------------------
    def queryable(self, x):
        """a tuple that is not a node but whose elements are nodes may also mean a list of nodes"""
        return x in self.m.nodes or not (isinstance(x, (tuple, frozenset)) and any(y in self.m.nodes for y in x))

    def lo(self):
        return -FAR

    def hi(self):
        return FAR

    def check_edges(self, where=""):
        """All views of the edge set agree with the model."""
        g, m = self.g, self.m
        want = set(m.edges)
        same_set(g.edges(), want, where + "edges()")
        same(edge_data(g.edges(data=True), where + "edges(data=True)"), m.edges, where + "edge attributes")
        self.check_index(where)
        for n in self.labels:
            if not self.queryable(n):
                continue
            same_set(g.edges(u=n), m.select([n]), where + "edges(u=%r)" % (n,))
            if self.directed:
                same_set(g.edges(v=n), m.select(None, [n]), where + "edges(v=%r)" % (n,))
        pairs = {(e[0], e[1]) for e in want}
        for u in self.labels:
            for v in self.labels:
                e = (u, v) in pairs or (not self.directed and (v, u) in pairs)
                same(bool(g.has_edge(u, v)), e, where + "has_edge(%r, %r)" % (u, v))

    def check_index(self, where=""):
        """the time-first path of queries sees the same edges"""
        g, m = self.g, self.m
        same_set(g.edges(begin=self.lo(), end=self.hi()), m.edges, where + "edges(begin=-far, end=far)")

    def check_exact(self, where="", limit=12):
        """exact membership of present and absent edges (interval graphs)"""
        if not self.interval:
            return
        g, m = self.g, self.m
        for e in list(m.edges)[:limit]:
            u, v, b, f = e
            for (x, y) in ((b, f), (b, f + 1), (b - 1, f)):
                want = any(m.joins(k, u, v) and k[2:] == (x, y) for k in m.edges)
                same(bool(g.has_edge(u, v, x, y, overlapping=False)), want,
                     where + "has_edge(%r, %r, %r, %r, overlapping=False)" % (u, v, x, y))
            if self.directed and u != v:
                want = (v, u, b, f) in m.edges
                same(bool(g.has_edge(v, u, b, f, overlapping=False)), want,
                     where + "has_edge(%r, %r, %r, %r, overlapping=False)" % (v, u, b, f))

    def check_nodes(self, where=""):
        g, m = self.g, self.m
        same({n: dict(d) for n, d in g.nodes(data=True)}, m.nodes, where + "nodes(data=True)")
        same_set(g.nodes(), m.nodes, where + "nodes()")
        same(len(g), len(m.nodes), where + "len")
        same(g.number_of_nodes(), len(m.nodes), where + "number_of_nodes()")
        for n in self.labels:
            same(n in g, n in m.nodes, where + "%r in G" % (n,))
            same(bool(g.has_node(n)), n in m.nodes, where + "has_node(%r)" % (n,))

    def state(self):
        """everything observable, as a comparable value"""
        return graph_state(self.g)


def extent_of(g):
    try:
        x = tuple(g.interval())
    except IndexError:
        return None
    return None if x == (float("inf"), float("-inf")) else x


def graph_state(g):
    """observable state of an interval or impulse graph"""
    ns = list(g.nodes(data=True))
    es = g.edges(data=True)
    out = {"graph": dict(g.graph), "len": len(g),
           "nodes": sorted(((repr(n), repr(frz(d))) for n, d in ns)),
           "edges": sorted((rep(e), repr(frz(d))) for e, d in es),
           "index": sorted(map(rep, g.edges(begin=-FAR, end=FAR))),
           "extent": extent_of(g)}
    adj = []
    for n, _ in ns:
        adj.append((repr(n), sorted(map(rep, g.edges(u=n))), sorted(map(rep, g.edges(v=n)))))
    out["adj"] = sorted(adj)
    return out

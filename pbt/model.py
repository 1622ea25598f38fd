"""Reference model: a dict of nodes, a dict of edges, and one presence rule.

Deliberately naive: every answer is a scan over all edges.
"""
import math


class TModel:
    """interval=True: edges (u, v, low, high); otherwise (u, v, t)."""

    def __init__(self, interval, directed):
        self.interval, self.directed = interval, directed
        self.nodes, self.edges = {}, {}

    def copy(self):
        m = TModel(self.interval, self.directed)
        m.nodes = {n: dict(a) for n, a in self.nodes.items()}
        m.edges = {e: dict(a) for e, a in self.edges.items()}
        return m

    # -- presence ---------------------------------------------------------
    def inside(self, e, begin, end, inclusive=(True, False)):
        if self.interval:
            if begin is not None and e[2] == begin:
                return True
            return (end is None or e[2] < end) and (begin is None or e[3] > begin)
        t = e[2]
        if begin is not None and begin == end:
            return t == begin
        if begin is not None and not (t >= begin if inclusive[0] else t > begin):
            return False
        if end is not None and not (t <= end if inclusive[1] else t < end):
            return False
        return True

    def window(self, begin=None, end=None, inclusive=(True, False)):
        return [e for e in self.edges if self.inside(e, begin, end, inclusive)]

    def win_nodes(self, begin=None, end=None, inclusive=(True, False)):
        if begin is None and end is None:
            return set(self.nodes)
        return {n for e in self.window(begin, end, inclusive) for n in e[:2]}

    def joins(self, e, u, v):
        """e is an edge between u and v (from u to v if directed)"""
        if e[0] == u and e[1] == v:
            return True
        return not self.directed and e[0] == v and e[1] == u

    def touches(self, e, u):
        """e leaves u (undirected: touches u)"""
        return e[0] == u or (not self.directed and e[1] == u)

    def enters(self, e, v):
        return e[1] == v or (not self.directed and e[0] == v)

    def select(self, us=None, vs=None, begin=None, end=None, inclusive=(True, False)):
        """us/vs: None or list of nodes"""
        out = []
        for e in self.window(begin, end, inclusive):
            if us is None and vs is None:
                ok = True
            elif vs is None:
                ok = any(self.touches(e, u) for u in us)
            elif us is None:
                ok = any(self.enters(e, v) for v in vs)
            else:
                ok = any(self.joins(e, u, v) for u in us for v in vs)
            if ok:
                out.append(e)
        return out

    # -- updates ----------------------------------------------------------
    def add_node(self, n, attrs):
        self.nodes.setdefault(n, {}).update(attrs)

    def add_edge(self, e, attrs):
        for n in e[:2]:
            self.nodes.setdefault(n, {})
        self.edges.setdefault(e, {}).update(attrs)

    def twin(self, e):
        """undirected graphs: the same edge stored the other way round"""
        return (not self.directed) and e[0] != e[1] and ((e[1], e[0]) + e[2:]) in self.edges

    def remove(self, es):
        for e in es:
            del self.edges[e]

    def remove_node(self, n, begin, end, inclusive):
        if n not in self.nodes:
            return
        gone = [e for e in self.window(begin, end, inclusive) if n in e[:2]]
        self.remove(gone)
        if (begin is None and end is None) or not any(n in e[:2] for e in self.edges):
            del self.nodes[n]

    # -- derived ----------------------------------------------------------
    def extent(self):
        if not self.edges:
            return None
        return min(e[2] for e in self.edges), max(e[-1] for e in self.edges)

    def times(self):
        return sorted({t for e in self.edges for t in e[2:]})

    def degree(self, n, begin=None, end=None, inclusive=(True, False), kind="all"):
        w = self.window(begin, end, inclusive)
        if not self.directed:
            return sum(1 for e in w if n in e[:2])
        o = sum(1 for e in w if e[0] == n)
        i = sum(1 for e in w if e[1] == n)
        return {"all": o + i, "in": i, "out": o}[kind]


def near(a, b):
    return a == b or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)

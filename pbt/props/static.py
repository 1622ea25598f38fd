"""C09: static subgraphs. C10: equal-length snapshots. C11: snapshot graphs."""
from collections import Counter
from fractions import Fraction

import networkx as nx
from hypothesis import strategies as st
from networkx.exception import NetworkXError

from ..core import Sub, register
from ..drive import Driver, check, frz, same, same_bag, same_set, short
from ..gen import few_or_many, history, incl, wide, window_near
from ..model import near
from .nodes import CLS

flags = st.tuples(st.booleans(), st.booleans(), st.booleans(), st.booleans()).map(list)   # multi, edge data, time data, node data


def decorated(m, e, ed, td):
    a = dict(m.edges[e]) if ed else {}
    if td:
        a.update({"begin": e[2], "end": e[3]} if m.interval else {"timestamp": e[2]})
    return a


def pair(m, u, v):
    if m.directed:
        return (u, v)
    return tuple(sorted((u, v), key=lambda x: (str(type(x)), repr(x))))


def compare_static(m, G, es, fl, what):
    """G must be the static graph of the model edges es"""
    multi, ed, td, nd = fl
    check(isinstance(G, nx.Graph), "%s: not a NetworkX graph: %r", what, G)
    same((G.is_multigraph(), G.is_directed()), (multi, m.directed), what + ": (multigraph, directed)")
    nodes = {n for e in es for n in e[:2]}
    same_set(list(G.nodes()), nodes, what + ": nodes")
    for n, a in G.nodes(data=True):
        same(dict(a), m.nodes[n] if nd else {}, what + ": attributes of node %r" % (n,))
    if multi:
        got = [(pair(m, u, v), frz(a)) for u, v, a in G.edges(data=True)]
        same_bag(got, [(pair(m, *e[:2]), frz(decorated(m, e, ed, td))) for e in es], what + ": edges")
        return
    want = {}
    for e in es:
        want.setdefault(pair(m, *e[:2]), []).append(decorated(m, e, ed, td))
    got = {}
    for u, v, a in G.edges(data=True):
        p = pair(m, u, v)
        check(p not in got, "%s: pair %r twice", what, p)
        got[p] = dict(a)
    same_set(list(got), want, what + ": connected pairs")
    for p, a in got.items():
        ds = want[p]
        same(set(a), {k for d in ds for k in d}, what + ": attribute names of %r" % (p,))
        for k, x in a.items():
            check(any(k in d and d[k] == x for d in ds), "%s: %r has %s=%r, which no edge of the pair has", what, p, k, x)
        if td and m.interval:
            check(any((d["begin"], d["end"]) == (a["begin"], a["end"]) for d in ds), "%s: %r has interval %r..%r, which no edge of the pair has",
                  what, p, a["begin"], a["end"])


def flag_kw(fam, fl):
    multi, ed, td, nd = fl
    kw = {"multigraph": multi, "edge_data": ed, "edge_interval_data" if fam == "I" else "edge_timestamp_data": td, "node_data": nd}
    # half the time what is not wanted is left to the defaults
    return kw if sum(fl) % 2 else {k: f for k, f in kw.items() if f}


# ---------------------------------------------------------------- C09
@st.composite
def with_windows(draw, hist, inclusive):
    case = draw(hist)
    case["queries"] = draw(st.lists(st.tuples(st.one_of(window_near(case), window_near(case), st.just([None, None])), incl if inclusive else st.none(), flags).map(list),
                                    min_size=1, max_size=5))
    return case


def subgraph_check(fam, directed):
    def run(case, obs):
        d = Driver(fam, directed, case)
        g, m, T = d.g, d.m, d.T

        def ask():
            for (b, e), i, fl in case["queries"]:
                b, e = T(b), T(e)
                kw = d.kw(i)
                want = m.window(b, e, d.inc(i))
                for name in ("to_subgraph", "to_networkx_graph"):
                    G = getattr(g, name)(b, e, **flag_kw(fam, fl), **kw)
                    compare_static(m, G, want, fl, "%s(%r, %r, %s %s)" % (name, b, e, flag_kw(fam, fl), kw))
                if b is None and e is None and fam == "P" and i is None:
                    compare_static(m, g.to_networkx_graph(**flag_kw(fam, fl)), want, fl, "to_networkx_graph(%s)" % flag_kw(fam, fl))
                if 0 < len(want) < len(m.edges):
                    obs.nt()
                if len({pair(m, *e[:2]) for e in want}) < len(want):
                    obs.hit("parallel edges")
                obs.hit(*[n for n, f in zip(("multigraph", "edge_data", "time data", "node_data"), fl) if f])
                if fl[1] and fl[2]:
                    obs.hit("edge and time data")
        d.run_asking(case, ask)
    return run


register("C09", "Graphs of all four classes built by histories, to_subgraph and to_networkx_graph over generated windows, inclusive flags "
         "and all combinations of multigraph / edge data / time data / node data, compared edge by edge with the model; "
         "non-trivial: the window selects a proper non-empty subset of the edges.",
         [Sub(n, with_windows(history(max_ops=11, min_ops=3), f == "P"), subgraph_check(f, dr), 1400) for f, dr, n in CLS] +
         [Sub(n + "-large", with_windows(history(max_ops=4, bulk=60, k=few_or_many), f == "P"), subgraph_check(f, dr), 250) for f, dr, n in CLS] +
         [Sub(n + "-wide", with_windows(wide(), f == "P"), subgraph_check(f, dr), 20) for f, dr, n in CLS])


# ---------------------------------------------------------------- C10
@st.composite
def with_requests(draw, hist):
    case = draw(hist)
    req = st.one_of(st.tuples(st.just("n"), st.integers(2, 9)),
                    st.tuples(st.just("n"), st.sampled_from([2, 3, 5, 7, 13, 40])),
                    st.tuples(st.just("len"), st.sampled_from([1, 2, 3, 4, 0.5, 0.25, 1.5, 2.0, 0.7, 3.3, 10, 0.1])),
                    st.tuples(st.just("ticks"), st.sampled_from([1, 2, 3, 4, 5])),
                    st.tuples(st.just("bad"), st.sampled_from(["none", "both", "zero", "negative", "one", "0", "-2", "float", "huge", "fzero"])))
    case["requests"] = draw(st.lists(st.tuples(req.map(list), flags, st.booleans()).map(list), min_size=1, max_size=3))
    return case


BAD = {"none": {}, "both": {"number_of_snapshots": 3, "length_of_snapshots": 1}, "zero": {"length_of_snapshots": 0},
       "fzero": {"length_of_snapshots": 0.0}, "negative": {"length_of_snapshots": -1}, "one": {"number_of_snapshots": 1},
       "0": {"number_of_snapshots": 0}, "-2": {"number_of_snapshots": -2}, "float": {"number_of_snapshots": 2.5},
       "huge": {"length_of_snapshots": 10 ** 21}}


def exactly(x):
    return Fraction(float(x)) == x


def snapshots_check(fam, directed):
    def run(case, obs):
        d = Driver(fam, directed, case)
        g, m = d.g, d.m

        def ask():
            ex = m.extent()
            if ex is None or ex[0] == ex[1]:
                obs.hit("no extent")
                return
            lo, hi = Fraction(ex[0]), Fraction(ex[1])
            span = hi - lo
            for (kind, val), fl, rl in case["requests"]:
                fkw = flag_kw(fam, fl)
                if kind == "bad":
                    try:
                        r = g.to_snapshots(**BAD[val], **fkw)
                    except NetworkXError:
                        obs.hit("rejected request")
                        continue
                    check(False, "to_snapshots(%s): accepted, gave %s", BAD[val], short(r))
                if kind == "ticks":
                    kind, val = "len", case["time"][1] * val
                if kind == "n":
                    args, ns, L = {"number_of_snapshots": val}, {val}, span / val
                else:
                    args, L = {"length_of_snapshots": val}, Fraction(val)
                    if span / L > 300:
                        continue
                    n = -(-span // L)
                    ns = {n}
                    if not (exactly(span) and Fraction(float(span) / float(L)) == span / L):
                        near_n = round(span / L)
                        if abs(span / L - near_n) < Fraction(1, 10 ** 6):
                            ns |= {near_n, near_n + 1}
                    if max(ns) < 2:
                        try:
                            r = g.to_snapshots(**args)
                        except NetworkXError:
                            obs.hit("rejected request")
                            continue
                        check(False, "to_snapshots(%s): fewer than two snapshots accepted, gave %s", args, short(r))
                    if min(ns) < 2:
                        continue
                what = "to_snapshots(%s, %s) over %r" % (args, fkw, ex)
                r = g.to_snapshots(return_length=rl, **args, **fkw)
                if rl:
                    check(isinstance(r, tuple) and len(r) == 2, "%s: expected (snapshots, length), got %s", what, short(r))
                    r, length = r
                    check(near(length, float(L)), "%s: length %r, expected %r", what, length, float(L))
                    obs.hit("return_length")
                check(len(r) in ns, "%s: %d snapshots, expected %s", what, len(r), sorted(map(int, ns)))
                n = len(r)
                bounds = [lo + L * i for i in range(n + 1)]
                exact = exactly(L) and all(exactly(x) for x in bounds) and all(exactly(L * i) for i in range(n + 1))
                margin = 0 if exact else max(abs(lo), abs(hi), 1) * Fraction(1, 10 ** 13)
                seen = Counter()
                for i, G in enumerate(r):
                    a, b = bounds[i], bounds[i + 1]
                    must, may = [], []
                    for e in m.edges:
                        s, t = Fraction(e[2]), Fraction(e[-1])
                        last = i == n - 1
                        if fam == "I":
                            def inside(mg):
                                return (((last or s < b + mg) and t > a - mg) or abs(s - a) <= mg)
                            yes = ((last or s < b - margin) and t > a + margin) if margin else inside(0)
                        else:
                            def inside(mg):
                                return s >= a - mg and (last or s < b + mg)
                            yes = (s >= a + margin and (last or s < b - margin)) if margin else inside(0)
                        if i == 0 and fam == "P" and s == lo:
                            yes = True
                        if inside(margin):
                            may.append(e)
                            if yes:
                                must.append(e)
                    w = "%s: snapshot %d [%s, %s)" % (what, i, float(a), float(b))
                    if len(must) == len(may):
                        compare_static(m, G, must, fl, w)
                    else:
                        obs.hit("boundary ambiguous in floating point")
                        got = {pair(m, u, v) for u, v in G.edges()}
                        check({pair(m, *e[:2]) for e in must} <= got <= {pair(m, *e[:2]) for e in may}, "%s: pairs %s", w, short(got))
                    if fam == "P":
                        # as counted per pair when parallel edges are kept
                        if fl[0]:
                            seen.update(pair(m, u, v) for u, v in G.edges())
                        else:
                            seen.update({pair(m, u, v) for u, v in G.edges()})
                    else:
                        seen.update(pair(m, u, v) for u, v in G.edges())
                allp = Counter(pair(m, *e[:2]) for e in m.edges)
                check(set(seen) == set(allp), "%s: pairs in no snapshot: %s", what, short(set(allp) - set(seen)))
                if fam == "P" and fl[0]:
                    same(dict(seen), dict(allp), what + ": edges per pair over all snapshots")
                if n >= 2 and len(m.edges) >= 2:
                    obs.nt()
                obs.hit("by " + kind, "float length" if not exact else "exact bounds")
        d.run_asking(case, ask)
    return run


register("C10", "Graphs of all four classes with a non-empty extent, to_snapshots by number (2-40) and by length (integers, fractions, "
         "multiples of the tick), all data flags, and rejected requests; every snapshot compared with the windows of an exact "
         "(rational) partition of the extent; non-trivial: at least two snapshots of a graph with at least two edges.",
         [Sub(n, with_requests(history(max_ops=8, min_ops=2)), snapshots_check(f, dr), 1200) for f, dr, n in CLS] +
         [Sub(n + "-large", with_requests(history(max_ops=3, bulk=50, k=few_or_many)), snapshots_check(f, dr), 150) for f, dr, n in CLS] +
         [Sub(n + "-wide", with_requests(wide()), snapshots_check(f, dr), 8) for f, dr, n in CLS])


# ---------------------------------------------------------------- C11
@st.composite
def with_flags(draw, hist):
    case = draw(hist)
    case["flags"] = draw(flags)
    return case


def snapshot_graph_check(fam, directed):
    def run(case, obs):
        d = Driver(fam, directed, case)
        g, m = d.g, d.m
        fl = case["flags"]
        what = "to_snapshot_graph(%s)" % flag_kw(fam, fl)

        def ask():
            S = g.to_snapshot_graph(**flag_kw(fam, fl))
            items = list(S.snapshots.items())
            keys = [tuple(k) for k, _ in items]
            if fam == "P":
                same(keys, [(t, t) for t in m.times()], what + ": intervals")
                for (a, b), G in items:
                    compare_static(m, G, m.window(a, b), fl, what + " at %r" % (a,))
                if len(keys) >= 3:
                    obs.nt()
                if len(m.edges) > len(keys):
                    obs.hit("several edges at a timestamp")
                return
            long = [e for e in m.edges if e[2] < e[3]]
            zero = sorted({e[2] for e in m.edges if e[2] == e[3]})
            spans = [k for k in keys if k[0] != k[1]]
            same(sorted(k[0] for k in keys if k[0] == k[1]), zero, what + ": instantaneous snapshots")
            ev = {t for e in long for t in e[2:]}
            for a, b in spans:
                check(a < b and a in ev and b in ev, "%s: interval (%r, %r) is not between event times", what, a, b)
            for x, y in zip(spans, spans[1:]):
                check(x[1] <= y[0], "%s: intervals %r and %r overlap", what, x, y)
            for (a, b), G in items:
                want = m.window(a, b)
                for e in want:
                    check(e[2] == e[3] or (e[2] <= a and e[3] >= b), "%s: edge %r begins or ends inside (%r, %r)", what, e, a, b)
                compare_static(m, G, want, fl, what + " (%r, %r)" % (a, b))
            marks = sorted(ev)
            for a, b in zip(marks, marks[1:]):
                if any(e[2] <= a and e[3] >= b for e in long):
                    check(any(k[0] <= a and b <= k[1] for k in spans), "%s: no snapshot covers %r..%r", what, a, b)
            begins, ends = Counter(e[2] for e in long), Counter(e[3] for e in long)
            if max(ends.values(), default=0) > 1 and len(ev) > 2:
                obs.hit("shared end")
            if max(begins.values(), default=0) > 1:
                obs.hit("shared begin")
            if set(begins) & set(ends):
                obs.hit("chained")
            if any(not any(e[2] <= a and e[3] >= b for e in long) for a, b in zip(marks, marks[1:])):
                obs.hit("gap")
            if zero:
                obs.hit("zero-length edges")
                if long:
                    obs.hit("mixed with zero-length edges")
            obs.nt(len(spans) >= 3)
        d.run_asking(case, ask)
    return run


register("C11", "Graphs of all four classes built by histories (shared begins and ends, nested, chained, disjoint and zero-length "
         "intervals, after removals, up to ~60 edges) turned into snapshot graphs with all data flags; intervals, coverage and the "
         "content of every snapshot compared with the model; non-trivial: at least three snapshots.",
         [Sub(n, with_flags(history(max_ops=10, min_ops=2)), snapshot_graph_check(f, dr), 1600) for f, dr, n in CLS] +
         [Sub(n + "-large", with_flags(history(max_ops=3, bulk=60, k=few_or_many)), snapshot_graph_check(f, dr), 250) for f, dr, n in CLS] +
         [Sub(n + "-wide", with_flags(wide(edges=300)), snapshot_graph_check(f, dr), 6) for f, dr, n in CLS])
